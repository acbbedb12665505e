ROM = ["error", "memory", "rom"]
BUGS = []
def bug(**k): BUGS.append(k)
HEAD = '#include "asmdemo.h"\n'

bug(id="half-bank-difference", property="C01", kind="sys", src=["error"],
    needs="two addresses of one bank exactly 32768 apart",
    breaks="the difference comes out as +32768 instead of -32768, outside the documented range",
    edits=[("nsasm/address.h", "return (offset > 0x7fff) ? offset - 0x10000 : offset;", "return (offset > 0x8000) ? offset - 0x10000 : offset;")],
    demo='''#include <cassert>
#include "nsasm/address.h"
int main() {
  auto d = nsasm::Address(5, 0x9000).SubtractWrapped(nsasm::Address(5, 0x1000));
  return d.ok() && *d == -32768 ? 0 : 1;
}
''')
bug(id="wrapped-read-short", property="C03", kind="sys", src=ROM,
    needs="a read that wraps at the end of its bank and runs past the end of the image after the wrap",
    breaks="the read returns fewer bytes than asked for instead of an error",
    edits=[("nsasm/rom.cc", '''      if (*rom_address >= data_.size()) {
        return Error("Address past end of ROM")
            .SetLocation(path_, address.AddWrapped(i));
      }
      result.push_back''', '''      if (*rom_address >= data_.size()) {
        break;
      }
      result.push_back''')],
    demo='''#include <cassert>
#include "nsasm/rom.h"
int main() {
  // HiROM image of 3 MiB less a page: the last page of bank $EF is missing,
  // and so is everything in banks $F0 on.
  std::vector<uint8_t> data(0x2f0000 + 0x8000, 7);
  nsasm::Rom rom(nsasm::kHiRom, "x.sfc", {}, data);
  // a long read that starts in the image, leaves it, and wraps back into it
  auto r = rom.Read(nsasm::Address(0xef, 0x7fff), 0x10000);
  return r.ok() ? 1 : 0;
}
''')
bug(id="exhirom-at-4mib", property="C04", kind="sys", src=ROM,
    needs="a ROM file of exactly 4 MiB with a HiROM header",
    breaks="it is loaded as HiROM instead of ExHiROM, so addresses map to the wrong half",
    edits=[("nsasm/rom.cc", "} else if (file_size < 0x400000) {", "} else if (file_size <= 0x400000) {")],
    demo='''#include <cassert>
#include "nsasm/rom.h"
int main() {
  std::vector<uint8_t> data(0x400000, 1);
  data[0xffdc] = 0x34, data[0xffdd] = 0x12, data[0xffde] = 0xcb, data[0xffdf] = 0xed;
  data[0x3fdc] = 9;
  FILE* f = fopen("rom.sfc", "wb");
  fwrite(&data[0], 1, data.size(), f);
  fclose(f);
  auto rom = nsasm::LoadRomFile("rom.sfc");
  if (!rom.ok()) return 1;
  // bank $40 is in the second 4 MiB of an ExHiROM cartridge: not there
  return (*rom)->Read(nsasm::Address(0x40, 0x3fdc), 1).ok() ? 1 : 0;
}
''')
bug(id="overwrite-leaves-bank", property="C05", kind="sys", src=ROM,
    needs="a write that runs over the end of a bank of a HiROM image",
    breaks="the bytes after the end go into the next bank instead of wrapping to the start of this one",
    edits=[("nsasm/rom.cc", "        SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);", "        SnesToROMAddress(address.AddUnwrapped(i), rom_->mapping_mode_);")],
    demo='''#include <cassert>
#include "nsasm/rom.h"
int main() {
  std::vector<uint8_t> data(0x20000, 1);
  nsasm::RomOverwriter out(std::make_unique<nsasm::Rom>(nsasm::kHiRom, "x.sfc", std::vector<uint8_t>(), data));
  std::vector<uint8_t> w = {5, 6};
  if (!out.Write(nsasm::Address(0xc0, 0xffff), w).ok()) return 1;
  if (!out.CreateFile("out.sfc").ok()) return 1;
  FILE* f = fopen("out.sfc", "rb");
  std::vector<uint8_t> got(0x20000);
  if (fread(&got[0], 1, got.size(), f) != got.size()) return 1;
  return got[0xffff] == 5 && got[0] == 6 && got[0x10000] == 1 ? 0 : 1;
}
''')
bug(id="second-bank-half-unclaimed", property="C07", kind="sys", src=["error", "ranges"],
    needs="a claim that wraps at its bank end, whose part before the wrap is already claimed",
    breaks="the part after the wrap is not recorded",
    edits=[("nsasm/ranges.cc", "success = ClaimBytes(chunk) && success;", "success = success && ClaimBytes(chunk);")],
    demo='''#include "nsasm/ranges.h"
int main() {
  nsasm::DataRange r;
  r.ClaimBytes(nsasm::Address(1, 0xfffe), 2);
  r.ClaimBytes(nsasm::Address(1, 0xfffe), 6);
  return r.Contains(nsasm::Address(1, 3)) ? 0 : 1;
}
''')
bug(id="right-merge-overwrites-end", property="C07", kind="sys", src=["error", "ranges"],
    needs="a claim that starts before a longer range and ends inside it",
    breaks="the rest of the longer range is forgotten",
    edits=[("nsasm/ranges.cc", '''    insertion_point->first = new_chunk.first;
    insertion_point->second =
        std::max(insertion_point->second, new_chunk.second);
''', '''    *insertion_point = Chunk(
        new_chunk.first,
        overlaps_existing ? new_chunk.second : insertion_point->second);
''')],
    demo='''#include "nsasm/ranges.h"
int main() {
  nsasm::DataRange r;
  r.ClaimBytes(nsasm::Address(1, 8), 8);
  r.ClaimBytes(nsasm::Address(1, 4), 8);
  return r.Contains(nsasm::Address(1, 14)) ? 0 : 1;
}
''')
bug(id="refused-insert-leaks", property="C08", kind="sys", src=["error", "ranges"],
    needs="a refused insert of several ranges whose first range was free",
    breaks="the free range is left claimed, so a later insert of it is refused",
    edits=[("nsasm/ranges.h", '''  DataRange combined = used_;
  for (Chunk chunk : range.Chunks()) {
    if (!combined.ClaimBytes(chunk)) {''', '''  DataRange& combined = used_;
  for (Chunk chunk : range.Chunks()) {
    if (!combined.ClaimBytes(chunk)) {'''),
           ("nsasm/ranges.h", "  used_ = std::move(combined);\n", "")],
    demo='''#include "nsasm/ranges.h"
int main() {
  nsasm::RangeMap<int> m;
  nsasm::DataRange a, b, c;
  a.ClaimBytes(nsasm::Address(1, 100), 4);
  b.ClaimBytes(nsasm::Address(1, 50), 4);
  b.ClaimBytes(nsasm::Address(1, 102), 4);
  c.ClaimBytes(nsasm::Address(1, 52), 4);
  if (!m.Insert(a, 1) || m.Insert(b, 2)) return 1;
  return m.Insert(c, 3) && *m.Lookup(nsasm::Address(1, 53)) == 3 ? 0 : 1;
}
''')
bug(id="divide-right-associative", property="C18",
    needs="an expression with a division followed by another * or /",
    breaks="`a / b * c` is grouped from the right",
    edits=[("nsasm/parse.cc", '''    pos->remove_prefix(1);
    auto rhs = Factor(pos);
    NSASM_RETURN_IF_ERROR(rhs);
    ExpressionOrNull combined''', '''    pos->remove_prefix(1);
    auto rhs = (oper.symbol == '/') ? Term(pos) : Factor(pos);
    NSASM_RETURN_IF_ERROR(rhs);
    ExpressionOrNull combined''')],
    demo=HEAD + '''int main() { Expect({{"a", ".org $8000\\n.dw 100/5*4, 100*4/5, 64/4/2\\n"}}, "008000: 50 00 50 00 08 00"); }
''')
bug(id="move-operands-swapped", property="C15",
    needs="MVN or MVP with different source and destination banks",
    breaks="decoder and encoder agree with one another but have the operands in the wrong order in memory",
    edits=[("nsasm/decode.cc", '''    decoded.arg1 = absl::make_unique<Literal>(bytes[1], T_byte);
    decoded.arg2 = absl::make_unique<Literal>(bytes[0], T_byte);''', '''    decoded.arg1 = absl::make_unique<Literal>(bytes[0], T_byte);
    decoded.arg2 = absl::make_unique<Literal>(bytes[1], T_byte);'''),
           ("nsasm/instruction.cc", '''    *(output++) = (*val2 & 0xff);
    *(output++) = (*val1 & 0xff);''', '''    *(output++) = (*val1 & 0xff);
    *(output++) = (*val2 & 0xff);''')],
    demo=HEAD + '''int main() { Expect({{"a", ".org $8000\\n.entry m8x8\\nmvn #$12, #$34\\nrts\\n"}}, "008000: 54 34 12 60"); }
''')
bug(id="own-qualified-equ", property="C23",
    needs="a .equ that names a label of its own module with the module's name in front",
    breaks="the module is thought to depend on another one, and assembly fails with a cyclic dependency",
    edits=[("nsasm/module.cc", "      if (id.Module() != module_->module_name_) {", "      if (id.Module() != module_->module_name_ || !active_scopes_.empty()) {")],
    demo=HEAD + '''int main() { Expect({{"a", ".module foo\\n.org $8000\\nbase: .db 1\\n{\\nthere .equ foo::base + 1\\n.dw there\\n}\\n"}}, "008000: 01 01 80"); }
''')
bug(id="jump-state-first-module", property="C31",
    needs="two modules that jump to the same outside address in different processor modes",
    breaks="the state of the first module's call is reported for the target, instead of what both have in common",
    edits=[("nsasm/assembler.cc", '''        } else {
          it->second |= node.second;
        }
      }
    }
  }
  return ret;''', '''        } else if (!(it->second.MBit() == node.second.MBit())) {
          it->second |= node.second;
        }
      }
    }
  }
  return ret;''')],
    demo=HEAD + '''int main() {
  std::vector<nsasm::File> f = {nsasm::MakeFakeFile("a", ".org $8000\\n.entry m8x8\\njsr $9000\\nrts\\n"), nsasm::MakeFakeFile("b", ".org $8100\\n.entry m8x16\\njsr $9000\\nrts\\n")};
  MapSink sink;
  auto a = nsasm::Assemble(f, &sink);
  if (!a.ok()) return 1;
  auto t = a->JumpTargets();
  return t.size() == 1 && t.begin()->second.ToName() == "m8" ? 0 : 1;
}
''')
bug(id="claim-crosses-bank", property="C24",
    needs="a statement whose bytes wrap at the end of a bank, and another one at the start of that bank",
    breaks="the wrapped bytes are accounted to the next bank, so a byte is assembled twice",
    edits=[("nsasm/module.cc", "if (!owned_bytes_.ClaimBytes(address, size)) {", "if (!owned_bytes_.ClaimBytes(Chunk(address, address.AddUnwrapped(size)))) {")],
    demo=HEAD + '''int main() { Expect({{"a", ".org $12ffff\\n.dw $1234\\n"}, {"b", ".org $120000\\n.db 1\\n"}}, "ERROR"); }
''')
bug(id="plp-restores-e", property="C25",
    needs="code that changes the emulation bit between PHP and PLP",
    breaks="PLP is taken to restore the emulation bit, so M and X are thought to be known",
    edits=[("nsasm/execution_state.h", '''      flags_ = StatusFlags(flags_.EBit(), new_flags.MBit(), new_flags.XBit(),
                           new_flags.CBit());''', '''      flags_ = StatusFlags(new_flags.EBit(), new_flags.MBit(), new_flags.XBit(),
                           new_flags.CBit());''')],
    demo=HEAD + '''int main() {
  // native with 16-bit registers; php; to emulation mode; plp there leaves M and X at 1
  Expect({{"a", ".org $8000\\n.entry m16x16\\nphp\\nsec\\nxce\\nplp\\nlda #$12\\nrts\\n"}}, "008000: 08 38 fb 28 a9 12 60");
}
''')
bug(id="stack-flags-not-merged", property="C25",
    needs="two paths that push the status register in different modes, meet, and pull it again",
    breaks="the pulled mode is taken from one of the paths",
    edits=[("nsasm/execution_state.h", "      flags_ |= rhs.flags_;\n    } else if (type_ == T_a_varsize", "      if (flags_.EBit() != rhs.flags_.EBit()) flags_ |= rhs.flags_;\n    } else if (type_ == T_a_varsize")],
    demo=HEAD + '''int main() {
  Expect({{"a", ".org $8000\\n.entry native\\nbcc one\\nrep #$20\\nphp\\nbra two\\none: sep #$20\\nphp\\ntwo: plp\\nlda #$12\\nrts\\n"}}, "ERROR");
}
''')
bug(id="branch-limit-minus-128", property="C30",
    needs="a short branch exactly 128 bytes back",
    breaks="the farthest reachable target is refused",
    edits=[("nsasm/instruction.cc", "if (*offset > 127 || *offset < -128) {", "if (*offset > 127 || *offset <= -128) {")],
    demo=HEAD + '''int main() {
  std::string s = ".org $8000\\n.entry m8x8\\ntop: nop\\n", b;
  for (int i = 0; i < 125; ++i) s += "nop\\n";
  Expect({{"a", s + "bra top\\n"}}, [] { std::string r = "008000:"; for (int i = 0; i < 126; ++i) r += " ea"; return r + " 80 80"; }());
}
''')
bug(id="long-suffix-x", property="C27",
    needs="an instruction that follows the X flag, with a .w suffix, where X is known to be set but M is not",
    breaks="the suffix is checked against the wrong flag, and a contradiction is accepted",
    edits=[("nsasm/instruction.cc", '''        m_flag_used ? status_flags.MBit() : status_flags.XBit();
    char flag_char''', '''        (m_flag_used || suffix == S_w) ? status_flags.MBit()
                                       : status_flags.XBit();
    char flag_char''')],
    demo=HEAD + '''int main() { Expect({{"a", ".org $8000\\n.entry x8\\nldx.w $12\\nrts\\n"}}, "ERROR"); }
''')
