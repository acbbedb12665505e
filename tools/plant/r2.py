ROM = ["error", "memory", "rom"]
BUGS = []
def bug(**k): BUGS.append(k)
HEAD = '#include "asmdemo.h"\n'

bug(id="exhirom-low-banks", property="C02", kind="sys", src=ROM,
    needs="an ExHiROM image and an address in the upper half of banks $00-$3F",
    breaks="those banks map to the first 4 MiB instead of the second",
    edits=[("nsasm/rom.cc", "if ((bank & 0x80) == 0) {", "if ((bank & 0xc0) == 0x40) {")],
    demo='''#include "nsasm/rom.h"
int main() {
  auto r = nsasm::SnesToROMAddress(nsasm::Address(0x3e, 0x8123), nsasm::kExHiRom);
  return r.ok() && *r == 0x7e8123 ? 0 : 1;
}
''')
bug(id="identity-error-address", property="C06", kind="sys", src=ROM,
    needs="a checked write that wraps at the end of a bank and first differs after the wrap",
    breaks="the error names an address of the next bank",
    edits=[("nsasm/rom.cc", "address.AddWrapped(i).ToString(), (*actual)[i]);", "address.AddUnwrapped(i).ToString(), (*actual)[i]);")],
    demo='''#include "nsasm/rom.h"
int main() {
  std::vector<uint8_t> data(0x100000, 7);
  nsasm::RomIdentityTest t(std::make_unique<nsasm::Rom>(nsasm::kHiRom, "x.sfc", std::vector<uint8_t>(), data));
  std::vector<uint8_t> w = {7, 7, 8};
  auto r = t.Write(nsasm::Address(0xc3, 0xfffe), w);
  return !r.ok() && r.error().ToString().find("$c30000") != std::string::npos ? 0 : 1;
}
''')
bug(id="location-offset-zero", property="C10", kind="sys", src=["error"],
    needs="an error that has a line, to which the address $000000 is added as its location",
    breaks="the address is dropped and the old line stays",
    edits=[("nsasm/location.h", "if (rhs.offset_type_ != kNone) {", "if (rhs.offset_ != 0) {")],
    demo='''#include "nsasm/error.h"
#include "nsasm/address.h"
int main() {
  nsasm::Error e("oops");
  e.SetLocation(nsasm::Location("f", 12));
  e.SetLocation(nsasm::Address(0));
  return e.ToString() == "f:0x000000: oops" ? 0 : 1;
}
''')
bug(id="read-long-next-bank", property="C12", kind="sys", src=ROM,
    needs="a 3-byte read whose last byte is the first of the bank it wraps in",
    breaks="the top byte comes from the next bank",
    edits=[("nsasm/memory.cc", '''  auto read = Read(address, 3);
  NSASM_RETURN_IF_ERROR(read);
  return (*read)[0] + ((*read)[1] * 256) + ((*read)[2] * 256 * 256);''', '''  auto low = ReadWord(address);
  NSASM_RETURN_IF_ERROR(low);
  auto high = ReadByte(address.AddUnwrapped(2));
  NSASM_RETURN_IF_ERROR(high);
  return *low + *high * 256 * 256;''')],
    demo='''#include "nsasm/rom.h"
int main() {
  std::vector<uint8_t> data(0x100000, 7);
  data[0x30000] = 3;
  data[0x40000] = 4;
  nsasm::Rom rom(nsasm::kHiRom, "x.sfc", {}, data);
  auto r = rom.ReadLong(nsasm::Address(0xc3, 0xfffe));
  return r.ok() && *r == 0x030707 ? 0 : 1;
}
''')
bug(id="combine-signed-wider", property="C13", kind="sys", src=["error"],
    needs="a signed type combined with an unsigned type that is wider",
    breaks="the combination has the width of the signed type",
    edits=[("nsasm/numeric_type.h", "NumericType wider = std::max(Unsigned(lhs), Unsigned(rhs));", "NumericType wider = Unsigned(std::max(lhs, rhs));")],
    demo='''#include <algorithm>
#include "nsasm/numeric_type.h"
using namespace nsasm;
int main() { return ArtihmeticConversion(T_signed_byte, T_long) == T_signed_long ? 0 : 1; }
''')
bug(id="dump-next-bank", property="C11", kind="sh",
    needs="a dump of words or bytes that runs over the end of a bank",
    breaks="items after the end come from the next bank instead of the start of the same one",
    edits=[("util/quick_dump.cc", "address = address.AddWrapped(stride)", "address = address.AddUnwrapped(stride)")],
    demo="",
    sh='''#!/bin/bash
# Builds the dump tool and dumps bytes over the end of a bank.
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
libs=$(pkg-config --libs absl_str_format absl_flat_hash_map absl_strings absl_optional absl_variant absl_inlined_vector absl_flat_hash_set)
g++ -std=c++20 -w -iquote . util/quick_dump.cc nsasm/error.cc nsasm/memory.cc nsasm/rom.cc $libs -o "$t/dump" || exit 2
python3 - "$t/r.sfc" <<'P'
import sys
d = bytearray(0x40000)
for b in range(4): d[b * 0x10000:(b + 1) * 0x10000] = bytes([b + 1]) * 0x10000
d[0xffdc:0xffe0] = b"\\x34\\x12\\xcb\\xed"
open(sys.argv[1], "wb").write(d)
P
"$t/dump" "$t/r.sfc" c1fffe 4 > "$t/out" || exit 1
grep -q '$02, $02, $02, $02' "$t/out"
''')
bug(id="original-from-unknown-e", property="C26", 
    needs="a flag state whose E bit is unknown and whose M bit is still original",
    breaks="M is claimed to be unchanged although emulation mode forces it to 1",
    edits=[("nsasm/execution_state.h", "if (input == B_original && e == B_original) {", "if (input == B_original) {")],
    demo='''#include "nsasm/execution_state.h"
using namespace nsasm;
int main() { return ConstrainedForEBit(B_original, B_unknown) == B_unknown ? 0 : 1; }
''', src=["execution_state"])
bug(id="jump-target-of-other-module", property="C31",
    needs="two files, one jumping to a constant address whose code is in the other",
    breaks="the address is reported as a jump target outside of the program",
    edits=[("nsasm/assembler.cc", "if (!Contains(dest)) {", "if (!module.OwnedBytes().Contains(dest)) {")],
    demo=HEAD+'''
int main() {
  std::vector<nsasm::File> f = {
    nsasm::MakeFakeFile("a", ".org $8000\\n.entry emu\\njsr $9000\\nrts\\n"),
    nsasm::MakeFakeFile("b", ".org $9000\\n.entry emu\\nrts\\n")};
  MapSink sink;
  auto a = nsasm::Assemble(f, &sink);
  return a.ok() && a->JumpTargets().empty() ? 0 : 1;
}
''')
bug(id="qualified-finds-scoped", property="C23",
    needs="a name qualified with the file's own namespace, used in a scope that has a local label of the same name",
    breaks="the local label is taken instead of the file's top-level one",
    edits=[("nsasm/module.cc", '''      if (id.Module() == module_->module_name_) {
        auto li = module_->LocalIndex(id.Identifier(), {});''', '''      if (id.Module() == module_->module_name_) {
        auto li = module_->LocalIndex(id.Identifier(), active_scopes_);''')],
    demo=HEAD+'''
int main() {
  Expect({{"a", ".module m\\n.org $8000\\nx1: .db 1\\n{\\nx1: .dw m::x1\\n}\\n"}}, "008000: 01 00 80");
}
''')
bug(id="unclosed-scope-line", property="C32",
    needs="two or more nested scopes left open at the end of the file",
    breaks="the error names the line of the outermost instead of the innermost open scope", edits=[("nsasm/module.cc", "m.lines_[active_scopes.back()].statement.Location()", "m.lines_[active_scopes.front()].statement.Location()")],
    demo=HEAD+'''
int main() {
  Out o = Go({{"a", ".org $8000\\n{\\n.db 1\\n{\\n.db 2\\n"}});
  return o.error.rfind("a:4:", 0) == 0 ? 0 : 1;
}
''')
bug(id="last-dependency-decides", property="C22",
    needs="a file whose .equ lines use names from two other files, the later-sorted of which comes before it and the other after it",
    breaks="the file is evaluated before one it depends on, and assembly fails for that order of files only",
    edits=[("nsasm/assembler.cc", '''        if (!exported_names.contains(dependency)) {
          all_dependencies_met = false;
          break;
        }''', '''        all_dependencies_met = exported_names.contains(dependency);''')],
    demo=HEAD+'''
int main() {
  std::pair<std::string, std::string>
    p("p", ".module p\\nval .equ q::one + r::two\\n.org $8000\\n.dw val\\n"),
    q("q", ".module q\\none .equ 1\\n"), r("r", ".module r\\ntwo .equ 2\\n");
  Expect({q, r, p}, "008000: 03 00");
  Expect({r, p, q}, "008000: 03 00");
}
''')
bug(id="data-runs-into-next-bank", property="C21",
    needs="statements that run past the end of a bank without a new .org",
    breaks="what follows the end of the bank is put in the next bank",
    edits=[("nsasm/module.cc", "pc = pc->AddWrapped(statement_size);", "pc = pc->AddUnwrapped(statement_size);")],
    demo=HEAD+'''
int main() {
  Expect({{"a", ".org $12fffe\\n.db 1, 2\\nx1: .db 3\\n.dl x1\\n"}}, "120000: 03 00 00 12 12fffe: 01 02");
}
''')
bug(id="remote-prints-no-convention", property="C20",
    needs="a .remote directive with a return convention",
    breaks="the printed directive loses the convention",
    edits=[("nsasm/directive.cc", '''      return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
                          flag_state_argument.ToName(),
                          return_convention_argument.ToSuffixString());''', '''      return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
                          flag_state_argument.ToName());''')],
    demo=HEAD+'''
#include "nsasm/parse.h"
int main() {
  auto t = nsasm::Tokenize(".remote $8000 m8x8 yields m16x16", nsasm::Location("f", 1));
  auto s = nsasm::Parse(*t);
  return absl::get<nsasm::Statement>((*s)[0]).ToString().find("yields") != std::string::npos ? 0 : 1;
}
''')
bug(id="binary-sixteen-digits", property="C19",
    needs="a binary literal of exactly sixteen digits",
    breaks="it is a long instead of a word",
    edits=[("nsasm/token.cc", "} else if (binary_digits.size() <= 16) {", "} else if (binary_digits.size() < 16) {")],
    demo=HEAD+'''
#include "nsasm/token.h"
int main() {
  auto t = nsasm::Tokenize("%0000000000000001", nsasm::Location("f", 1));
  return t.ok() && (*t)[0].Type() == nsasm::T_word ? 0 : 1;
}
''')
bug(id="label-gone-after-second-request", property="C28",
    needs="two disassembly requests where the second one branches into code found by the first at an instruction that had no label",
    breaks="the new label takes the address of one that never existed: branch and label no longer agree",
    edits=[("nsasm/disassemble.cc", "if (it2 != disassembly_.end() && !it2->second.label.empty()) {", "if (it2 != disassembly_.end()) {")],
    demo=HEAD+'''
#include "nsasm/disassemble.h"
using namespace nsasm;
int main() {
  std::vector<uint8_t> d(0x10000, 0xea);
  // 8000: nop nop rts;   8010: bra $8001
  d[2] = 0x60; d[0x10] = 0x80; d[0x11] = 0xef;
  Disassembler dis(std::make_unique<Rom>(kLoRom, "x.sfc", std::vector<uint8_t>(), d));
  if (!dis.Disassemble(Address(0x8000), StatusFlags()).ok()) return 1;
  if (!dis.Disassemble(Address(0x8010), StatusFlags()).ok()) return 1;
  if (!dis.Cleanup().ok()) return 1;
  auto m = dis.Result();
  std::string l = m[Address(0x8001)].label;
  return !l.empty() && m[Address(0x8010)].instruction.arg1.ToString() == l ? 0 : 1;
}
''')
bug(id="fold-over-label", property="C29",
    needs="SEC followed by SBC where the SBC is also a branch target",
    breaks="the two are folded into SUB, so the branch target's instruction is gone",
    edits=[("nsasm/disassemble.cc", '''        next_iter->second.instruction.mnemonic == M_sbc &&
        next_iter->second.label.empty()) {''', '''        next_iter->second.instruction.mnemonic == M_sbc) {''')],
    demo=HEAD+'''
#include "nsasm/disassemble.h"
using namespace nsasm;
int main() {
  std::vector<uint8_t> d(0x10000, 0xea);
  // 8000: bcs $8003; sec; 8003: sbc $10; rts
  uint8_t code[] = {0xb0, 0x01, 0x38, 0xe5, 0x10, 0x60};
  std::copy(code, code + 6, d.begin());
  Disassembler dis(std::make_unique<Rom>(kLoRom, "x.sfc", std::vector<uint8_t>(), d));
  if (!dis.Disassemble(Address(0x8000), StatusFlags()).ok()) return 1;
  if (!dis.Cleanup().ok()) return 1;
  return dis.Result().count(Address(0x8003)) ? 0 : 1;
}
''')
bug(id="stack-offset-range", property="C17",
    needs="the decimal operand 256 where a byte is required (stack offset, REP, SEP, COP, block move)",
    breaks="it is accepted and assembled as 0",
    edits=[("nsasm/addressing_mode.cc", "if (val.ok() && (*val < 0x100 && *val >= -0x80)) {", "if (val.ok() && (*val <= 0x100 && *val >= -0x80)) {")],
    demo=HEAD+'''
int main() { Expect({{"a", ".org $8000\\n.entry m8x8\\nlda 256, s\\nrts\\n"}}, "ERROR"); }
''')
bug(id="export-after-label", property="C16",
    needs="a line with two labels, of which the first is exported and the second is not",
    breaks="the second label is exported too",
    edits=[("nsasm/parse.cc", """  while (!tokens.empty()) {
    // An unexpected""", """  bool exported = false;
  while (!tokens.empty()) {
    // An unexpected"""), ("nsasm/parse.cc", """    bool exported = false;
    if (tokens.front() == P_export) {""", """    if (tokens.front() == P_export) {""")],
    demo=HEAD+"""
int main() {
  Expect({{"a", ".org $8000\\n{\\nexport x1: x2: .db 1\\n}\\n{\\nx2: .dw x1\\n}\\n.dw x2\\n"}}, "ERROR");
}
""")
bug(id="immediate-x-decimal-width", property="C27",
    needs="LDX/LDY/CPX/CPY with a suffix that contradicts the mode when the M flag and X flag differ",
    breaks="the suffix is judged by the wrong flag",
    edits=[("nsasm/instruction.cc", "bool m_flag_used = (flag_used == kUsesMFlag);", "bool m_flag_used = (flag_used != kUsesXFlag || status_flags.XBit() == B_original);")],
    demo=HEAD+'''
int main() {
  Expect({{"a", ".org $8000\\n.entry m8\\nstx.w $1234\\nrts\\n"}}, "008000: 8e 34 12 60");
}
''')
