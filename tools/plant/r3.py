BUGS=[]
def bug(**k): BUGS.append(k)
ROM=["error","memory","rom"]
ES=["error","execution_state","mnemonic"]
HDR='''#include "asmdemo.h"
int main() {
'''
bug(id="varsize-merge-keeps-original", property="C37", src=["execution_state","error"],
    needs="a register of the width it had on entry pushed on two paths, on one of them after it was changed, and the paths merged before the pull",
    breaks="the pulled register is claimed to be as on entry",
    edits=[("nsasm/execution_state.h","      if (value_ != rhs.value_) {\n        value_ = 0;\n      }\n    }\n    return *this;","      value_ |= rhs.value_;\n    }\n    return *this;")],
    demo='''#include "nsasm/execution_state.h"
using namespace nsasm;
int main() {
  ExecutionState a{StatusFlags()}, b{StatusFlags()};
  a.XRegister() = RegisterValue(RegisterValue::T_original);
  b.XRegister() = RegisterValue();
  a.PushXRegister();
  b.PushXRegister();
  a |= b;
  a.PullXRegister();
  return a.XRegister().type() == RegisterValue::T_unknown ? 0 : 1;
}
''')
bug(id="word-pull-mixes-halves", property="C37", src=["execution_state","error"],
    needs="a 16-bit pull where only the low half is a known byte and the high half was pushed as an unknown one",
    breaks="the register is claimed to have a known value",
    edits=[("nsasm/execution_state.h","      } else if (lo_byte.type() == StackValue::T_byte &&\n                 hi_byte.type() == StackValue::T_byte) {\n        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());","      } else if (lo_byte.type() == StackValue::T_byte &&\n                 hi_byte.type() != StackValue::T_flags) {\n        const int hi =\n            hi_byte.type() == StackValue::T_byte ? hi_byte.value() : 0;\n        return RegisterValue((hi << 8) + lo_byte.value());")],
    demo='''#include "nsasm/execution_state.h"
using namespace nsasm;
int main() {
  ExecutionState s{StatusFlags(B_off, B_off, B_off)};
  s.GetStack().PushUnknownByte();
  s.GetStack().PushByte(uint8_t(5));
  s.PullAccumulator();
  return s.Accumulator().type() == RegisterValue::T_unknown ? 0 : 1;
}
''')
bug(id="dey-wraps-by-m", property="C38",
    needs="a known Y counted below zero where M and X differ",
    breaks="Y is claimed to have the wrong value",
    edits=[("nsasm/instruction.cc","      reg = &es->YRegister();\n      if (es->Flags().XBit() == B_on) mask = 0xff;","      reg = &es->YRegister();\n      if (es->Flags().MBit() == B_on) mask = 0xff;")],
    demo='''#include "nsasm/decode.h"
using namespace nsasm;
int main() {
  ExecutionState s{StatusFlags(B_off, B_off, B_on)};
  const uint8_t ldy[] = {0xa0, 0x00}, dey[] = {0x88};
  auto a = Decode(absl::MakeConstSpan(ldy, 2), s.Flags());
  if (!a.ok() || !a->Execute(&s).ok()) return 1;
  auto b = Decode(absl::MakeConstSpan(dey, 1), s.Flags());
  if (!b.ok() || !b->Execute(&s).ok()) return 1;
  return s.YRegister().HasValue() && *s.YRegister() == 0xff ? 0 : 1;
}
''')
bug(id="unknown-rep-keeps-x", property="C38",
    needs="REP or SEP with an operand that is a name, in a mode where X is known to be the opposite",
    breaks="X is still claimed to be known afterwards",
    edits=[("nsasm/instruction.cc","      if (es->Flags().XBit() != target) {\n        es->Flags().SetXBit(B_unknown);","      if (es->Flags().XBit() == B_original) {\n        es->Flags().SetXBit(B_unknown);")],
    demo=HDR+'''  Expect({{"a.asm", ".org $8000\\n.entry m8x8\\nrep #<bits\\nldx #5\\nrts\\nbits .equ $10\\n"}}, "ERROR");
}
''')
bug(id="cop-keeps-carry", property="C25",
    needs="an XCE some way after a COP, with the carry bit set before the COP",
    breaks="the carry is taken to survive the COP handler, so the mode after XCE is wrong",
    edits=[("nsasm/instruction.cc","      es->Flags() = *yield_flags;\n    }\n    es->Flags().SetCBit(B_unknown);","      es->Flags() = *yield_flags;\n    }\n    if (m != M_cop) es->Flags().SetCBit(B_unknown);")],
    demo=HDR+'''  Expect({{"a.asm", ".org $8000\\n.entry unk\\nclc\\ncop #0\\nxce\\nrep #$30\\nlda #5\\nrts\\n"}}, "ERROR");
}
''')
bug(id="remote-name-not-printed", property="C09", kind="sys", src=["mnemonic"],
    needs="printing the name of the last directive",
    breaks=".REMOTE prints as nothing",
    edits=[("nsasm/mnemonic.cc","if (d < D_begin || d > D_remote) {","if (d < D_begin || d >= D_remote) {")],
    demo='''#include "nsasm/mnemonic.h"
int main() { return nsasm::ToString(nsasm::D_remote) == ".REMOTE" ? 0 : 1; }
''')
bug(id="half-checksum", property="C04", kind="sys", src=ROM,
    needs="a file with a complementary pair in the low bytes of one checksum field only, next to a good one",
    breaks="the file is refused, or loaded with the wrong mapping",
    edits=[("nsasm/rom.cc","  bool checksum_ok = (header[0x2c] ^ header[0x2e]) == 0xff &&\n                     (header[0x2d] ^ header[0x2f]) == 0xff;","  bool checksum_ok = (header[0x2c] ^ header[0x2e]) == 0xff;")],
    demo='''#include <cstdio>
#include <vector>
#include "nsasm/rom.h"
int main() {
  std::vector<uint8_t> d(0x10000);
  d[0x7fdc] = 0x12; d[0x7fde] = 0xed; d[0x7fdd] = 0x34; d[0x7fdf] = 0xcb;
  d[0xffdc] = 0x12; d[0xffde] = 0xed; d[0xffdd] = 0x34; d[0xffdf] = 0x34;
  FILE* f = fopen("rom.bin", "wb");
  fwrite(&d[0], 1, d.size(), f);
  fclose(f);
  return nsasm::LoadRomFile("rom.bin").ok() ? 0 : 1;
}
''')
bug(id="loop-state-not-rebuilt", property="C29",
    needs="a loop or join where the state of an instruction already listed weakens, and a branch follows it",
    breaks="the states after the join keep what only the first path knew",
    edits=[("nsasm/disassemble.cc","        di.current_execution_state = combined_execution_state;\n        auto next_execution_state = combined_execution_state;","        auto next_execution_state = di.current_execution_state;\n        di.current_execution_state = combined_execution_state;")],
    demo='''#include "nsasm/disassemble.h"
using namespace nsasm;
struct Src : InputSource {
  std::vector<uint8_t> b;
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    unsigned at = a.BankAddress() - 0x8000;
    if (at + n > b.size()) return Error("end");
    return std::vector<uint8_t>(b.begin() + at, b.begin() + at + n);
  }
  std::string Path() const override { return "src"; }
};
int main() {
  auto s = std::make_unique<Src>();
  // clc; nop; nop; sec; bne to the first nop; rts
  s->b = {0x18, 0xea, 0xea, 0x38, 0xd0, 0xfb, 0x60};
  Disassembler d(std::move(s));
  if (!d.Disassemble(Address(0x008000), StatusFlags()).ok()) return 1;
  return d.Result().at(Address(0x008002)).current_execution_state.Flags().CBit() == B_unknown ? 0 : 1;
}
''')
bug(id="family-of-wide-tsb", property="C14", src=["opcode_map","error","mnemonic","addressing_mode","expression"],
    needs="asking for the family of TSB with a 16-bit address",
    breaks="it is said to be on the 6502",
    edits=[("nsasm/opcode_map.cc","{M_tsb, A_dir_w, F_65C02}","{M_tsb, A_dir_w, F_6502}")],
    demo='''#include "nsasm/opcode_map.h"
int main() { return nsasm::FamilyForOpcode(0x0c) == nsasm::F_65C02 ? 0 : 1; }
''')
bug(id="duplicate-label-at-file-start", property="C32",
    needs="a scope left open in a file which has other scopes, closed, after it",
    breaks="the error names the last statement, not the scope that is open",
    edits=[("nsasm/module.cc",".SetLocation(m.lines_[active_scopes.back()].statement.Location());",".SetLocation(m.lines_.back().statement.Location());")],
    demo=HDR+'''  Out o = Go({{"a.asm", ".org $8000\\n.begin\\n.begin\\n.end\\n.db 1\\n"}});
  return !o.ok && o.error.find("a.asm:2") == 0 ? 0 : 1;
}
''')
bug(id="empty-module-name-crash", property="C34",
    needs="a file without any statement but with an .entry at its very end",
    breaks="an out-of-range line is looked at instead of reporting the error",
    edits=[("nsasm/module.cc","    if (node.first == lines_.size()) {","    if (node.first > lines_.size()) {")],
    demo=HDR+'''  Out o = Go({{"a.asm", ".org $8000\\nnop\\n.entry unk\\n"}});
  return !o.ok && o.error.find("a.asm:") == 0 ? 0 : 1;
}
''')
TOOL='''#!/bin/bash
# Builds %(tool)s from the repository's sources and runs it on a made-up ROM.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
pids=()
for f in %(src)s; do
  g++ -std=c++20 -w -iquote . -I "$here/shim" -c "$f" -o "$t/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 2; done
g++ "$t"/*.o -o "$t/tool" || exit 2
cd "$t"
%(body)s
'''
MK='''python3 - "$t/rom.sfc" <<'P'
import sys
d = bytearray(0x10000)
d[0x7fdc:0x7fe0] = bytes([0x12, 0x34, 0xed, 0xcb])
def put(at, *b): d[at:at + len(b)] = bytes(b)
%s
open(sys.argv[1], "wb").write(d)
P
'''
ALLSRC=" ".join("nsasm/%s.cc"%n for n in "error mnemonic execution_state calling_convention token expression addressing_mode opcode_map instruction directive statement parse memory decode ranges file module assembler disassemble rom".split())
bug(id="callers-modes-replaced", property="C35", kind="sh", with_shim=True,
    needs="one pass in which two routines call the same third one in different modes",
    breaks="only the mode of the last caller is used, so code is listed with a width that is wrong for the other",
    edits=[("util/disassemble_more.cc","      it->second |= node.second;","      it->second = node.second;")],
    demo="", sh=TOOL%dict(tool="disassemble_more",src=ALLSRC+" util/disassemble_more.cc",body=MK%'''put(0, 0x20, 0x10, 0x80, 0x20, 0x20, 0x80, 0x60)   # jsr $8010; jsr $8020; rts
put(0x10, 0xc2, 0x20, 0x20, 0x30, 0x80, 0x60)  # rep #$20; jsr $8030; rts
put(0x20, 0xe2, 0x20, 0x20, 0x30, 0x80, 0x60)  # sep #$20; jsr $8030; rts
put(0x30, 0xa9, 0x01, 0xea, 0x60)              # lda #...: not decidable'''+'''printf '.org $8000\\n.entry native\\njsr $8010\\njsr $8020\\nrts\\n' > a.asm
./tool rom.sfc a.asm > out || exit 1
grep -q "ERROR branching to .008030" out'''))
bug(id="continues-over-a-gap", property="C36", kind="sh", with_shim=True,
    needs="an exit instruction followed by a gap of one byte and then a branch target",
    breaks="the bytes in the gap are listed as code, in the state of the target behind it",
    edits=[("util/dumb_disassemble.cc","      if (next_instruction_it->first > next_pc) {","      if (next_instruction_it->first > next_pc.AddWrapped(1)) {")],
    demo="", sh=TOOL%dict(tool="dumb_disassemble",src=ALLSRC+" util/dumb_disassemble.cc",body=MK%'''put(0, 0xd0, 0x02, 0x60, 0xea, 0x60)'''+'''./tool rom.sfc 8000 native > out || exit 1
grep -q "Gap found here" out'''))
bug(id="failed-save-reported-as-success", property="C33", kind="sh", with_shim=True,
    needs="one source file, and an output path that cannot be written",
    breaks="the exit status is 0 and nothing is said",
    edits=[("util/quick_assemble.cc","    if (!write_status.ok()) {","    if (!write_status.ok() && asm_files.size() > 1) {")],
    demo="", sh=TOOL%dict(tool="quick_assemble",src=ALLSRC+" util/quick_assemble.cc",body=MK%"pass"+'''printf '.org $8000\\n.db 1\\n' > a.asm
./tool rom.sfc "$t/no/such/dir/out.sfc" a.asm > out && exit 1
exit 0'''))
