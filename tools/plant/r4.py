BUGS=[]
def bug(**k): BUGS.append(k)
HDR='''#include "asmdemo.h"
int main() {
'''
bug(id="directive-name-prefix", property="C09", kind="sys", src=["mnemonic"],
    needs="a directive name of seven characters with more letters after it",
    breaks="names such as .MODULEX and .REMOTEST are accepted as directives",
    edits=[("nsasm/mnemonic.cc","  absl::AsciiStrToUpper(&s);\n  auto iter = lookup->find(s);","  absl::AsciiStrToUpper(&s);\n  auto iter = lookup->find(std::string_view(s).substr(0, 7));")],
    demo='''#include "nsasm/mnemonic.h"
int main() { return nsasm::ToDirectiveName(".modules").has_value() ? 1 : 0; }
''')
bug(id="long-literal-drops-zeros", property="C20",
    needs="a 24-bit literal below $10000, whose spelling alone says it is 24 bits wide",
    breaks="it is printed with fewer digits, and parses back as a word or a byte",
    edits=[("nsasm/expression.cc",'return absl::StrFormat("$%06x", output_value);','return absl::StrFormat("$%x", output_value);')],
    demo='''#include "nsasm/expression.h"
int main() { return nsasm::Literal(0x1234, nsasm::T_long).ToString() == "$001234" ? 0 : 1; }
''', src=["expression","error"])
bug(id="remote-modes-last-wins", property="C31",
    needs="an outside routine declared with .remote and called or declared again with another mode earlier in the file",
    breaks="the reported mode is that of the last .remote instead of the merge of all",
    edits=[("nsasm/module.cc","        it->second |= directive->flag_state_argument;","        it->second = directive->flag_state_argument;")],
    demo='''#include "asmdemo.h"
int main() {
  std::vector<nsasm::File> files = {nsasm::MakeFakeFile("a.asm",
      ".org $8000\\n.entry m8x8\\njsl $028000\\nrts\\n.remote $028000 m16x16\\n")};
  MapSink sink;
  auto r = nsasm::Assemble(files, &sink);
  if (!r.ok()) return 2;
  auto t = r->JumpTargets();
  return t.size() == 1 && t.begin()->second.MBit() != nsasm::B_off ? 0 : 1;
}
''')
bug(id="far-states-replaced", property="C29",
    needs="one routine that calls the same outside routine in two different modes",
    breaks="the mode reported for the outside routine is that of the last call only",
    edits=[("nsasm/disassemble.cc","      it->second |= state.Flags();\n    }\n  };","      it->second = state.Flags();\n    }\n  };")],
    demo='''#include "nsasm/disassemble.h"
using namespace nsasm;
struct Src : InputSource {
  std::vector<uint8_t> b;
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    unsigned at = a.BankAddress() - 0x8000;
    if (at + n > b.size()) return Error("end");
    return std::vector<uint8_t>(b.begin() + at, b.begin() + at + n);
  }
  std::string Path() const override { return "src"; }
};
int main() {
  auto s = std::make_unique<Src>();
  s->b = {0xc2, 0x20, 0x22, 0, 0x80, 2, 0xe2, 0x20, 0x22, 0, 0x80, 2, 0x60};
  Disassembler d(std::move(s));
  auto r = d.Disassemble(Address(0x008000), StatusFlags(B_off, B_on, B_on));
  if (!r.ok()) return 2;
  return r->at(Address(0x028000)).MBit() == B_unknown ? 0 : 1;
}
''')
bug(id="unequal-stacks-merge", property="C37", src=["execution_state","error"],
    needs="two paths that join with different numbers of bytes pushed, followed by a pull",
    breaks="the pull gives back a value that was pushed on one of the paths only",
    edits=[("nsasm/execution_state.h","    if (abandoned_ || rhs.abandoned_ || stack_.size() != rhs.stack_.size()) {\n      Abandon();\n    } else {","    if (abandoned_ || rhs.abandoned_) {\n      Abandon();\n    } else {\n      while (stack_.size() > rhs.stack_.size()) {\n        stack_.pop_back();\n      }")],
    demo='''#include "nsasm/execution_state.h"
using namespace nsasm;
int main() {
  ExecutionState a{StatusFlags(B_off, B_on, B_on)};
  a.GetStack().PushByte(uint8_t(7));
  ExecutionState b = a;
  a.GetStack().PushByte(uint8_t(8));
  a |= b;
  a.PullAccumulator();
  return a.Accumulator().type() == RegisterValue::T_unknown ? 0 : 1;
}
''')
bug(id="swallowed-claim-not-reported", property="C07", kind="sys", src=["ranges","error"],
    needs="a claim that touches the one before it, covers another and touches a third",
    breaks="the overlap is not reported",
    edits=[("nsasm/ranges.cc","    if (insertion_point->second > std::next(insertion_point)->first) {","    if (insertion_point->second > std::prev(merge_end)->first) {")],
    demo='''#include "nsasm/ranges.h"
using nsasm::Address;
int main() {
  nsasm::DataRange r;
  r.ClaimBytes(Address(0x1000), 0x10);
  r.ClaimBytes(Address(0x1014), 4);
  r.ClaimBytes(Address(0x1020), 4);
  return r.ClaimBytes(Address(0x1010), 0x10) ? 1 : 0;
}
''')
bug(id="covering-insert-accepted", property="C08", kind="sys", src=["ranges","error"],
    needs="inserting a range that covers an earlier one and reaches past it on both sides",
    breaks="the insertion is accepted, and addresses change their value",
    edits=[("nsasm/ranges.h","    if (!combined.ClaimBytes(chunk)) {","    const bool conflict = combined.Contains(chunk.first) ||\n                          combined.Contains(chunk.second.AddUnwrapped(-1));\n    combined.ClaimBytes(chunk);\n    if (conflict) {")],
    demo='''#include "nsasm/ranges.h"
using nsasm::Address;
int main() {
  nsasm::RangeMap<int> m;
  nsasm::DataRange a, b;
  a.ClaimBytes(Address(0x1010), 4);
  b.ClaimBytes(Address(0x1000), 0x100);
  return m.Insert(a, 1) && !m.Insert(b, 2) ? 0 : 1;
}
''')
bug(id="highbyte-rounds-to-zero", property="C18", src=["expression","error"],
    needs="the high byte of a negative number that is not a multiple of 256",
    breaks="the result is one too large",
    edits=[("nsasm/expression.h","{ return (a >> 8) & 0xff; };","{ return (a / 256) & 0xff; };")],
    demo='''#include "nsasm/expression.h"
int main() { auto v = nsasm::MakeHighbyteOp().function(-2); return v.ok() && *v == 0xff ? 0 : 1; }
''')
bug(id="longest-label-at-line-end", property="C19",
    needs="+++ or --- with nothing after it, not even a space",
    breaks="it is read as two tokens",
    edits=[("nsasm/token.cc","    if (sv.size() >= 3) {","    if (remain > 3) {")],
    demo='''#include "nsasm/token.h"
int main() {
  auto t = nsasm::Tokenize("---", nsasm::Location());
  return t.ok() && t->size() == 2 ? 0 : 1;
}
''', src=["token","error","mnemonic"])
