// C28: what the disassembler prints assembles back to the same bytes.
#include "asm_run.h"
#include "disasm_run.h"

using namespace dis;
using namespace nsasm;

// As util/quick_disassemble.cc lists a result.
static std::string Print(const DisassemblyMap& dm) {
  std::string s;
  uint32_t pc = 0xffffffff;
  for (auto& e : dm) {
    const Instruction& ins = e.second.instruction;
    if (Num(e.first) != pc) s += " .org " + e.first.ToString() + "\n";
    pc = Wrap(Num(e.first), ins.SerializedSize());
    std::string label = e.second.label;
    if (!label.empty()) label += ":";
    if (e.second.is_entry) {
      s += label + " .entry " + e.second.current_execution_state.Flags().ToString() + "\n";
      label.clear();
    }
    s += label + " " + ins.ToString() + " ; " + e.first.ToString() + " " + e.second.next_execution_state.Flags().ToString() + "\n";
  }
  return s;
}

static void listing(Case& c) {
  Options o;
  o.per = false;  // see KNOWN_FINDINGS.txt
  o.wild = c.coin(1, 4);
  o.routines = 5;
  o.body = 14;
  if (c.coin(1, 30)) o.routines = 24, o.body = c.range(10, 60);
  if (c.coin(1, 80)) o.tame = true, o.wild = false, o.routines = c.range(4, 70), o.body = c.range(10, 60), c.label("tame");
  if (o.tame && c.coin(1, 3)) o.routines = c.range(1, 3), o.body = c.range(200, 2000), c.label("tame, one long routine");
  Gen g(c, o);
  Image im = g.Make();
  Convs convs;
  if (c.coin(1, 3)) convs = SomeConvs(c, im);
  c.note("image:" + dis::Show(im) + "\nconventions:" + ShowConvs(convs) + "\n");
  Disassembler d(std::make_unique<Source>(im));
  d.AddTargetReturnConventions(ToConvs(convs));
  std::map<Address, StatusFlags> seeds;
  for (int i = c.range(1, 3); i > 0; --i) {
    uint32_t a = c.coin(1, 8) ? im.code[c.draw(im.code.size())] : im.routines[c.draw(im.routines.size())];
    const char* n = c.weighted({5, 1}) ? c.pick(kModeNames) : c.pick({"m8x8", "m16x16", "m8x16", "m16x8", "emu", "native"});
    c.note(fmt(" %06x ", a) + n);
    seeds.emplace(Addr(a), *StatusFlags::FromName(n));
  }
  std::set<uint32_t> far;
  for (int pass = 0; pass < 100 && !seeds.empty(); ++pass) {
    std::map<Address, StatusFlags> next;
    for (auto& s : seeds) {
      auto r = d.Disassemble(s.first, s.second);
      if (!r.ok()) { c.label("some request failed"); continue; }
      for (auto& t : *r) {
        auto it = next.find(t.first);
        if (it == next.end()) next[t.first] = t.second;
        else it->second |= t.second;
        far.insert(Num(t.first));
      }
    }
    seeds = std::move(next);
  }
  c.check(seeds.empty(), "still finding new states after 100 passes");
  c.check(d.Cleanup().ok(), "Cleanup failed");
  if (d.Result().empty()) { c.label("empty"); return; }
  std::string text = Print(d.Result());
  c.note("\n" + text);
  std::map<uint32_t, uint8_t> want;
  bool overlap = false;
  for (auto& e : d.Result()) {
    for (int i = 0; i < e.second.instruction.SerializedSize(); ++i) {
      uint32_t a = Wrap(Num(e.first), i);
      overlap = overlap || !want.emplace(a, im.at(a)).second;
    }
    Flags f = Of(e.second.current_execution_state.Flags());
    if (e.second.is_entry && f.e < 0 && (f.m >= 0 || f.x >= 0)) { c.label("skipped: no name for the state"); return; }  // see KNOWN_FINDINGS.txt
    if (e.second.instruction.mnemonic == M_per) { c.label("skipped: per"); return; }
  }
  if (overlap) { c.label("skipped: overlapping instructions"); return; }
  for (auto& e : d.Result()) {
    uint32_t pc = Num(e.first), size = e.second.instruction.SerializedSize();
    if ((pc & 0xffff) + size < 0x10000) continue;
    bool goes_on = !e.second.instruction.IsExitInstruction();
    if (goes_on || (pc & 0xffff) + size > 0x10000) { c.label("skipped: code wraps at the end of its bank"); return; }  // see KNOWN_FINDINGS.txt
  }
  auto r = run::Files({{"d.asm", text}});
  c.check(r.ok, "the listing does not assemble: " + r.error);
  c.check(!r.twice, "bytes are written twice");
  std::string diff = run::FirstDiff(r.bytes, want);
  c.check(diff.empty(), "the listing assembles to something else: " + diff);
  auto targets = r.as->JumpTargets();
  std::set<uint32_t> got;
  for (auto& t : targets) got.insert(Num(t.first));
  for (uint32_t t : far) {
    bool inside = want.count(t);
    c.check_f(got.count(t) == !inside, [&] { return fmt("$%06x is %sa jump target of the listing", t, inside ? "" : "not "); });
  }
  c.check(got.size() <= far.size(), "the listing has jump targets that the code has not");
  c.nontrivial(d.Result().size() >= 8 && far.size() >= 1);
  c.label(d.Result().size() < 8 ? "short" : d.Result().size() < 30 ? "medium" : d.Result().size() < 1000 ? "long" : "very long");
  c.evals(want.size());
  if (text.find(" add ") != text.npos || text.find(" sub ") != text.npos || text.find("add.") != text.npos) c.label("add/sub");
  if (text.find("yields") != text.npos) c.label("yields");
  if (text.find("noreturn") != text.npos) c.label("noreturn");
  int entries = 0;
  for (auto& e : d.Result()) entries += e.second.is_entry;
  if (entries > 1) c.label("several entries");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C28";
  cfg.rule = "random machine code images of up to five routines (some of up to 24, or of 70 with thousands of instructions), disassembled the way quick_disassemble does it (following the targets found), printed and assembled again; non-trivial: at least eight instructions and a far target";
  cfg.tests = {{"listing", listing}};
  cfg.quick_cases = 25000;
  cfg.thorough_cases = 3000000;
  return pbt::main_(cfg, argc, argv);
}
