// C29: a disassembly holds exactly the code that can run, decoded as it runs.
#include "disasm_run.h"

using namespace dis;
using namespace nsasm;

struct Session {
  Case& c;
  Image im;
  Convs convs;
  std::unique_ptr<Disassembler> d;
  std::vector<std::pair<uint32_t, Flags>> starts;  // of requests that succeeded
  std::map<uint32_t, Flags> far;                   // every far target reported
  CoarseMap coarse;
  bool coarse_ok = true;
  int limit = 150;                                 // steps of a run
};

static const DisassembledInstruction& At(Session& s, uint32_t pc, const std::string& how) {
  auto it = s.d->Result().find(Addr(pc));
  if (it == s.d->Result().end()) s.c.fail(fmt("$%06x is not in the disassembly, but is run after", pc) + how);
  return it->second;
}

// Runs from one start; every step must be as the disassembly says.
static void Emulate(Session& s, uint32_t start, const Flags& f, std::set<uint32_t>* seen) {
  Case& c = s.c;
  cpu::Cpu cpu(c);
  cpu.Enter({f.e, f.m, f.x});
  if (f.c >= 0) cpu.carry = f.c;
  uint32_t pc = start;
  std::string how;
  for (int steps = 0; steps < s.limit; ++steps) {
    const DisassembledInstruction& di = At(s, pc, how);
    how += fmt(" %06x", pc);
    if (how.size() > 300) how = " ..." + how.substr(how.size() - 200);
    auto where = [&] { return fmt(" at $%06x with e=%d m=%d x=%d c=%d, after", pc, cpu.e, cpu.m, cpu.x, cpu.carry) + how; };
    seen->insert(pc);
    Flags in = Of(di.current_execution_state.Flags());
    if (!Covers(in, cpu)) c.fail("recorded state " + Str(in) + " is wrong" + where());
    int op = s.im.at(pc);
    if (op < 0) c.fail("nothing to run" + where());
    const ref::Op& o = ref::Matrix()[op];
    const Instruction& ins = di.instruction;
    if (ins.mnemonic != ref::MnEnum(o.mn)) c.fail("the processor runs " + o.mn + ", not " + ins.ToString() + where());
    int width = ref::OperandBytes(o.mode, cpu.m == 1, cpu.x == 1);
    if (InstructionLength(ins.addressing_mode) != 1 + width) c.fail(fmt("the processor fetches %d bytes, not %d,", 1 + width, InstructionLength(ins.addressing_mode)) + where());
    uint32_t operand = 0;
    for (int b = 0; b < width; ++b) {
      int v = s.im.at(Wrap(pc, 1 + b));
      if (v < 0) c.fail("operand cannot be fetched" + where());
      operand |= (uint32_t)v << (8 * b);
    }
    uint32_t next = Wrap(pc, 1 + width);
    auto st = cpu.Step(o.mn, operand, o.mode);
    uint32_t to;
    const Conv* conv = nullptr;
    if (FarTarget(o, pc, operand, &to)) {
      auto it = s.far.find(to);
      if (it == s.far.end()) c.fail(fmt("far target $%06x is not reported", to) + where());
      if (!Covers(it->second, cpu, false)) c.fail(fmt("far target $%06x is reported with ", to) + Str(it->second) + where());
      auto k = s.convs.find(to);
      if (k != s.convs.end() && o.mn != "jmp") conv = &k->second;
    }
    if (st == cpu::Cpu::kStop) return;
    if (st == cpu::Cpu::kCall) {
      if (conv && conv->noreturn) return;
      cpu.Return(conv && conv->yields ? &conv->mode : nullptr);
    }
    if (st == cpu::Cpu::kBranch) {
      int d = o.mode == "r" ? (int8_t)operand : (int16_t)operand;
      pc = Wrap(next, d);
      continue;
    }
    Flags out = Of(di.next_execution_state.Flags());
    if (!Covers(out, cpu)) c.fail("state after the instruction, " + Str(out) + ", is wrong" + fmt(" (e=%d m=%d x=%d c=%d)", cpu.e, cpu.m, cpu.x, cpu.carry) + where());
    pc = next;
  }
}

// Everything reachable from the starts, going by the disassembly's own lengths.
static void Closure(Session& s) {
  std::vector<uint32_t> todo;
  for (auto& st : s.starts) todo.push_back(st.first);
  std::set<uint32_t> seen, labelled(todo.begin(), todo.end());
  std::map<uint32_t, Flags> far;
  while (!todo.empty()) {
    uint32_t pc = todo.back();
    todo.pop_back();
    if (!seen.insert(pc).second) continue;
    auto& di = At(s, pc, " (by control flow)");
    int op = s.im.at(pc);
    s.c.check(op >= 0, fmt("$%06x is unreadable", pc));
    const ref::Op& o = ref::Matrix()[op];
    int width = InstructionLength(di.instruction.addressing_mode) - 1;
    uint32_t operand = 0;
    for (int b = 0; b < width; ++b) operand |= (uint32_t)std::max(0, s.im.at(Wrap(pc, 1 + b))) << (8 * b);
    uint32_t next = Wrap(pc, 1 + width), to;
    bool exit = IsExit(o.mn);
    if (FarTarget(o, pc, operand, &to)) {
      far[to];
      auto k = s.convs.find(to);
      bool has = o.mn != "jmp" && k != s.convs.end();
      if (has && k->second.noreturn) exit = true;
      bool none = di.instruction.return_convention.IsDefault();
      s.c.check_f(has != none, [&] { return fmt("call at $%06x: wrong return convention ", pc) + di.instruction.ToString(); });
      if (has) {
        s.c.check_f(di.instruction.return_convention.IsExitCall() == k->second.noreturn, [&] { return fmt("call at $%06x: wrong return convention ", pc) + di.instruction.ToString(); });
        auto y = di.instruction.return_convention.YieldFlags();
        if (k->second.yields)
          s.c.check_f(y && Of(*y) == Flags{k->second.mode.e, k->second.mode.m, k->second.mode.x, -1}, [&] { return fmt("call at $%06x: wrong return convention ", pc) + di.instruction.ToString(); });
      }
    } else s.c.check_f(di.instruction.return_convention.IsDefault(), [&] { return fmt("$%06x has a return convention ", pc) + di.instruction.ToString(); });
    if (o.mode == "r" || o.mn == "brl") {
      uint32_t t = Wrap(next, o.mode == "r" ? (int8_t)operand : (int16_t)operand);
      labelled.insert(t);
      todo.push_back(t);
    }
    if (!exit) todo.push_back(next);
  }
  for (auto& e : s.d->Result()) {
    s.c.check_f(seen.count(Num(e.first)), [&] { return fmt("$%06x is in the disassembly but cannot be reached", Num(e.first)); });
    s.c.check_f(labelled.count(Num(e.first)) == !e.second.label.empty(), [&] { return fmt("$%06x has label '", Num(e.first)) + e.second.label + "'"; });
  }
  for (auto& e : far) s.c.check_f(s.far.count(e.first), [&] { return fmt("far target $%06x is not reported", e.first); });
  for (auto& e : s.far) s.c.check_f(far.count(e.first), [&] { return fmt("far target $%06x is reported, but nothing goes there", e.first); });
}

static bool Request(Session& s, uint32_t start, const Flags& f) {
  Case& c = s.c;
  c.note(fmt("\nat $%06x with ", start) + Str(f));
  std::string before = Dump(s.d->Result());
  CoarseMap coarse = s.coarse;
  bool sure = s.coarse_ok && Coarse(s.im, s.convs, start, f, &coarse);
  auto r = s.d->Disassemble(Addr(start), To(f));
  if (!r.ok()) {
    std::string msg = r.error().ToString();
    c.note(" -> " + msg);
    c.check(!sure, "refused though every instruction can be decoded: " + msg);
    c.check(msg.rfind("img.sfc:", 0) == 0, "the error does not name the source: " + msg);
    c.check(Dump(s.d->Result()) == before, "a failed request changed the result");
    c.label(msg.find("unreadable") != msg.npos ? "fails: unreadable" : msg.find("not known") != msg.npos || msg.find("unknown") != msg.npos ? "fails: width unknown" : msg.find("Not enough bytes") != msg.npos ? "fails: cut off" : "fails: other");
    return false;
  }
  if (s.coarse_ok && !sure) c.label("needed the stack analysis");
  s.coarse = coarse;
  s.coarse_ok = sure;
  s.starts.push_back({start, f});
  for (auto& e : *r) {
    auto it = s.far.find(Num(e.first));
    Flags g = Of(e.second);
    if (it == s.far.end()) s.far[Num(e.first)] = g;
    else it->second = it->second | g;
  }
  return true;
}

static Flags SomeFlags(Case& c) {
  Mode3 m{-1, -1, -1};
  ref::ModeByName(c.weighted({2, 3}) ? c.pick(kModeNames) : "unk", &m);
  if (m.e == 1) m.m = m.x = 1;
  return {m.e, m.m, m.x, c.coin(1, 6) ? (int)c.draw(2) : -1};
}

static void Check(Session& s, int runs) {
  std::set<uint32_t> seen;
  for (auto& st : s.starts)
    for (int t = 0; t < runs; ++t) Emulate(s, st.first, st.second, &seen);
  Closure(s);
  s.c.evals(seen.size());
}

static void History(Case& c, Options o) {
  Gen g(c, o);
  Session s{c, g.Make()};
  s.convs = SomeConvs(c, s.im);
  c.note("image:" + Show(s.im) + "\nconventions:" + ShowConvs(s.convs));
  s.d = std::make_unique<Disassembler>(std::make_unique<Source>(s.im));
  s.d->AddTargetReturnConventions(ToConvs(s.convs));
  int ok = 0, n = c.range(1, 4);
  for (int i = 0; i < n; ++i) {
    uint32_t start = c.weighted({6, 2, 1}) ? (c.coin(4, 5) ? s.im.code[c.draw(s.im.code.size())] : (uint32_t)c.draw(0x1000000)) : s.im.routines[c.draw(s.im.routines.size())];
    Flags f = SomeFlags(c);
    if (Request(s, start, f)) {
      ++ok;
      Check(s, 6);
    }
    // as the tools do: go on to the targets found
    if (c.coin(1, 3)) {
      auto targets = s.far;
      for (auto& t : targets)
        if (c.coin(2, 3)) ok += Request(s, t.first, t.second);
      if (ok) Check(s, 4);
    }
  }
  size_t size = s.d->Result().size();
  int branches = 0;
  for (auto& e : s.d->Result()) branches += e.second.instruction.IsLocalBranch();
  c.nontrivial(size >= 6 && branches >= 1);
  c.label(size == 0 ? "empty" : size < 6 ? "small" : size < 20 ? "medium" : "large");
  if (ok > 1) c.label("several requests");
  // Cleanup renames and folds, and changes nothing else.
  struct Was { std::string label; int length; uint32_t operand; std::string mn; Flags in, out; };
  std::map<uint32_t, Was> was;
  for (auto& e : s.d->Result()) {
    int op = s.im.at(Num(e.first));
    was[Num(e.first)] = {e.second.label, InstructionLength(e.second.instruction.addressing_mode), 0, ref::Matrix()[op].mn, Of(e.second.current_execution_state.Flags()), Of(e.second.next_execution_state.Flags())};
  }
  auto cl = s.d->Cleanup();
  c.check(cl.ok(), "Cleanup failed");
  std::set<uint32_t> entries;
  for (auto& st : s.starts) entries.insert(st.first);
  int next_label = 0, next_entry = 0;
  std::map<uint32_t, std::string> names;
  for (auto& e : was)
    if (!e.second.label.empty()) names[e.first] = entries.count(e.first) ? fmt("entry%d", ++next_entry) : fmt("label%d", ++next_label);
  for (auto it = was.begin(); it != was.end();) {
    uint32_t pc = it->first;
    const Was& w = it->second;
    auto nx = std::next(it);
    auto got = s.d->Result().find(Addr(pc));
    c.check_f(got != s.d->Result().end(), [&] { return fmt("$%06x disappeared", pc); });
    const DisassembledInstruction& di = got->second;
    bool fold = nx != was.end() && nx->first == Wrap(pc, 1) && nx->second.label.empty() && ((w.mn == "clc" && nx->second.mn == "adc") || (w.mn == "sec" && nx->second.mn == "sbc"));
    c.check_f(di.label == names[pc], [&] { return fmt("$%06x is labelled '", pc) + di.label + "', want '" + names[pc] + "'"; });
    c.check_f(di.is_entry == (entries.count(pc) > 0), [&] { return fmt("$%06x: is_entry is %d", pc, di.is_entry); });
    std::string want = fold ? (w.mn == "clc" ? "add" : "sub") : w.mn;
    c.check_f(di.instruction.mnemonic == ref::MnEnum(want), [&] { return fmt("$%06x is ", pc) + di.instruction.ToString() + ", want " + want; });
    int len = fold ? 1 + nx->second.length : w.length;
    c.check_f(di.instruction.SerializedSize() == len, [&] { return fmt("$%06x takes %d bytes, want %d", pc, di.instruction.SerializedSize(), len); });
    c.check_f(Of(di.current_execution_state.Flags()) == w.in && Of(di.next_execution_state.Flags()) == (fold ? nx->second.out : w.out), [&] { return fmt("$%06x: states changed", pc); });
    if (fold) c.label("folded " + want);
    // operand names
    const ref::Op& o = ref::Matrix()[s.im.at(pc)];
    if (o.mode == "r" || o.mn == "brl") {
      int width = w.length - 1;
      uint32_t operand = s.im.at(Wrap(pc, 1));
      if (width == 2) operand |= s.im.at(Wrap(pc, 2)) << 8;
      uint32_t to = Wrap(Wrap(pc, 1 + width), width == 1 ? (int8_t)operand : (int16_t)operand);
      c.check_f(di.instruction.arg1.ToString() == names[to], [&] { return fmt("$%06x: ", pc) + di.instruction.ToString() + " should go to '" + names[to] + "'"; });
    }
    uint32_t operand = 0, to;
    for (int b = 0; b < w.length - 1; ++b) operand |= (uint32_t)std::max(0, s.im.at(Wrap(pc, 1 + b))) << (8 * b);
    if (FarTarget(o, pc, operand, &to)) {
      std::string text = di.instruction.arg1.ToString();
      bool named = entries.count(to);
      std::string name = named ? names[to] : "";
      c.check_f(named ? text == name || text == "@" + name : text.find("entry") == text.npos && text.find("label") == text.npos,
                [&] { return fmt("$%06x: ", pc) + di.instruction.ToString() + fmt(" goes to $%06x", to) + (named ? ", that is " + name : ""); });
      if (named) c.label("named far target");
    }
    it = nx;
    if (fold) {
      c.check_f(!s.d->Result().count(Addr(it->first)), [&] { return fmt("$%06x is still there", it->first); });
      ++it;
    }
  }
  c.check(s.d->Result().size() <= was.size(), "Cleanup added instructions");
  for (auto& e : s.d->Result()) c.check_f(was.count(Num(e.first)), [&] { return fmt("$%06x appeared", Num(e.first)); });
}
static void histories(Case& c) { History(c, {}); }
static void large(Case& c) {
  Options o;
  o.routines = c.range(1, 24), o.body = c.range(12, 60);
  if (c.coin(1, 3)) o.tame = true, o.wild = false, o.routines = c.range(4, 70), c.label("tame");
  if (o.tame && c.coin(1, 3)) o.routines = c.range(1, 3), o.body = c.range(200, 2000), c.label("tame, one long routine");
  History(c, o);
}

// Blocks that each lead to another one, in some order; what the last one does
// to the flags comes back to an earlier one and goes all the way again.
static void ripple(Case& c) {
  int n = c.coin() ? c.range(2, 10) : c.range(10, 80);
  std::vector<int> place(n);
  for (int k = 0; k < n; ++k) place[k] = k;
  int how = c.draw(4);
  if (how == 1) std::reverse(place.begin(), place.end());
  if (how >= 2) for (int k = n - 1; k > 0; --k) std::swap(place[k], place[c.draw(k + 1)]);
  struct Op { char what; int bits; };  // r, s: rep and sep; m, x: an immediate
  std::vector<std::vector<Op>> ops(n);
  std::vector<int> back(n, -1);
  for (int k = c.range(0, 2); k > 0; --k) ops[c.draw(n)].push_back({c.coin() ? 'm' : 'x', 0});
  for (int k = c.weighted({4, 2, 1}); k > 0; --k) ops[c.draw(n)].push_back({c.coin() ? 'r' : 's', c.pick({0x10, 0x20, 0x30})});
  if (c.coin(5, 6)) {
    ops[n - 1].push_back({c.coin() ? 'r' : 's', c.pick({0x10, 0x20, 0x30})});
    back[n - 1] = c.draw(n);
  }
  for (int k = c.draw(3); k > 0; --k) back[c.draw(n)] = c.draw(n);
  Flags first{0, (int)c.draw(2), (int)c.draw(2), -1};
  // What is known at each block, over all paths.
  std::vector<std::pair<int, int>> in(n, {-2, -2});  // -2: not reached, -1: unknown
  in[0] = {first.m, first.x};
  bool clear = true;
  for (bool more = true; more;) {
    more = false;
    clear = true;
    for (int k = 0; k < n; ++k) {
      if (in[k].first == -2) continue;
      auto t = in[k];
      for (auto& o : ops[k]) {
        if (o.what == 'm') clear = clear && t.first >= 0;
        else if (o.what == 'x') clear = clear && t.second >= 0;
        else {
          if (o.bits & 0x20) t.first = o.what == 's';
          if (o.bits & 0x10) t.second = o.what == 's';
        }
      }
      for (int j : {back[k], k + 1}) {
        if (j < 0 || j >= n) continue;
        auto was = in[j];
        if (was.first == -2) in[j] = t;
        else {
          if (was.first != t.first) in[j].first = -1;
          if (was.second != t.second) in[j].second = -1;
        }
        more = more || in[j] != was;
      }
    }
  }
  // The code; the width of an immediate is that of the first way to get there.
  Session s{c, {}};
  s.limit = 12 * n;
  std::vector<std::pair<int, int>> width(n);
  for (int k = 0; k < n; ++k) {
    width[k] = k ? width[k - 1] : std::make_pair(first.m, first.x);
    if (k) for (auto& o : ops[k - 1]) {
      if (o.what != 'r' && o.what != 's') continue;
      if (o.bits & 0x20) width[k].first = o.what == 's';
      if (o.bits & 0x10) width[k].second = o.what == 's';
    }
  }
  uint32_t base = c.pick({0x008000, 0x7e0000, 0xc0ff00}), pc = base;
  auto put = [&](int b) { s.im.bytes[pc] = b, pc = Wrap(pc, 1); };
  std::vector<std::pair<uint32_t, int>> fix;
  std::vector<uint32_t> start(n);
  auto jump = [&](int k) { put(0x82); fix.push_back({pc, k}); put(0); put(0); };
  jump(0);
  for (int k : place) {
    start[k] = pc;
    auto w = width[k];
    for (auto& o : ops[k]) {
      if (o.what == 'm' || o.what == 'x') {
        put(o.what == 'm' ? 0xa9 : 0xa2), put(5);
        if ((o.what == 'm' ? w.first : w.second) == 0) put(0);
      } else {
        put(o.what == 'r' ? 0xc2 : 0xe2), put(o.bits);
        if (o.bits & 0x20) w.first = o.what == 's';
        if (o.bits & 0x10) w.second = o.what == 's';
      }
    }
    if (ops[k].empty()) put(0xea);
    if (back[k] >= 0) {
      put(c.pick({0x90, 0xf0, 0x70})), put(3);
      jump(back[k]);
    }
    if (k + 1 < n) jump(k + 1);
    else put(0x60);
  }
  for (auto& f : fix) {
    int d = (int)(start[f.second] & 0xffff) - (int)(Wrap(f.first, 2) & 0xffff);
    s.im.bytes[f.first] = d, s.im.bytes[Wrap(f.first, 1)] = d >> 8;
  }
  s.im.routines.push_back(base), s.im.code.push_back(base);
  c.note("image:" + Show(s.im));
  s.d = std::make_unique<Disassembler>(std::make_unique<Source>(s.im));
  bool ok = Request(s, base, first);
  c.label(n < 10 ? "up to 9 blocks" : n < 30 ? "10 to 29 blocks" : "30 and more blocks");
  c.nontrivial(n >= 5);
  c.check(ok == clear, clear ? "refused, though every width is known" : "accepted, though the width of an immediate depends on the path taken");
  if (ok) Check(s, 2);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C29";
  cfg.rule = "random machine code images of up to four routines (branches, calls, mode changes, stack use, random and cut-off code) with 1-4 requests and return conventions; every successful request is run on a processor model; also up to 24 routines of up to 60 statements, and chains of up to 80 blocks in any order, with flag changes that come back round, which must be decoded exactly if every width is known; non-trivial: at least six instructions and one branch disassembled";
  cfg.tests = {{"histories", histories, 0, 20}, {"large", large, 0, 1}, {"ripple", ripple, 0, 2}};
  cfg.quick_cases = 25000;
  cfg.thorough_cases = 3000000;
  return pbt::main_(cfg, argc, argv);
}
