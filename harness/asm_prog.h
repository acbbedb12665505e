// Whole programs (several source files) that are valid by construction, with
// the output an assembler must produce for them worked out independently.
//
// Every statement is generated together with the processor state it will run
// under; branches only go to statements planned for an identical state, so no
// data-flow analysis is needed to know the width of an immediate.
#ifndef VERIF_ASM_PROG_H_
#define VERIF_ASM_PROG_H_
#include "gen_addr.h"
#include "gen_line.h"
#include <functional>

namespace prog {
using pbt::Case;
using pbt::fmt;
using ref::EP;
using ref::Mode3;

struct Pushed { int id; bool flags; int m, x; };
struct State {
  int e = -1, m = -1, x = -1;  // 0, 1, -1 unknown
  std::vector<Pushed> stack;
  bool lost = false;  // stack contents unknown
  bool live = true;   // control can get here
};
inline bool Same(const State& a, const State& b) {
  if (a.e != b.e || a.m != b.m || a.x != b.x || a.lost != b.lost || a.live != b.live) return false;
  if (a.lost) return true;
  if (a.stack.size() != b.stack.size()) return false;
  for (size_t i = 0; i < a.stack.size(); ++i)
    if (a.stack[i].id != b.stack[i].id) return false;
  return true;
}

struct LabelDef { std::string name; bool exported; };
struct St : ref::Stmt {
  std::vector<LabelDef> labels;
  State before;
  bool no_label = false;   // must not be a branch target
  int target = -1;         // branch: statement it goes to
  bool keep = false;       // the operand is settled when planning
  bool forced = false;     // something branches here, so it keeps a label
  int size = 0;
  bool addressed = false;
  uint32_t addr = 0;
  bool has_value = false;  // .equ
  int32_t value = 0;
  std::vector<int> scopes; // enclosing .begin statements, outermost first
  int line = 0, label_line = 0;
  bool brace = false;      // .begin/.end written as { }
  std::string raw;         // if set, written instead of the statement
};
struct Module {
  std::string path, name;  // name "" : no .module
  std::vector<St> st;
  std::string text;
};
struct Program {
  std::vector<Module> mod;  // in dependency order; files are listed in `order`
  std::vector<int> order;
  std::set<uint32_t> used;
  bool overlap = false;   // some byte is assembled twice
};

struct Options {
  int modules = 3;        // at most
  int blocks = 4;         // at most, per module
  int body = 14;          // average statements per block
  bool names_heavy = false;  // many labels and name operands
  bool wild_stack = true;
  bool many_names = false;   // more than three module names
  bool near = false;      // blocks next to one another, possibly overlapping
};

// ------------------------------------------------------------------ planning
inline Mode3 ModeOf(const std::string& s) { Mode3 m; ref::ModeByName(s, &m); return m; }
inline uint32_t Wrap(uint32_t a, int64_t d) { return (a & 0xff0000) | ((a + d) & 0xffff); }

class Gen {
 public:
  Gen(Case& c, Options o) : c(c), o(o) {}
  Case& c;
  Options o;
  Program p;
  int next_id = 0;
  std::function<void()> before_text;  // may still change statements

  Program Make() {
    int n = c.range(1, o.modules);
    for (int i = 0; i < n; ++i) {
      p.mod.emplace_back();
      Skeleton(&p.mod.back(), i);
    }
    for (auto& m : p.mod) Labels(&m);
    Layout();
    for (size_t i = 0; i < p.mod.size(); ++i) Targets(&p.mod[i]);
    for (size_t i = 0; i < p.mod.size(); ++i) Operands(i);
    if (before_text) before_text();
    for (auto& m : p.mod) Text(&m);
    for (int i = 0; i < n; ++i) p.order.insert(p.order.begin() + c.draw(i + 1), i);
    return p;
  }

  // ---- statements
  static St Dir(const std::string& name) { St s; s.directive = true; s.name = name; return s; }
  static St Ins(const std::string& mn, ref::Form f = ref::F_none) {
    St s;
    s.name = mn;
    s.form = f;
    if (f == ref::F_none || f == ref::F_A) s.mode = ref::Deduce(mn, f, {});
    return s;
  }
  std::string SomeMode() {
    return c.pick({"m8x8", "m16x16", "m8x16", "m16x8", "m8", "x16", "x8", "m16", "native", "unk", "emu", "m8x8", "m16x16"});
  }
  State cur;
  Module* m_ = nullptr;
  int Emit(St s) {
    s.before = cur;
    s.scopes = scopes;
    m_->st.push_back(std::move(s));
    return m_->st.size() - 1;
  }
  std::vector<int> scopes;
  std::vector<int> pending;  // branch statements of this function without a target

  void Skeleton(Module* m, int index) {
    m_ = m;
    m->path = fmt("%s%d.asm", c.pick({"main", "lib", "src/x"}), index);
    static const char* names[] = {"alpha", "beta", "gamma"};
    if (o.many_names) {
      if (c.coin(7, 8)) m->name = fmt("mod%d", c.coin(1, 8) ? (int)c.draw(o.modules) : index);
    } else if (c.coin(3, 4)) m->name = c.coin(1, 5) ? "alpha" : names[index % 3];
    scopes.clear();
    cur = State();
    cur.live = false;
    bool named = m->name.empty();
    auto module_dir = [&] {
      if (named) return;
      named = true;
      St s = Dir(".module");
      s.a = ref::Name(m->name);
      Emit(s);
    };
    if (c.coin(4, 5)) module_dir();
    for (int i = c.draw(3); i > 0; --i) Emit(Dir(".equ"));
    int blocks = c.range(1, o.blocks);
    for (int b = 0; b < blocks; ++b) {
      cur.live = false;
      Emit(Dir(".org"));
      int parts = c.range(1, 3);
      for (int k = 0; k < parts; ++k) {
        if (c.coin(3, 4)) Function();
        else Data();
      }
      for (int i = c.draw(2); i > 0; --i) Emit(Dir(".equ"));
    }
    module_dir();
  }
  void Data() {
    bool scope = c.coin(1, 4);
    if (scope) Open();
    for (auto i = c.many(2, 6); i.more();) DataStmt();
    DataStmt();
    if (scope) Close();
  }
  void DataStmt() {
    St s = Dir(c.pick({".db", ".dw", ".dl"}));
    int n = c.range(1, 4);
    if (c.coin(1, 12)) n += c.range(0, 60);
    if (c.coin(1, 200)) n += c.range(200, 900);
    s.list.resize(n);
    Emit(s);
  }
  void Open() { int i = Emit(Dir(".begin")); scopes.push_back(i); m_->st[i].brace = c.coin(); }
  void Close() { int i = Emit(Dir(".end")); scopes.pop_back(); m_->st[i].brace = c.coin(); }

  void SetMode(const std::string& name) {
    Mode3 f = ModeOf(name);
    cur.e = f.e, cur.m = f.m, cur.x = f.x;
  }
  void Convention(St* s) {
    switch (c.weighted({5, 2, 1})) {
      case 0: break;
      case 1: s->conv = ref::C_yields; s->conv_name = SomeMode(); s->conv_flags = ModeOf(s->conv_name); break;
      default: s->conv = ref::C_noreturn;
    }
  }
  void Function() {
    cur = State();
    cur.live = false;
    pending.clear();
    size_t depth = scopes.size();
    if (c.coin(1, 3)) Open();
    St e = Dir(".entry");
    e.flags_name = SomeMode();
    e.flags = ModeOf(e.flags_name);
    Convention(&e);
    Emit(e);
    cur = State();
    SetMode(e.flags_name);
    for (auto i = c.many(o.body, std::max(60, 3 * o.body)); i.more();) {
      if (!cur.live && !Revive()) break;
      Step(depth);
    }
    if (cur.live) Exit(true);
    pending.clear();
    while (scopes.size() > depth) Close();
  }
  // After an exit: continue with code only reached by a branch made earlier.
  bool Revive() {
    // an 8-bit branch only reaches so far
    std::vector<int> near;
    int dist = 0;
    for (int i = (int)m_->st.size() - 1, k = (int)pending.size() - 1; i >= 0 && k >= 0; --i) {
      if (i == pending[k]) {
        if (dist < 120 || m_->st[i].mode == "rl") near.push_back(i);
        --k;
      }
      dist += SizeOf(m_->st[i]);
    }
    pending.assign(near.rbegin(), near.rend());
    if (pending.empty()) return false;
    int k = c.draw(pending.size());
    int revive_from = pending[k];
    pending.erase(pending.begin() + k);
    cur = m_->st[revive_from].before;
    St s = Ins("nop");
    s.size = 1;
    int i = Emit(s);
    m_->st[i].forced = true;
    m_->st[revive_from].target = i;
    return true;
  }

  void Step(size_t depth) {
    switch (c.weighted({30, 6, 6, 5, 5, 4, 3, 3, 1, 1, 2})) {
      case 0: Plain(); break;
      case 1: RepSep(); break;
      case 2: Branch(); break;
      case 3: Push(); break;
      case 4: Pull(); break;
      case 5: Call(); break;
      case 6: if (scopes.size() < depth + 3 && c.coin()) Open(); else if (scopes.size() > depth) Close(); break;
      case 7: Exit(false); break;
      case 8: { St s = Dir(".mode"); s.flags_name = SomeMode(); s.flags = ModeOf(s.flags_name); Emit(s); SetMode(s.flags_name); break; }
      case 9: Emulation(); break;
      default: { St s = Dir(c.coin() ? ".remote" : ".equ"); if (s.name == ".remote") { s.flags_name = SomeMode(); s.flags = ModeOf(s.flags_name); Convention(&s); } Emit(s); }
    }
  }
  static bool Special(const std::string& mn) {
    static const std::set<std::string> t = {"jmp", "jsr", "jsl", "rts", "rtl", "rti", "stp", "rep", "sep", "xce", "php", "plp", "pha", "pla", "phx", "plx", "phy",
                                            "ply", "phb", "plb", "phd", "pld", "phk", "pea", "pei", "per", "tcs", "txs"};
    return t.count(mn) || ref::IsBranch(mn);
  }
  static const std::vector<gen::Combo>& PlainCombos() {
    static const std::vector<gen::Combo> v = [] {
      std::vector<gen::Combo> r;
      for (auto& k : gen::combos()) if (!Special(k.mn)) r.push_back(k);
      return r;
    }();
    return v;
  }
  int ModeSize(const std::string& mode) { return ref::OperandBytes(mode, cur.m == 1, cur.x == 1); }
  void Plain() {
    for (int tries = 0; tries < 8; ++tries) {
      const gen::Combo& k = c.pick(PlainCombos());
      St s = Ins(k.mn, (ref::Form)k.form);
      if (k.form > ref::F_A) {
        s.a = ref::Lit(0, k.width);
        ref::Operand a{k.width, true, 1, false}, b{1, true, 1, false};
        s.mode = ref::Deduce(k.mn, s.form, a, b);
        if (k.form == ref::F_mov) s.b = ref::Lit(0, 1);
      }
      if (s.mode.empty() || (s.mode == "#m" && cur.m < 0) || (s.mode == "#x" && cur.x < 0)) continue;
      Suffix(&s);
      s.size = 1 + ModeSize(s.mode) + (ref::PrefixByte(k.mn) >= 0);
      if (s.name == "sta" && s.mode == "s") {  // replaces what was pushed
        int from = 0, to = 256;
        if (c.coin(3, 4)) {
          from = c.coin(1, 4) ? c.draw(256) : c.draw(6);
          to = from + (cur.m == 1 ? 1 : 2);
          s.a = ref::Lit(from, c.range(0, 1));
          s.keep = true;
        } else {
          s.a = nullptr;  // some name, filled in later
          s.forced = true;
        }
        Emit(s);
        for (int at = std::max(from, 1); at < to && at <= (int)cur.stack.size(); ++at) cur.stack[cur.stack.size() - at] = Pushed{next_id++, false, -1, -1};
        return;
      }
      Emit(s);
      return;
    }
  }
  void Suffix(St* s) {
    if (!c.coin(1, 4)) return;
    int f = ref::WidthM().count(s->name) ? cur.m : ref::WidthX().count(s->name) ? cur.x : -2;
    if (f == -2) return;
    s->suffix = f == 1 ? ".b" : f == 0 ? ".w" : c.coin() ? ".b" : ".w";
  }
  void RepSep() {
    St s = Ins(c.pick({"rep", "sep"}), ref::F_imm);
    s.mode = "#";
    s.size = 2;
    int target = s.name == "sep";
    bool known = c.coin(7, 8);
    if (known) {
      static const int bits[] = {0x30, 0x20, 0x10, 0x31, 0x00, 0x01, 0xcf, 0xff};
      uint32_t v = c.pick(bits);
      s.a = c.coin(4, 5) ? ref::Lit(v, c.range(0, 1)) : v == 0x30 ? ref::Bin('+', ref::Lit(0x10, 1), ref::Lit(0x20, 1)) : ref::Un('<', ref::Lit(v | 0x1200, 2));
      Emit(s);
      if (v & 0x20) SetBit(&cur.m, target);
      if (v & 0x10) SetBit(&cur.x, target);
    } else {
      s.forced = true;  // so that there is at least one name: its own
      s.a = nullptr;    // filled in later, byte sized
      Emit(s);
      if (cur.m != target) SetBit(&cur.m, -1);
      if (cur.x != target) SetBit(&cur.x, -1);
    }
  }
  // m and x are fixed at 1 in emulation mode and can only be 1 for sure if the mode is unknown
  void SetBit(int* b, int v) { *b = cur.e == 1 ? 1 : cur.e == 0 ? v : v == 1 ? 1 : -1; }
  void Emulation() {
    bool on = c.coin();
    St a = Ins(on ? "sec" : "clc");
    a.size = 1;
    Emit(a);
    St x = Ins("xce");
    x.size = 1;
    x.no_label = true;
    Emit(x);
    if (on) cur.e = cur.m = cur.x = 1;
    else cur.e = 0;
  }
  void PushN(int n, bool flags = false) {
    if (cur.lost) return;
    for (int i = 0; i < n; ++i) cur.stack.push_back({next_id++, flags, cur.m, cur.x});
  }
  void Push() {
    switch (c.weighted({6, 2, 2, 2, 2, 1, 1, 1, 1})) {
      case 0: One("php"); PushN(1, true); return;
      case 1: if (cur.m >= 0) { One("pha"); PushN(cur.m ? 1 : 2); } return;
      case 2: if (cur.x >= 0) { One("phx"); PushN(cur.x ? 1 : 2); } return;
      case 3: if (cur.x >= 0) { One("phy"); PushN(cur.x ? 1 : 2); } return;
      case 4: One("phb"); PushN(1); return;
      case 5: One("phk"); PushN(1); return;
      case 6: One("phd"); PushN(2); return;
      case 7: {
        St s = Ins("pea", ref::F_imm);
        s.mode = ref::Deduce("pea", ref::F_imm, {2, true, 1, false});
        s.a = ref::Lit(0, 2);
        s.size = 3;
        Emit(s);
        PushN(2);
        return;
      }
      default: {
        St s = Ins("pei", c.coin() ? ref::F_ind : ref::F_dir);
        s.mode = ref::Deduce("pei", s.form, {1, true, 1, false});
        if (s.mode.empty()) return;
        s.a = ref::Lit(0, 1);
        s.size = 2;
        Emit(s);
        PushN(2);
      }
    }
  }
  void One(const std::string& mn) { St s = Ins(mn); Suffix(&s); s.size = 1; Emit(s); }
  void PullN(int n) {
    for (int i = 0; i < n; ++i) {
      if (cur.lost || cur.stack.empty()) { cur.lost = true; cur.stack.clear(); return; }
      cur.stack.pop_back();
    }
  }
  void Pull() {
    switch (c.weighted({6, 2, 2, 2, 2, 1, 1})) {
      case 0: {
        One("plp");
        bool known = !cur.lost && !cur.stack.empty() && cur.stack.back().flags;
        Pushed t = known ? cur.stack.back() : Pushed{};
        PullN(1);
        SetBit(&cur.m, known ? t.m : -1);
        SetBit(&cur.x, known ? t.x : -1);
        return;
      }
      case 1: if (cur.m >= 0) { One("pla"); PullN(cur.m ? 1 : 2); } return;
      case 2: if (cur.x >= 0) { One("plx"); PullN(cur.x ? 1 : 2); } return;
      case 3: if (cur.x >= 0) { One("ply"); PullN(cur.x ? 1 : 2); } return;
      case 4: One("plb"); PullN(1); return;
      case 5: One("pld"); PullN(2); return;
      default: if (o.wild_stack) { One(c.coin() ? "txs" : "tcs"); cur.lost = true; cur.stack.clear(); }
    }
  }
  void Branch() {
    static const char* cond[] = {"bcc", "bcs", "beq", "bmi", "bne", "bpl", "bvc", "bvs"};
    St s = Ins(c.pick(cond), ref::F_dir);
    s.mode = "r";
    s.size = 2;
    int i = Emit(s);
    if (c.coin()) pending.push_back(i);
  }
  void Call() {
    St s = Ins("jsr", ref::F_dir);
    switch (c.weighted({3, 3, 1})) {
      case 0: s.mode = "a"; s.a = ref::Lit(0, 2); s.size = 3; break;
      case 1: s.name = "jsl"; s.mode = "l"; s.a = ref::Lit(0, 3); s.size = 4; break;
      default: s.form = ref::F_indx; s.mode = "(a,x)"; s.a = ref::Lit(0, 2); s.size = 3;
    }
    Convention(&s);
    Emit(s);
    if (s.conv == ref::C_noreturn) { cur.live = false; return; }
    if (s.conv == ref::C_yields) SetMode(s.conv_name);
  }
  void Exit(bool last) {
    int k = c.weighted({5, 2, 1, 1, 2, 2, last ? 0 : 3, last ? 0 : 1});
    St s;
    switch (k) {
      case 0: case 1: case 2: case 3: { static const char* t[] = {"rts", "rtl", "rti", "stp"}; s = Ins(t[k]); s.size = 1; break; }
      case 4: {
        s = Ins("jmp", ref::F_dir);
        int w = c.weighted({3, 2, 1, 1, 1});
        if (w == 0) s.mode = "a", s.a = ref::Lit(0, 2), s.size = 3;
        else if (w == 1) s.mode = "l", s.a = ref::Lit(0, 3), s.size = 4;
        else if (w == 2) s.form = ref::F_ind, s.mode = "(a)", s.a = ref::Lit(0, 2), s.size = 3;
        else if (w == 3) s.form = ref::F_indx, s.mode = "(a,x)", s.a = ref::Lit(0, 2), s.size = 3;
        else s.form = ref::F_lng, s.mode = "[a]", s.a = ref::Lit(0, 2), s.size = 3;
        break;
      }
      case 5: s = Dir(".halt"); break;
      default:
        s = Ins(k == 6 ? "bra" : "brl", ref::F_dir);
        s.mode = k == 6 ? "r" : "rl";
        s.size = k == 6 ? 2 : 3;
    }
    int i = Emit(s);
    if (k >= 6 && c.coin()) pending.push_back(i);
    cur.live = false;
  }

  // ---- labels: unique within a scope (and, at the top, within the namespace)
  std::set<std::pair<std::string, std::string>> global_names;
  std::string LabelName() {
    static const char* some[] = {"foo", "bar", "baz", "loop", "done", "x1", "Main", "zz", "m8x8", "w", "_", "data_1", "org", "yield"};
    if (c.coin(1, 6)) return gen::name(c) + fmt("%d", (int)c.draw(30));
    return c.pick(some);
  }
  std::map<std::pair<const Module*, int>, std::set<std::string>> scope_names;  // -1: top
  bool AddLabel(Module* m, St* s, bool exported) {
    for (int t = 0; t < 4; ++t) {
      std::string n = LabelName();
      if (t == 3) n += fmt("_%d", next_id++);
      if (ref::Reserved(n)) continue;
      if (s->scopes.empty() || exported) {
        if (!global_names.insert({m->name, n}).second) continue;
        scope_names[{m, -1}].insert(n);
      } else if (!scope_names[{m, s->scopes.back()}].insert(n).second) continue;
      s->labels.push_back({n, exported});
      return true;
    }
    return false;
  }
  void Labels(Module* m) {
    bool have_org = false;
    for (auto& s : m->st) {
      if (s.name == ".org") have_org = true;
      if (s.name == ".module" || (!have_org && s.name != ".equ")) continue;
      if (s.no_label) continue;
      bool want = s.name == ".equ" ? c.coin(9, 10) : c.coin(o.names_heavy ? 3 : 2, 6);
      if (s.forced) want = true;
      if (want) AddLabel(m, &s, c.coin(1, 6));
      if (want && c.coin(1, 8)) AddLabel(m, &s, c.coin(1, 6));
    }
  }

  // ---- addresses
  std::vector<std::pair<uint32_t, int>> spans;
  void Layout() {
    for (auto& m : p.mod) {
      for (size_t i = 0; i < m.st.size(); ++i) {
        if (m.st[i].name != ".org") continue;
        size_t j = i + 1;
        int total = 0;
        for (; j < m.st.size() && m.st[j].name != ".org"; ++j) total += SizeOf(m.st[j]);
        uint32_t at = 0;
        for (int t = 0;; ++t) {
          at = t < 6 ? gen::address(c) : (uint32_t)c.draw(0x1000000);
          if (c.coin(1, 4)) at = Wrap(at & 0xff0000, -(int)c.draw(total + 2));  // around a bank end
          bool clash = total > 60000;
          for (int k = 0; k < total && !clash; ++k) clash = p.used.count(Wrap(at, k));
          if (o.near && t == 0 && !spans.empty()) {
            auto& q = c.pick(spans);
            int slack = c.coin() ? 0 : c.range(1, 3);
            at = c.coin() ? Wrap(q.first, q.second + slack - c.weighted({3, 1, 1, 1})) : Wrap(q.first, c.weighted({3, 1, 1, 1}) - total - slack);
            break;
          }
          if (!clash) break;
        }
        for (int k = 0; k < total; ++k) p.overlap |= !p.used.insert(Wrap(at, k)).second;
        if (total) spans.push_back({at, total});
        m.st[i].addr = at;
        m.st[i].a = ref::Lit(at, 3);
        uint32_t pc = at;
        m.st[i].addressed = true;
        for (size_t k = i + 1; k < j; ++k) {
          m.st[k].addressed = true;
          m.st[k].addr = pc;
          pc = Wrap(pc, SizeOf(m.st[k]));
        }
      }
    }
  }
  static int SizeOf(const St& s) {
    if (!s.directive) return s.size;
    int w = s.name == ".db" ? 1 : s.name == ".dw" ? 2 : s.name == ".dl" ? 3 : 0;
    return w * s.list.size();
  }

  // ---- name resolution, from the point of view of a statement
  struct Found { int mod = -1, st = -1; };
  const St* Get(Found f) const { return f.st < 0 ? nullptr : &p.mod[f.mod].st[f.st]; }
  // label -> statement, in the scope opened by statement `scope` (-1: top)
  int FindIn(int mod, int scope, const std::string& n) const {
    const Module& m = p.mod[mod];
    for (size_t i = 0; i < m.st.size(); ++i)
      for (auto& l : m.st[i].labels)
        if (l.name == n) {
          int sc = m.st[i].scopes.empty() || l.exported ? -1 : m.st[i].scopes.back();
          if (sc == scope) return i;
        }
    return -1;
  }
  Found FindGlobal(const std::string& ns, const std::string& n) const {
    for (size_t k = 0; k < p.mod.size(); ++k)
      if (p.mod[k].name == ns) {
        int i = FindIn(k, -1, n);
        if (i >= 0) return {(int)k, i};
      }
    return {};
  }
  int FindLocal(int mod, const St& from, const std::string& n) const {
    for (auto it = from.scopes.rbegin(); it != from.scopes.rend(); ++it) {
      int i = FindIn(mod, *it, n);
      if (i >= 0) return i;
    }
    return FindIn(mod, -1, n);
  }
  Found Resolve(int mod, const St& from, const ref::Expr& e) const {
    if (e.qualified) return FindGlobal(e.module, e.name);
    int i = FindLocal(mod, from, e.name);
    if (i >= 0) return {mod, i};
    return FindGlobal("", e.name);
  }

  // ---- branch targets
  void Targets(Module* m) {
    int mod = m - &p.mod[0];
    for (size_t i = 0; i < m->st.size(); ++i) {
      St& s = m->st[i];
      if (s.directive || !ref::IsBranch(s.name) || s.name == "per") continue;
      std::vector<std::pair<std::string, int>> ok;
      for (size_t j = 0; j < m->st.size(); ++j) {
        if (s.target >= 0 && (int)j != s.target) continue;
        const St& t = m->st[j];
        if (t.labels.empty() || !t.addressed || t.no_label || t.name == ".equ" || t.name == ".org" || t.name == ".module" || t.name == ".db" || t.name == ".dw" || t.name == ".dl") continue;
        if (!t.before.live || !Same(t.before, s.before)) continue;
        if (!InRange(s, t)) continue;
        for (auto& l : t.labels) if (FindLocal(mod, s, l.name) == (int)j) ok.push_back({l.name, (int)j});
      }
      if (ok.empty()) {
        // reach it through a label visible everywhere; or else loop on the spot
        int j = s.target >= 0 ? s.target : (int)i;
        std::string n = fmt("br_%d_t", next_id++);
        scope_names[{m, -1}].insert(n);
        global_names.insert({m->name, n});
        m->st[j].labels.push_back({n, true});
        ok.push_back({n, j});
      }
      auto& pick = c.pick(ok);
      s.a = ref::Name(pick.first, c.coin(1, 10));
      s.target = pick.second;
    }
  }
  static bool InRange(const St& s, const St& t) {
    if ((s.addr ^ t.addr) >> 16) return false;
    int16_t d = (int16_t)(uint16_t)(t.addr - (s.addr + s.size));
    return s.mode == "rl" || (d >= -128 && d <= 127);
  }
  // ---- operands
  // All labels of the program, for picking names to mention.
  struct AnyLabel { int mod, st; const LabelDef* l; };
  std::vector<AnyLabel> all;
  void Collect() {
    all.clear();
    for (size_t k = 0; k < p.mod.size(); ++k)
      for (size_t i = 0; i < p.mod[k].st.size(); ++i)
        for (auto& l : p.mod[k].st[i].labels) all.push_back({(int)k, (int)i, &l});
  }
  // May `from` (statement index i of module mod) use what f names?
  bool Usable(size_t mod, size_t i, Found f) const {
    const St* t = Get(f);
    if (!t) return false;
    if (t->name != ".equ" && !t->addressed) return false;
    if (p.mod[mod].st[i].name != ".equ") return true;
    return f.mod < (int)mod || (f.mod == (int)mod && (t->name != ".equ" || f.st < (int)i));
  }
  EP SomeName(size_t mod, size_t i, bool at) {
    const St& s = p.mod[mod].st[i];
    for (int t = 0; t < 8 && !all.empty(); ++t) {
      const AnyLabel& a = c.pick(all);
      EP e = c.coin(2, 3) ? ref::Name(a.l->name, at) : ref::QName(p.mod[a.mod].name, a.l->name, at);
      if (Usable(mod, i, Resolve(mod, s, *e))) return e;
    }
    return nullptr;
  }
  EP Sized(size_t mod, size_t i, int width, int depth) {
    int k = depth > 0 ? c.weighted({4, o.names_heavy ? 8 : 4, 2, 1}) : c.weighted({4, o.names_heavy ? 8 : 4});
    switch (k) {
      case 0: return ref::Lit(gen::value(c, width), width);
      case 1: {
        if (!width) return ref::Lit(gen::value(c, 0), 0);
        EP e = SomeName(mod, i, width == 3 || (width == 1 && c.coin(1, 4)));
        if (!e) return ref::Lit(gen::value(c, width), width);
        return width == 1 ? ref::Un(c.pick({'<', '>', '^'}), e) : e;
      }
      case 2: {
        char op = c.pick({'+', '-', '*', '/'});
        EP a = Sized(mod, i, width, depth - 1), b = Sized(mod, i, c.range(0, width), depth - 1);
        return c.coin() ? ref::Bin(op, a, b) : ref::Bin(op, b, a);
      }
      default: return c.coin() && width == 1 ? ref::Un(c.pick({'<', '>', '^'}), Sized(mod, i, c.range(0, 3), depth - 1)) : ref::Un('n', Sized(mod, i, width, depth - 1));
    }
  }
  int32_t ValueOf(Found f) const { const St* t = Get(f); return t->name == ".equ" ? t->value : (int32_t)t->addr; }
  ref::Val Value(size_t mod, const St& s, const ref::Expr& e) const {
    return ref::Eval(e, [&](const ref::Expr& n) -> ref::Val {
      Found f = Resolve(mod, s, n);
      if (f.st < 0) return {false, 0};
      return {true, ValueOf(f)};
    });
  }
  // An expression of the given width with a value (in [lo, hi]).
  EP Fit(size_t mod, size_t i, int width, int64_t lo = INT32_MIN, int64_t hi = INT32_MAX) {
    for (int t = 0; t < 4; ++t) {
      EP e = Sized(mod, i, width, 2);
      ref::Val v = Value(mod, p.mod[mod].st[i], *e);
      if (v.ok && v.v >= lo && v.v <= hi) return e;
    }
    return ref::Lit(c.draw(128), width);
  }
  EP Small(int bytes) {  // without a size of its own
    return c.coin(1, 4) ? ref::Un('n', ref::Lit(c.range(0, bytes == 1 ? 0x80 : 0x8000), 0)) : ref::Lit(c.range(0, bytes == 1 ? 0xff : 0xffff), 0);
  }
  void Operands(size_t mod) {
    Collect();
    for (size_t i = 0; i < p.mod[mod].st.size(); ++i) {
      St& s = p.mod[mod].st[i];
      if (s.name == ".equ") {
        s.a = Fit(mod, i, c.coin(1, 2) ? 2 : c.range(0, 3));
        s.value = Value(mod, s, *s.a).v;
        s.has_value = true;
      }
    }
    if (mod + 1 < p.mod.size()) return;
    for (size_t k = 0; k < p.mod.size(); ++k)
      for (size_t i = 0; i < p.mod[k].st.size(); ++i) Operand(k, i);
  }
  void Operand(size_t mod, size_t i) {
    St& s = p.mod[mod].st[i];
    if (s.directive) {
      for (auto& e : s.list) e = Fit(mod, i, c.range(0, 3));
      if (s.name == ".remote") {
        s.a = Fit(mod, i, c.coin() ? 3 : 2, 0, 0xffffff);
      } else if (s.name == ".org") {
        uint32_t v = s.addr, d = c.draw(300);
        switch (c.weighted({5, 1, 1})) {
          case 0: break;
          case 1: s.a = ref::Lit(v, 0); break;
          default: s.a = ref::Bin('-', ref::Lit(v + d, 0), ref::Lit(d, c.range(0, 2) && d < 256 ? 1 : 0));
        }
      }
      return;
    }
    if (s.form <= ref::F_A || ref::IsBranch(s.name)) return;
    if (s.keep) return;
    if (s.name == "rep" || s.name == "sep" || !s.a) {
      if (!s.a) {
        EP n = SomeName(mod, i, false);
        if (!n) n = ref::Name(s.labels[0].name);
        s.a = ref::Un(c.pick({'<', '>', '^'}), n);
      }
      return;
    }
    int w = s.a->width;
    if (w == 0 && s.mode != "#m" && s.mode != "#x") s.a = Small(s.mode == "#w" ? 2 : 1);
    else s.a = Fit(mod, i, w);
    if (s.b) s.b = c.coin(1, 3) ? Small(1) : Fit(mod, i, 1);
  }

  // ---- text
  std::string OperandText(const St& s) {
    static const char* shape[] = {"", "A", "#%", "%", "%,X", "%,Y", "(%)", "(%,X)", "(%),Y", "[%]", "[%],Y", "%,S", "(%,S),Y", "#%,#$"};
    std::string r;
    for (const char* q = shape[s.form]; *q; ++q) {
      if (q != shape[s.form]) r += gen::blank(c, false);
      if (*q == '%' || *q == '$') {
        std::string e = ref::Render(c, *q == '$' ? *s.b : *s.a, 0);
        // a direct operand must not start with a parenthesis: it would read as indirect
        if (*q == '%' && e[0] == '(' && (s.form == ref::F_dir || s.form == ref::F_dirx || s.form == ref::F_diry || s.form == ref::F_stk)) e = ref::Render0(c, s.a);
        r += e;
      } else r += c.coin(1, 4) ? (char)tolower(*q) : *q;
    }
    return r;
  }
  std::string ConvText(const ref::Stmt& s) {
    if (s.conv == ref::C_noreturn) return " " + gen::mixcase(c, "noreturn");
    if (s.conv == ref::C_yields) return " " + gen::mixcase(c, "yields") + " " + gen::mixcase(c, s.conv_name);
    return "";
  }
  std::string StText(const St& s) {
    if ((s.name == ".begin" || s.name == ".end") && s.brace) return s.name == ".begin" ? "{" : "}";
    std::string r = gen::mixcase(c, s.name);
    if (!s.directive) {
      r += gen::mixcase(c, s.suffix);
      std::string op = OperandText(s);
      if (!op.empty()) r += gen::blank(c, true) + op;
      return r + ConvText(s);
    }
    if (!s.list.empty()) {
      for (size_t i = 0; i < s.list.size(); ++i) r += (i ? gen::blank(c, false) + "," + gen::blank(c, false) : " ") + ref::Render(c, *s.list[i], 0);
      return r;
    }
    if (s.a) r += " " + (s.name == ".module" ? s.a->name : ref::Render(c, *s.a, 0));
    if (!s.flags_name.empty()) r += " " + gen::mixcase(c, s.flags_name);
    return r + ConvText(s);
  }
  void Text(Module* m) {
    std::string out, line;
    int no = 1;
    bool empty = true, closed = true;  // closed: a statement may start here without a separator
    auto nl = [&] {
      if (c.coin(1, 10)) line += gen::blank(c, false) + "; " + gen::word(c);
      out += line + "\n";
      line.clear();
      ++no;
      empty = closed = true;
    };
    for (auto& s : m->st) {
      bool same_line = !empty && c.coin(1, 12);
      if (!empty && !same_line) nl();
      while (empty && c.coin(1, 20)) nl();
      if (empty) line = gen::blank(c, false);
      else if (!closed) line += gen::blank(c, false) + ":" + gen::blank(c, false);
      s.label_line = no;
      for (size_t k = 0; k < s.labels.size(); ++k) {
        if (s.labels[k].exported) line += gen::mixcase(c, "export") + " ";
        line += s.labels[k].name;
        bool last = k + 1 == s.labels.size();
        bool colon = !last || c.coin(2, 3);
        if (colon) line += gen::blank(c, false) + ":" + gen::blank(c, false);
        if (c.coin(1, 6)) nl();
        else if (!colon) line += " ";
      }
      s.line = no;
      line += s.raw.empty() ? StText(s) : s.raw;
      empty = false;
      closed = s.brace && s.raw.empty();
      if (closed) line += " ";
    }
    if (!empty) nl();
    if (c.coin(1, 10)) out.pop_back();  // no newline at the end of the file
    m->text = out;
  }

  // ---- expected output
  std::map<uint32_t, uint8_t> Bytes() const {
    std::map<uint32_t, uint8_t> r;
    for (size_t k = 0; k < p.mod.size(); ++k)
      for (auto& s : p.mod[k].st) {
        std::vector<uint8_t> b = Encode(k, s);
        for (size_t i = 0; i < b.size(); ++i) r[Wrap(s.addr, i)] = b[i];
      }
    return r;
  }
  std::vector<uint8_t> Encode(size_t mod, const St& s) const {
    std::vector<uint8_t> b;
    auto put = [&](uint32_t v, int n) { for (int i = 0; i < n; ++i) b.push_back(v >> (8 * i)); };
    if (s.directive) {
      int w = s.name == ".db" ? 1 : s.name == ".dw" ? 2 : 3;
      for (auto& e : s.list) put(Value(mod, s, *e).v, w);
      return b;
    }
    if (ref::PrefixByte(s.name) >= 0) b.push_back(ref::PrefixByte(s.name));
    b.push_back(ref::Opcode(ref::Real(s.name), s.mode));
    if (s.form <= ref::F_A) return b;
    uint32_t v = Value(mod, s, *s.a).v;
    if (s.mode == "r" || s.mode == "rl") put(v - (s.addr + s.size), s.size - 1);
    else if (s.mode == "mv") put(Value(mod, s, *s.b).v, 1), put(v, 1);
    else put(v, ref::OperandBytes(s.mode, s.before.m == 1, s.before.x == 1));
    return b;
  }
};

inline std::string Listing(const Program& p) {
  std::string r;
  for (int k : p.order) r += "--- " + p.mod[k].path + "\n" + p.mod[k].text + "\n";
  return r;
}
}  // namespace prog
#endif
