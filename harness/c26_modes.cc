// C26: processor modes: names, merging and the rules that tie E, M and X.
#include "gen_text.h"
#include "nsasm/execution_state.h"
#include "pbt.h"
#include "ref_parse.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

// What a flag state allows: a set of concrete (e, m, x, c).
struct Bits { int e, m, x, c; bool operator==(const Bits& o) const { return e == o.e && m == o.m && x == o.x && c == o.c; } bool operator<(const Bits& o) const { return std::tie(e, m, x, c) < std::tie(o.e, o.m, o.x, o.c); } };
static bool may(BitState s, int v) { return s == B_on ? v == 1 : s == B_off ? v == 0 : true; }
static std::set<Bits> allows(const StatusFlags& s) {
  std::set<Bits> r;
  for (int e = 0; e < 2; ++e)
    for (int m = 0; m < 2; ++m)
      for (int x = 0; x < 2; ++x)
        for (int k = 0; k < 2; ++k)
          if ((!e || (m && x)) && may(s.EBit(), e) && may(s.MBit(), m) && may(s.XBit(), x) && may(s.CBit(), k)) r.insert({e, m, x, k});
  return r;
}
// The best description, bit by bit, of a set of concrete states.
struct Best { int e, m, x, c; };
static Best best(const std::set<Bits>& v) {
  Best b{v.begin()->e, v.begin()->m, v.begin()->x, v.begin()->c};
  for (auto& s : v) {
    if (s.e != b.e) b.e = -1;
    if (s.m != b.m) b.m = -1;
    if (s.x != b.x) b.x = -1;
    if (s.c != b.c) b.c = -1;
  }
  return b;
}
static int known(BitState s) { return s == B_on ? 1 : s == B_off ? 0 : -1; }
static bool is(const StatusFlags& s, const Best& b) { return known(s.EBit()) == b.e && known(s.MBit()) == b.m && known(s.XBit()) == b.x && known(s.CBit()) == b.c; }
static std::string show(const StatusFlags& s) {
  std::string r;
  const char* n = "emxc";
  BitState b[] = {s.EBit(), s.MBit(), s.XBit(), s.CBit()};
  for (int i = 0; i < 4; ++i) r += fmt("%c=%c ", n[i], "01o?"[b[i]]);
  return r;
}
static std::string show(const Best& b) { return fmt("e=%d m=%d x=%d c=%d (-1: unknown)", b.e, b.m, b.x, b.c); }
static StatusFlags nth(int i) { return StatusFlags(BitState(i & 3), BitState(i >> 2 & 3), BitState(i >> 4 & 3), BitState(i >> 6 & 3)); }

static void pairs(Case& c) {
  StatusFlags a = nth(c.index & 255), b = nth(c.index >> 8);
  c.note(show(a) + " merged with " + show(b));
  c.nontrivial(a != b);
  StatusFlags m = a | b;
  c.check(m == (b | a), "merging depends on the order");
  c.check((a | a) == a, "merging with itself changes a state");
  c.check((m | a) == m && (m | b) == m, "merging again changes the result");
  StatusFlags t = a;
  t |= b;
  c.check(t == m, "|= differs from |");
  auto all = allows(a);
  for (auto& s : allows(b)) all.insert(s);
  c.check(is(m, best(all)), "gives " + show(m) + ", want " + show(best(all)));
  c.check((a == b) == !(a != b), "== and != disagree");
  // A bit that still has its value from the start of the subroutine stays that way only if it does on both sides.
  BitState x[] = {a.EBit(), a.MBit(), a.XBit(), a.CBit()}, y[] = {b.EBit(), b.MBit(), b.XBit(), b.CBit()}, z[] = {m.EBit(), m.MBit(), m.XBit(), m.CBit()};
  for (int i = 0; i < 4; ++i) c.check(z[i] != B_original || (x[i] == B_original && y[i] == B_original), "an unchanged bit appeared");
}
static void single(Case& c) {
  StatusFlags a = nth(c.index);
  c.note(show(a));
  c.nontrivial();
  c.check(is(a, best(allows(a))), "bits contradict each other or say less than they could: want " + show(best(allows(a))));
  for (int v = 0; v < 2; ++v) {
    // setting bits, as REP and SEP do
    for (int which = 0; which < 3; ++which) {
      StatusFlags s = a;
      BitState to = v ? B_on : B_off;
      if (which == 0) s.SetMBit(to);
      else if (which == 1) s.SetXBit(to);
      else s.SetCBit(to);
      std::set<Bits> img;
      for (Bits b : allows(a)) {
        if (which == 0) b.m = b.e ? 1 : v;
        else if (which == 1) b.x = b.e ? 1 : v;
        else b.c = v;
        img.insert(b);
      }
      c.check(is(s, best(img)), fmt("setting bit %d to %d gives ", which, v) + show(s) + ", want " + show(best(img)));
    }
  }
  StatusFlags s = a;
  s.ExchangeCE();
  std::set<Bits> img;
  for (Bits b : allows(a)) {
    std::swap(b.c, b.e);
    if (b.e) b.m = b.x = 1;
    img.insert(b);
  }
  c.check(is(s, best(img)), "exchanging carry and E gives " + show(s) + ", want " + show(best(img)));
  s = a;
  s.SetIncoming();
  c.check(allows(s) == allows(a), "entering a subroutine changes what is known");
  // The printed name says what is known about a mode that has a name.
  std::string name = a.ToName();
  auto back = StatusFlags::FromName(name);
  c.check(back.has_value(), "its name " + name + " is not a mode");
  for (auto& b : allows(a)) {
    Bits w = b;
    auto al = allows(*back);
    c.check(al.count(w) > 0, "its name " + name + " rules out a possible state");
  }
  if (known(a.EBit()) >= 0)
    c.check(known(back->EBit()) == known(a.EBit()) && known(back->MBit()) == known(a.MBit()) && known(back->XBit()) == known(a.XBit()), "its name " + name + " loses something");
}
static void names(Case& c) {
  static const char* parts[] = {"m", "x", "8", "16", "unk", "emu", "native", "M8", "X16", "m16x8", "1", "6", "u", " "};
  std::string s;
  for (auto more = c.many(2, 5); more.more();) s += c.pick(parts);
  if (c.coin(1, 3)) s = c.pick({"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16", "x8m8", "e", "nativ", "emulation"});
  if (c.coin()) s = gen::mixcase(c, s);
  if (c.coin(1, 8) && !s.empty()) s[c.draw(s.size())] = (char)c.draw(256);
  c.note("\"" + s + "\"");
  ref::Mode3 want;
  bool ok = ref::ModeByName(s, &want);
  auto got = StatusFlags::FromName(s);
  c.nontrivial(!s.empty());
  c.label(ok ? "a mode" : "not a mode");
  c.check(got.has_value() == ok, ok ? "is a mode name, but is refused" : "is not a mode name, but reads as " + (got ? got->ToName() : ""));
  if (!ok) return;
  c.check(known(got->EBit()) == want.e && known(got->MBit()) == want.m && known(got->XBit()) == want.x && known(got->CBit()) == -1, "reads as " + show(*got));
  c.check(got->ToName() == ref::Lower(s), "prints as " + got->ToName());
  c.check(got->ToString() == got->ToName(), "prints a carry bit");
}
// Whole execution states, reached by random operations.
static void op(Case& c, ExecutionState* s) {
  switch (c.draw(14)) {
    case 0: s->PushFlags(); break;
    case 1: s->PullFlags(); break;
    case 2: s->PushAccumulator(); break;
    case 3: s->PullAccumulator(); break;
    case 4: s->PushXRegister(); break;
    case 5: s->PullXRegister(); break;
    case 6: s->PushYRegister(); break;
    case 7: s->PullYRegister(); break;
    case 8: s->Flags().SetMBit(c.coin() ? B_on : B_off); break;
    case 9: s->Flags().SetXBit(c.coin() ? B_on : B_off); break;
    case 10: s->Flags().SetCBit(c.coin() ? B_on : B_off); break;
    case 11: s->Flags().ExchangeCE(); break;
    case 12: { RegisterValue* r[] = {&s->Accumulator(), &s->XRegister(), &s->YRegister(), &s->DataBankRegister()}; *c.pick(r) = RegisterValue(c.draw(3)); break; }
    default: if (c.coin()) s->GetStack().PushDBR(s->DataBankRegister()); else s->WipeAccumulator();
  }
}
static void states(Case& c) {
  static const char* modes[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
  std::vector<ExecutionState> s;
  std::string note;
  ExecutionState base(*StatusFlags::FromName(c.pick(modes)));
  for (auto m = c.many(4, 10); m.more();) op(c, &base);
  for (int i = 0; i < 3; ++i) {
    ExecutionState t = c.coin(3, 4) ? base : ExecutionState(*StatusFlags::FromName(c.pick(modes)));
    for (auto m = c.many(3, 10); m.more();) op(c, &t);
    s.push_back(t);
    note += show(t.Flags()) + "/ ";
  }
  c.note(note);
  auto &a = s[0], &b = s[1], &d = s[2];
  c.nontrivial(a != b);
  c.check((a | b) == (b | a), "merging depends on the order");
  c.check((a | a) == a, "merging with itself changes a state");
  c.check((a | b | d) == (a | (b | d)), "merging depends on the grouping");
  c.check(((a | b) | a) == (a | b), "merging again changes the result");
  c.check((a | b).Flags() == (a.Flags() | b.Flags()), "flags of the merged state");
  c.check(!(a != a) && a == a, "equality");
  // What is true of the merged state is true of both.
  ExecutionState m = a | b, a2 = a, b2 = b, m2 = m;
  for (int i = c.range(1, 4); i > 0; --i) {
    m2.PullFlags(), a2.PullFlags(), b2.PullFlags();
    auto am = allows(m2.Flags());
    for (auto* q : {&a2, &b2})
      for (auto& w : allows(q->Flags())) c.check(am.count(w) > 0, "pulling flags from the merged state gives " + show(m2.Flags()) + ", from one of its parts " + show(q->Flags()));
  }
}
// What a history of operations does to every concrete start allowed: pairs of
// the bits on entry to the subroutine and the bits now.
struct Abs { StatusFlags f; std::set<std::pair<Bits, Bits>> v; };
static void history(Case& c) {
  static const char* modes[] = {"unk", "unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
  StatusFlags start = *StatusFlags::FromName(c.pick(modes));
  c.note("enter with " + show(start));
  Abs first{start, {}};
  first.f.SetIncoming();
  for (auto& b : allows(start)) first.v.insert({b, b});
  std::vector<Abs> s{first};
  auto sound = [&](const Abs& a) {
    BitState w[] = {a.f.EBit(), a.f.MBit(), a.f.XBit(), a.f.CBit()};
    for (auto& p : a.v) {
      int was[] = {p.first.e, p.first.m, p.first.x, p.first.c}, now[] = {p.second.e, p.second.m, p.second.x, p.second.c};
      for (int i = 0; i < 4; ++i) {
        bool ok = w[i] == B_on ? now[i] == 1 : w[i] == B_off ? now[i] == 0 : w[i] == B_original ? now[i] == was[i] : true;
        c.check_f(ok, [&] { return "the state is " + show(a.f) + fmt("(e m x c; o: as on entry), but entered with %d%d%d%d it can be %d%d%d%d here", was[0], was[1], was[2], was[3], now[0], now[1], now[2], now[3]); });
      }
    }
  };
  for (auto more = c.many(6, 20); more.more();) {
    Abs a = s[c.draw(s.size())];
    int what = c.draw(8), to = c.draw(3);
    BitState bit = to == 2 ? B_unknown : to ? B_on : B_off;
    std::set<std::pair<Bits, Bits>> v;
    switch (what) {
      case 0: case 1: case 2: {
        if (what == 0) a.f.SetMBit(bit);
        else if (what == 1) a.f.SetXBit(bit);
        else a.f.SetCBit(bit);
        c.note(fmt("%s %s", what == 0 ? "M" : what == 1 ? "X" : "C", to == 2 ? "lost" : to ? "set" : "clear"));
        for (auto p : a.v)
          for (int k = 0; k < 2; ++k) {
            if (to != 2 && k != to) continue;
            Bits& b = p.second;
            if (what == 0) b.m = b.e ? 1 : k;
            else if (what == 1) b.x = b.e ? 1 : k;
            else b.c = k;
            v.insert(p);
          }
        a.v = v;
        break;
      }
      case 3: case 4:
        c.note("exchange");
        a.f.ExchangeCE();
        for (auto p : a.v) {
          std::swap(p.second.c, p.second.e);
          if (p.second.e) p.second.m = p.second.x = 1;
          v.insert(p);
        }
        a.v = v;
        break;
      case 5: case 6: {
        const Abs& o = s[c.draw(s.size())];
        c.note("merge with " + show(o.f));
        a.f |= o.f;
        a.v.insert(o.v.begin(), o.v.end());
        break;
      }
      default: {
        // PLP: everything but E comes back from a saved state
        const Abs& o = s[c.draw(s.size())];
        c.note("restore " + show(o.f));
        a.f = StatusFlags(a.f.EBit(), o.f.MBit(), o.f.XBit(), o.f.CBit());
        for (auto& p : a.v)
          for (auto& q : o.v) {
            if (!(p.first == q.first)) continue;
            Bits b = q.second;
            b.e = p.second.e;
            if (b.e) b.m = b.x = 1;
            v.insert({p.first, b});
          }
        a.v = v;
      }
    }
    if (a.v.empty()) continue;
    c.note("-> " + show(a.f));
    sound(a);
    s.push_back(a);
  }
  int orig = 0;
  for (auto& a : s) orig += a.f.MBit() == B_original || a.f.XBit() == B_original;
  c.nontrivial(s.size() > 3 && orig > 1);
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C26";
  cfg.rule = "all 256 flag states, all 65536 pairs, strings around the mode names, triples of execution states after random operations, and histories of operations followed on every concrete start; non-trivial: the states differ, the string is not empty, the history has more than two steps and states with unchanged bits";
  cfg.tests = {{"pairs", pairs, 65536}, {"single", single, 256}, {"names", names}, {"states", states}, {"history", history}};
  cfg.quick_cases = 250000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
