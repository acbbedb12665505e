// C10: error values carry message and location.
#include "nsasm/address.h"
#include "nsasm/error.h"
#include "pbt.h"

using nsasm::Error;
using nsasm::ErrorOr;
using nsasm::Location;
using pbt::Case;
using pbt::fmt;

static std::string word(Case& c) {
  static const char* w[] = {"", "a.asm", "dir/b.s", "x y", "%s", "100%", "é", "rom.sfc", "z:1"};
  return c.pick(w);
}

struct Loc { std::string path; int kind = 0; int off = 0; };  // kind: 0 none, 1 line, 2 address

static Location make(Case& c, Loc* m) {
  switch (c.weighted({2, 2, 2, 2, 1, 1})) {
    case 0: m->path = word(c); return Location(m->path);
    case 1: m->kind = 1; m->off = c.range(0, 100000); return Location(m->off);
    case 2: m->path = word(c); m->kind = 1; m->off = c.range(0, 300); return Location(m->path, m->off);
    case 3: m->kind = 2; m->off = c.draw(0x1000000); return Location::FromAddress(m->off);
    case 4: m->kind = 2; m->off = c.draw(0x1000000); return nsasm::Address(m->off);
    default: return Location();
  }
}

static void update(Loc* a, const Loc& b) {
  if (!b.path.empty()) a->path = b.path;
  if (b.kind) { a->kind = b.kind; a->off = b.off; }
}

static std::string text(const Loc& l) {
  if (l.path.empty()) return "";
  if (l.kind == 1) return l.path + ":" + std::to_string(l.off);
  if (l.kind == 2) return l.path + fmt(":0x%06x", l.off);
  return l.path;
}

static ErrorOr<int> step(const ErrorOr<int>& in) {
  NSASM_RETURN_IF_ERROR(in);
  return *in + 1;
}
static ErrorOr<std::string> step_at(const ErrorOr<int>& in, Location a, Location b, bool two) {
  if (two) NSASM_RETURN_IF_ERROR_WITH_LOCATION(in, a, b);
  else NSASM_RETURN_IF_ERROR_WITH_LOCATION(in, a);
  return std::to_string(*in);
}
static ErrorOr<void> step_void(const ErrorOr<std::string>& in) {
  NSASM_RETURN_IF_ERROR(in);
  return {};
}

static void errors(Case& c) {
  std::string arg = word(c);
  int num = (int)c.range(-5, 1000);
  Error e("%s/%d/%06x", arg, num, num & 0xffff);
  std::string msg = arg + fmt("/%d/%06x", num, num & 0xffff);
  Loc m;
  int steps = 0;
  for (auto more = c.many(3, 10); more.more();) {
    Loc a, b;
    ++steps;
    Location la = make(c, &a);
    c.check_f(la.ToString() == text(a), [&] { return "location prints \"" + la.ToString() + "\", want \"" + text(a) + "\""; });
    if (c.coin(1, 3)) {
      Location lb = make(c, &b);
      Error& same = e.SetLocation(la, lb);
      c.check(&same == &e, "SetLocation must return the same error");
      update(&m, a);
      update(&m, b);
    } else {
      e.SetLocation(la);
      update(&m, a);
    }
    std::string want = text(m).empty() ? msg : text(m) + ": " + msg;
    c.note(" -> " + want);
    c.check_f(e.ToString() == want, [&] { return "error prints \"" + e.ToString() + "\", want \"" + want + "\""; });
  }
  c.nontrivial(steps >= 2);
  // Propagation.
  ErrorOr<int> bad = e;
  c.check(!bad.ok() && bad.error().ToString() == e.ToString(), "an ErrorOr built from an error must hold it");
  ErrorOr<int> r = step(bad);
  c.check(!r.ok() && r.error().ToString() == e.ToString(), "propagation changed the error");
  Loc a, b;
  Location la = make(c, &a), lb = make(c, &b);
  bool two = c.coin();
  ErrorOr<std::string> s = step_at(bad, la, lb, two);
  Loc m2 = m;
  update(&m2, a);
  if (two) update(&m2, b);
  std::string want = text(m2).empty() ? msg : text(m2) + ": " + msg;
  c.check_f(!s.ok() && s.error().ToString() == want, [&] { return "propagated error prints \"" + s.error().ToString() + "\", want \"" + want + "\""; });
  ErrorOr<void> v = step_void(s);
  c.check(!v.ok() && v.error().ToString() == want, "propagation into ErrorOr<void>");
  c.check(e == s.error() && !(e != s.error()), "errors compare by message");
  Error other("%s!", msg);
  c.check(e != other && !(e == other), "different messages compare unequal");
  int n = (int)c.range(-1000, 1000);
  ErrorOr<int> good = n;
  c.check(good.ok() && *good == n && step(good).ok() && *step(good) == n + 1, "value propagation");
  c.check(step_at(good, la, lb, two).ok() && *step_at(good, la, lb, two) == std::to_string(n), "value propagation with location");
  c.check(step_void(std::string("x")).ok(), "ErrorOr<void> success");
  c.check(good == ErrorOr<int>(n) && good != ErrorOr<int>(n + 1) && good != bad && bad == ErrorOr<int>(e), "ErrorOr comparison");
  ErrorOr<std::string> moved = std::string("payload");
  std::string taken = *std::move(moved);
  c.check(taken == "payload", "moving a value out");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C10";
  cfg.rule = "random messages and sequences of location updates, then propagation through the error macros; non-trivial: two or more updates";
  cfg.tests = {{"errors", errors}};
  cfg.quick_cases = 1000000;
  cfg.thorough_cases = 5000000;
  return pbt::main_(cfg, argc, argv);
}
