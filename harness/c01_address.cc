// C01: address arithmetic.
#include <sstream>
#include <unordered_set>
#include "gen_addr.h"
#include "nsasm/address.h"
#include "ref_map.h"

using nsasm::Address;
using nsasm::LabelValue;
using pbt::Case;
using pbt::fmt;

static uint32_t raw(Address a) { return uint32_t(a.Bank()) << 16 | a.BankAddress(); }

static void wrap(Case& c) {
  uint32_t a = gen::address(c);
  int d1 = gen::any_int(c), d2 = gen::any_int(c);
  c.note(fmt("AddWrapped($%06x, %d) then %d", a, d1, d2));
  uint32_t want = ref::Wrap(a, d1);
  c.nontrivial(((a & 0xffff) + (int64_t)d1) < 0 || ((a & 0xffff) + (int64_t)d1) > 0xffff);
  Address x = Address(a).AddWrapped(d1);
  c.check_f(raw(x) == want, [&] { return fmt("$%06x + %d gave $%06x, want $%06x", a, d1, raw(x), want); });
  Address y = x.AddWrapped(d2);
  c.check_f(raw(y) == ref::Wrap(want, d2), [&] { return fmt("second step from $%06x by %d gave $%06x", want, d2, raw(y)); });
  c.check(raw(Address(a)) == a, "an address must not change by being stored");
  c.check(raw(Address(a).AddWrapped(0x10000)) == a && raw(Address(a).AddWrapped(-0x10000)) == a, "65536 steps must return to the start");
  if (d1 != INT32_MIN) c.check_f(raw(x.AddWrapped(-d1)) == a, [&] { return fmt("$%06x + %d - %d != start", a, d1, d1); });
}

static void subtract(Case& c) {
  uint32_t a = gen::address(c);
  uint32_t b;
  if (c.coin(3, 4)) b = (a & 0xff0000) | (c.coin() ? gen::offset16(c) : ((a + c.range(0, 8) - 4 + (c.coin() ? 0x8000 : 0)) & 0xffff));
  else b = gen::address(c);
  c.note(fmt("SubtractWrapped($%06x, $%06x)", a, b));
  auto r = Address(a).SubtractWrapped(Address(b));
  bool same = (a >> 16) == (b >> 16);
  c.check_f(r.ok() == same, [&] { return fmt("$%06x - $%06x: ok=%d", a, b, r.ok()); });
  if (!same) return;
  int d = *r;
  c.nontrivial(std::abs(int(a & 0xffff) - int(b & 0xffff)) > 0x7fff || d == -0x8000);
  c.check_f(d >= -32768 && d <= 32767, [&] { return fmt("offset %d out of range", d); });
  c.check_f(raw(Address(b).AddWrapped(d)) == a, [&] { return fmt("$%06x + (%d) != $%06x", b, d, a); });
  c.check_f(ref::Wrap(b, d) == a, [&] { return fmt("offset %d from $%06x does not lead to $%06x", d, b, a); });
}

static void values(Case& c) {
  uint32_t a = c.coin(1, 12) ? 0x1000000 : gen::address(c);
  uint32_t b = c.coin(1, 12) ? 0x1000000 : c.coin(1, 3) ? a : c.coin() ? gen::address(c) : (a & 0xffffff) ^ (1u << c.range(0, 23));
  c.note(fmt("compare/print $%06x $%06x", a, b));
  c.nontrivial(a != b);
  Address x(a), y(b);
  c.check((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparisons must order by 24-bit value");
  c.check_f(x.ToString() == fmt("$%06x", a), [&] { return "printed as " + x.ToString(); });
  std::ostringstream os;
  os << x;
  c.check(os.str() == x.ToString(), "stream output differs from ToString");
  if (a <= 0xffffff) {
    c.check(x.Bank() == int(a >> 16) && x.BankAddress() == (a & 0xffff), "bank / bank address split");
    c.check(Address(uint8_t(a >> 16), uint16_t(a & 0xffff)) == x, "two-part constructor disagrees");
    int64_t d = c.coin() ? int64_t(b) - int64_t(a) : c.range(-int64_t(a), 0x1000000 - int64_t(a));
    Address u = x.AddUnwrapped((int)d);
    c.check_f(u == Address(uint32_t(a + d)), [&] { return fmt("AddUnwrapped($%06x, %d)", a, (int)d); });
    LabelValue l = x;
    c.check(l.ToInt() == int(a) && l.ToAddress() == x, "label value of an address must keep the address");
    int n = gen::any_int(c);
    int near = c.coin() ? n : c.coin() ? (int)c.range(0, 4) - 2 : (int)c.range(0xfffffd, 0x1000002);
    auto from = Address::FromInt(near);
    c.check_f(from.ok() == (near >= 0 && near <= 0xffffff), [&] { return fmt("Address::FromInt(%d)", near) + (from.ok() ? " is an address" : ": " + from.error().ToString()); });
    if (from.ok()) c.check_f(raw(*from) == (uint32_t)near, [&] { return fmt("Address::FromInt(%d) is ", near) + from->ToString(); });
    LabelValue v = LabelValue::FromInt(n);
    c.check(v.ToInt() == n, "label value from int");
    c.check((v == l) == (n == int(a)) && (v < l) == (n < int(a)) && (v != l) == (n != int(a)) && (v > l) == (n > int(a)) && (v <= l) == (n <= int(a)) && (v >= l) == (n >= int(a)), "label value comparisons");
    c.check(Address() == Address(0), "default address");
    nsasm::Error e = nsasm::Error("m");
    e.SetLocation(std::string("p"), x);
    c.check_f(e.ToString() == fmt("p:0x%06x: m", a), [&] { return "error at an address prints " + e.ToString(); });
  }
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C01";
  cfg.rule = "addresses with edge-biased banks/offsets and edge-biased ints; non-trivial: the sum leaves the bank (wrap), the same-bank difference exceeds half a bank, or the compared addresses differ";
  cfg.tests = {{"wrap", wrap, 0, 2}, {"subtract", subtract, 0, 2}, {"values", values, 0, 1}};
  cfg.quick_cases = 5000000;
  cfg.thorough_cases = 40000000;
  return pbt::main_(cfg, argc, argv);
}
