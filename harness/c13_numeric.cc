// C13: numeric type coercion and combination.
#include <algorithm>
#include "gen_addr.h"
#include "nsasm/address.h"

using namespace nsasm;
using pbt::Case;
using pbt::fmt;

static const NumericType kAll[] = {T_unknown, T_byte, T_word, T_long, T_signed_byte, T_signed_word, T_signed_long};
static int bits(NumericType t) { return t == T_byte || t == T_signed_byte ? 8 : t == T_word || t == T_signed_word ? 16 : t == T_unknown ? 0 : 24; }
static bool sgn(NumericType t) { return t == T_signed_byte || t == T_signed_word || t == T_signed_long; }
static NumericType make(int b, bool s) { return b == 8 ? (s ? T_signed_byte : T_byte) : b == 16 ? (s ? T_signed_word : T_word) : b == 24 ? (s ? T_signed_long : T_long) : T_unknown; }

static void types(Case& c) {
  NumericType a = kAll[c.index / 7], b = kAll[c.index % 7];
  c.note("combine " + ToString(a) + " and " + ToString(b));
  c.nontrivial(a != b);
  NumericType want = a == T_unknown ? b : b == T_unknown ? a : make(std::max(bits(a), bits(b)), sgn(a) || sgn(b));
  c.check(ArtihmeticConversion(a, b) == want, "combines to " + ToString(ArtihmeticConversion(a, b)) + ", want " + ToString(want));
  c.check(ArtihmeticConversion(a, b) == ArtihmeticConversion(b, a), "combination must not depend on order");
  for (NumericType t : kAll) c.check(ArtihmeticConversion(ArtihmeticConversion(a, b), t) == ArtihmeticConversion(a, ArtihmeticConversion(b, t)), "combination must associate");
  c.check(Signed(a) == make(bits(a), true) && Unsigned(a) == make(bits(a), false) && IsSigned(a) == sgn(a), "signedness of " + ToString(a));
  std::string name = bits(a) == 0 ? "unknown" : std::string(sgn(a) ? "signed " : "") + (bits(a) == 8 ? "byte" : bits(a) == 16 ? "word" : "long");
  c.check(ToString(a) == name, name + " prints as " + ToString(a));
}

static void casts(Case& c) {
  NumericType t = c.pick(kAll);
  int v = gen::any_int(c);
  c.note(fmt("cast %d to ", v) + ToString(t));
  int r = CastTo(t, v);
  c.check_f(LabelValue::FromInt(v).ToNumber(t) == r, [&] { return std::string("label value coerces differently"); });
  if (t == T_unknown) { c.check(r == v, "an unknown type must not change the value"); return; }
  int64_t mod = int64_t(1) << bits(t), lo = sgn(t) ? -mod / 2 : 0, hi = lo + mod - 1;
  c.nontrivial(v < lo || v > hi);
  c.check_f(r >= lo && r <= hi, [&] { return fmt("result %d out of range [%lld,%lld]", r, (long long)lo, (long long)hi); });
  c.check_f(((int64_t)r - (int64_t)v) % mod == 0, [&] { return fmt("result %d is not congruent modulo %lld", r, (long long)mod); });
  c.check(CastTo(t, r) == r, "casting twice changes the value");
}

int main(int argc, char** argv) {
  pbt::Config cfg;
  cfg.property = "C13";
  cfg.rule = "all 49 pairs of types; edge-biased ints cast to every type; non-trivial: different types, or a value outside the type's range";
  cfg.tests = {{"types", types, 49}, {"casts", casts}};
  cfg.quick_cases = 6000000;
  cfg.thorough_cases = 50000000;
  return pbt::main_(cfg, argc, argv);
}
