// C21: comparison operators are consistent.
#include "common.h"
// A syllable: literal of 0..LLEN characters (0 = ordinary), any components, any end position
#ifndef LLEN
#define LLEN 2
#endif
struct K { C5 c; std::u16string lit; int pos; };
static K symK(int k, int maxl) {
  K r; r.c = symC5(k); r.pos = (int)(int8_t)sx_sym(nm("pos", k).c_str(), 8);
  int n = sx_choose(nm("len", k).c_str(), maxl + 1);
  for (int j = 0; j < n; j++) r.lit += (char16_t)sx_sym((nm("ch", k) + char('a' + j)).c_str(), 16);
  return r;
}
static Syl mk(const K& k) { return k.lit.empty() ? sylOf(k.c, k.pos) : Syl(k.pos, k.lit); }
// reference: -1, 0, 1 without and with the end position
static int sgn(long d) { return (d > 0) - (d < 0); }
static int refLit(const std::u16string& a, const std::u16string& b) {
  int r = 0; size_t n = a.size() < b.size() ? a.size() : b.size();
  for (size_t i = n; i-- > 0;) { long d = (long)a[i] - (long)b[i]; r = (int)sx_select(d != 0, (uint64_t)(int64_t)sgn(d), (uint64_t)(int64_t)r); }
  return (int)(int64_t)sx_select(r != 0, (uint64_t)(int64_t)r, (uint64_t)(int64_t)sgn((long)a.size() - (long)b.size()));
}
static void all(bool lt, bool gt, bool le, bool ge, bool eq, bool ne, int c, bool same, const char* m) {
  SX_CHECK(lt == (c < 0), m); SX_CHECK(gt == (c > 0), m); SX_CHECK(le == (c <= 0), m); SX_CHECK(ge == (c >= 0), m);
  SX_CHECK(eq == same, m); SX_CHECK(ne == !same, m);
}
extern "C" void sx_main() {
#if defined(TRIPLE)
  K a = symK(1, LLEN), b = symK(2, LLEN), c = symK(3, LLEN);
  Syl x = mk(a), y = mk(b), z = mk(c);
  bool xy = x < y, yz = y < z, xz = x < z;
  SX_CHECK(!(xy && yz) || xz, "less-than is not transitive");
  SX_CHECK(xy || yz || !xz, "incomparability is not transitive");
  bool e1 = x == y, e2 = y == z;
  SX_CHECK(!(e1 && e2) || (x == z), "equality is not transitive");
  sx_reach(xy ? "lt" : "ge");
#elif defined(STRS)
  int n = sx_choose("na", STRS + 1), m = sx_choose("nb", STRS + 1);
  SylString s, t; std::vector<Syl> u, v;
  for (int k = 0; k < n; k++) { Syl q = mk(symK(k, LLEN)); s += q; u.push_back(q); }
  for (int k = 0; k < m; k++) { Syl q = mk(symK(20 + k, LLEN)); t += q; v.push_back(q); }
  // lexicographic by the syllable order, proper prefix first
  int c = 0; bool same = n == m;
  for (int k = 0; k < n && k < m; k++) {
    if (!(u[k] == v[k])) same = false;
    if (c == 0) { if (u[k] < v[k]) c = -1; else if (v[k] < u[k]) c = 1; }
  }
  if (c == 0) c = (n > m) - (n < m);
  all(s < t, s > t, s <= t, s >= t, s == t, s != t, c, same, "syllable string comparison is not lexicographic");
  SX_CHECK(t < s == (c > 0) , "string less-than is not antisymmetric");
  SX_CHECK((t == s) == same, "string equality is not symmetric");
  sx_reach(c < 0 ? "less" : c > 0 ? "greater" : "tied");
  sx_reach(same ? "eq" : "ne");
#else
  K a = symK(1, LLEN), b = symK(2, LLEN);
  Syl x = mk(a), y = mk(b);
  bool lx = !a.lit.empty(), ly = !b.lit.empty();
  bool lt = x < y, gt = x > y, eq = x == y;
  // equality: all of the text or all five components, never the end position
  bool same = lx != ly ? false : lx ? refLit(a.lit, b.lit) == 0 : sameC5(a.c, b.c);
  SX_CHECK(eq == same, "equality does not compare exactly text or components");
  SX_CHECK((y == x) == same, "equality is not symmetric");
  SX_CHECK((x != y) == !same, "inequality is not the negation of equality");
  SX_CHECK((x <= y) == !gt, "less-or-equal is not the negation of greater-than");
  SX_CHECK((x >= y) == !lt, "greater-or-equal is not the negation of less-than");
  SX_CHECK((y > x) == lt, "greater-than is not the converse of less-than");
  SX_CHECK((y < x) == gt, "less-than is not the converse of greater-than");
  SX_CHECK(!(lt & gt), "both less and greater");
  SX_CHECK(lt | gt | (same & (a.pos == b.pos)), "incomparable but not identical");
  if (same) { SX_CHECK(lt == (a.pos < b.pos), "of two equal syllables the one ending earlier does not sort first"); sx_reach("same"); }
  if (lx && !ly) { SX_CHECK(lt, "literal does not sort before an ordinary syllable"); sx_reach("lit"); }
  if (lx && ly) { int c = refLit(a.lit, b.lit); SX_CHECK((c == 0) | (lt == (c < 0)), "literals are not ordered by text"); sx_reach("lits"); }
#endif
}
