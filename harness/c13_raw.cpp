// C13: raw codes round-trip.
#include "common.h"
#include "output/sylout-raw.h"
#include "output/output-delim.h"
#ifndef PMIN
#define PMIN -99999
#define PMAX 99999
#endif
static bool backEq(const Syl& b, const C5& c, int pos) {
  return !b.isLiteral() & (b.iCons1() == (EInitConsSound)c.i) & (b.iCons2() == (ESecInitCons)SC[c.s]) & (b.vowel() == (EVowel)VW[c.v])
       & (b.eCons() == (EEndConsClass)c.e) & (b.tone() == (ETone)c.t) & (b.endPos() == pos);
}
extern "C" void sx_main() {
  RawSylOutput o;
#ifdef STR
  int n = (int)sx_range("n", 8, 1, STR);
  n = (int)sx_conc(n);
  SylString s; std::vector<C5> c; std::vector<int> p; std::string w;
  for (int k = 0; k < n; k++) {
    c.push_back(symC5(k));
    int q = (int)sx_range(nm("p", k).c_str(), 32, 0, 198) - 99;
    p.push_back(q);
    s += sylOf(c[k], q);
  }
  DelimOutput d(std::unique_ptr<ISylOutput>(new RawSylOutput), ',');
  std::string t = d.output(s);
  SylString b(t);
  int k = 0; bool ok = true;
  for (const auto& y : b) { if (k < n) ok = ok & backEq(y, c[k], p[k]); k++; }
  SX_CHECK(k == n, "raw notation of a string reads back to another number of syllables");
  SX_CHECK(ok, "raw notation of a string reads back to another string");
  SX_CHECK(b == s, "string read back does not compare equal");
  SX_CHECK(b.endPos() == p[n - 1], "end position of the string read back differs");
  sx_reach("strings");
#else
  C5 a = symC5(1);
  int pos = (int)sx_range("pos", 32, 0, (long)PMAX - (long)PMIN) + PMIN;
  Syl s = sylOf(a, pos);
  std::string t = o.output(s);
  sx_dump_str("raw", t);
  Syl b(t);
  SX_CHECK(backEq(b, a, pos), "raw notation reads back to another syllable or position");
  SX_CHECK(b == s, "syllable read back does not compare equal");
  // codes: one letter per component, in order
  SX_CHECK(t.size() >= 5, "raw notation is too short");
  SX_CHECK((t[0] == IC[a.i]) & (t[1] == SC[a.s]) & (t[2] == VW[a.v]) & (t[3] == EC[a.e]) & (t[4] == char('0' + a.t - 1)), "raw code letters");
  // the character constructor agrees with the description constructor
  Syl g(t[0], t[1], t[2], t[3], t[4], pos);
  SX_CHECK(backEq(g, a, pos), "syllable from code letters differs");
  // position given apart
  Syl h(t.substr(0, 5), pos);
  SX_CHECK(backEq(h, a, pos), "description without position ignores the given position");
  if (pos < 0) sx_reach("neg"); else sx_reach("pos");
#endif
}
