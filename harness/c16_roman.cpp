// C16: Royal Institute romanization, hyphens, capitalization.
#include "common.h"
#include "output/sylout-roman.h"
#include "output/output-roman.h"
#include <cstring>
static const char* RI[] = {"", "k", "kh", "ng", "ch", "ch", "y", "d", "t", "th", "n", "b", "p", "ph", "f", "m", "r", "l", "w", "s", "h", ""};
static const char* RS[] = {"", "r", "l", "w"};
static const char* RV[] = {"a", "i", "ue", "u", "e", "ae", "ia", "uea", "ua", "o", "o", "oe"};
static const char* RE[] = {"", "k", "t", "p", "ng", "n", "m", "i", "o"};
static std::string roman(const C5& a) { return std::string(RI[a.i]) + RS[a.s] + RV[a.v >> 1] + RE[a.e]; }
static char up(char c) { return (char)sx_select((c >= 'a') & (c <= 'z'), (uint64_t)(unsigned char)(c - 32), (uint64_t)(unsigned char)c); }
extern "C" void sx_main() {
#ifndef STR
  RomanSylOutput o;
  C5 a = symC5(1);
  std::string p = o.output(sylOf(a, (int)sx_sym("pos", 32)));
  sx_dump_str("out", p);
  SX_CHECK(sameStr(p, roman(a)), "syllable is not romanized by the Royal Institute table");
  sx_reach("end");
#else
  // strings: initial in {glottal, ng, k}, final in {none, ng, n}; hyphenation depends on nothing else.
  // kind 1: literal, kind 2: blank
  bool cap = sx_choose("cap", 2);
  int n = 1 + sx_choose("n", STR);
  RomanOutput o(cap);
  SylString s; std::string w; int prev = -1; uint64_t pe = 0; bool known = true;
  for (int k = 0; k < n; k++) {
    int kind = sx_choose(nm("kind", k).c_str(), 3);
    if (kind == 0) {
      C5 a;
      a.i = sx_range(nm("i", k).c_str(), 8, 1, 21); SX_ASSUME((a.i == 1) | (a.i == 3) | (a.i == 21));
      a.e = sx_range(nm("e", k).c_str(), 8, 0, 8); SX_ASSUME((a.e == 0) | (a.e == 4) | (a.e == 5));
      a.s = 0; a.v = 1; a.t = 1;
      a.i = sx_conc(a.i); a.e = sx_conc(a.e);
      s += sylOf(a, k + 1);
      if (prev == 0 || prev == 1) {
        if (prev == 1 && a.i == 3) sx_prune();   // ng after a literal: not specified
        if (a.i == 21 || (a.i == 3 && pe == 0)) w += '-';
      } else if (prev == 2 && k == 1) sx_prune();  // a string starting with a blank is not specified
      w += roman(a); pe = a.e;
    } else if (kind == 1) {
      s += Syl(k + 1, std::u16string(u"xy")); w += "(xy)";
    } else { s += Syl::Blank; w += " "; }
    prev = kind;
  }
  if (cap) w[0] = up(w[0]);
  std::string p = o.output(s);
  sx_dump_str("out", p);
  SX_CHECK(sameStr(p, w), "romanization of the string: order, hyphens or capital");
  sx_reach(p.find('-') == std::string::npos ? "plain" : "hyphen");
  std::list<SylString> l; l.push_back(s); l.push_back(s);
  SX_CHECK(sameStr(o.output(l), w + "\n" + w + "\n"), "romanization of a list is not one line per string");
#endif
}
