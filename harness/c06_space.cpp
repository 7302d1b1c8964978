// C06: words separated by spaces; with BREAK (C09): words separated by a boundary of the segmenter.
#include "text.h"
extern "C" void sx_main() {
  Txt a, b, all;
#ifdef TPLS
#ifdef BREAK
  int sp = 0;
#else
  int sp = 1;
#endif
  const char16_t* p1 = pickTpl("pattern");
#ifdef FAR
  // FAR words before the one looked at
  for (int k = 0; k < FAR; k++) { a.add(u'ก'); a.add(u'า'); if (sp && k + 1 < FAR) a.add(u' '); }
#endif
  for (; *p1 != u'/'; p1++) a.add(symTpl(nm("a", (int)a.u.size()).c_str(), *p1));
  for (p1++; *p1; p1++) b.add(symTpl(nm("b", (int)b.u.size()).c_str(), *p1));
  int n1 = (int)a.u.size(), n2 = (int)b.u.size();
#else
  int n1 = 1 + sx_choose("n1", N1), n2 = 1 + sx_choose("n2", N2), sp = 1 + sx_choose("spaces", 2);
  for (int k = 0; k < n1; k++) a.add(symLetter(nm("a", k).c_str()));
  for (int k = 0; k < n2; k++) b.add(symLetter(nm("b", k).c_str()));
#endif
  for (auto c : a.u) all.add(c);
  for (int k = 0; k < sp; k++) all.add(u' ');
  for (auto c : b.u) all.add(c);
#ifdef BREAK
  sx_brk_on = 1; sx_brk_mask = 0; Parser p(true);
#ifdef FAR
  sx_brk_every = 2; sx_brk_upto = n1; SX_CHECK(n1 % 2 == 0, "pattern of odd length");
#endif
#else
  Parser p(false);
#endif
#ifdef DICT
  // with a dictionary: a pre-syllable and a syllable, a pre-syllable inside, a syllable per character, two alternatives
  std::vector<DW> w = {DW{u"นา", "kwAn3@-2,y_om2@2"}, DW{u"มาย", "y_om2@1,kwAn3@-103,y_om2@3"}, DW{u"ราก", "grEt1@1,y_om2@2,grEt1@3"}, DW{u"วา", "b_iw4@2;slO_2@2"}};
  sx_file_put(sx_path("d.dic"), dictFile(w)); bool loaded = p.loadExceptDict(sx_path("d.dic").c_str());
  SX_CHECK(loaded, "the dictionary cannot be loaded");
#endif
  PronunDAG da = p.parseWord(a.s);
#ifdef BREAK
  int upto = sx_brk_upto; sx_brk_upto = 0;
#endif
  PronunDAG db = p.parseWord(b.s);
#ifdef BREAK
  sx_brk_mask = n1 < 64 ? 1ul << n1 : 0; sx_brk_upto = upto;
#endif
  PronunDAG d = p.parseWord(all.s);
  auto x = ref::segsOf(da), y = ref::segsOf(db), z = ref::segsOf(d);
  dumpDAG("all", d);
  if (x.empty() || y.empty()) { SX_CHECK(z.empty(), "a phrase has readings although one of its words has none"); sx_reach("none"); return; }
  std::vector<ref::GSeg> first, second; bool lit = false, other = false;
  for (auto& g : z) {
    if (g.to <= n1) first.push_back(g);
    else if (g.from >= n1 + sp) second.push_back(g);
    else { bool ok = g.from == n1 && g.to == n1 + sp && g.n == 1 && g.s[0]->isLiteral(); if (ok) { std::u16string l = g.s[0]->literal(); ok = (int)l.size() == sp; for (auto c : l) ok &= c == u' '; } lit |= ok; other |= !ok; }
  }
  SX_CHECK(lit == (sp > 0) && !other, sp == 0 ? "a syllable straddles a word boundary" : "the spaces between two words are not one literal");
#ifdef FAR
  SX_CHECK(x.size() == first.size(), "the first words are read differently in a long text");
  auto tail = [&](std::vector<ref::GSeg>& v) { std::vector<ref::GSeg> r; for (auto& g : v) if (g.to > n1 - 6) r.push_back(g); v = r; };
  tail(x); tail(first);
#endif
  SX_CHECK(segsIn(x, first, 0) & segsIn(first, x, 0), "the first word is read differently in a phrase");
  SX_CHECK(segsIn(y, second, n1 + sp) & segsIn(second, y, -(n1 + sp)), "the second word is read differently in a phrase");
#ifdef DICT
  bool place = true, pre = false;
  for (auto& g : z) if (g.n == 2) if (sameSyl(*g.s[0], Syl(std::string("kwAn3")))) { pre = true; place = place & (g.s[0]->endPos() == -(100 * g.from + g.to)); }
  SX_CHECK(place, "the position of a pre-syllable is not shifted to the place of the word");
  if (pre) sx_reach("pre");
#endif
  sx_reach("some");
}
