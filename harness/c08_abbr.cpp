// C08: abbreviations.
#include "text.h"
extern "C" void sx_main() {
  Txt t; int n = 1 + sx_choose("n", LEN);
#ifdef GROUP
  // groups of one to four consonants with periods: exactly one reading
  std::vector<int> st, en; int groups = 1 + sx_choose("groups", GROUP); std::vector<char16_t> cs; bool lone = false;
  for (int g = 0; g < groups; g++) {
    int k = 1 + sx_choose(nm("len", g).c_str(), 4); bool sp = g && sx_choose(nm("space", g).c_str(), 2); lone = g + 1 == groups && k == 1 && sx_choose("lone", 2);
    if (sp) { st.push_back((int)t.u.size()); cs.push_back(0); t.add(u' '); en.push_back((int)t.u.size()); }
    for (int i = 0; i < k; i++) { st.push_back((int)t.u.size()); cs.push_back(symCons(nm("c", g * 4 + i).c_str())); t.add(cs.back()); if (i + 1 == k && !lone) t.add(u'.'); en.push_back((int)t.u.size()); }
  }
  (void)n; ref::init();
  Parser p(false); PronunDAG d = p.parseWord(t.s); auto e = edgesOf(d);
  bool one = e.size() == st.size(), right = true;
  for (auto& x : e) {
    bool hit = false;
    for (size_t k = 0; k < st.size(); k++) if (x.f == st[k] && x.t == en[k]) {
      if (!cs[k]) hit = x.s.isLiteral() && x.s.literal() == u" ";
      else if (!x.s.isLiteral()) hit = ((uint64_t)x.s.iCons1() == ref::snd(cs[k])) & ((char)x.s.iCons2() == '_') & ((char)x.s.vowel() == 'C') & ((uint64_t)x.s.eCons() == 0) & ((uint64_t)x.s.tone() == sx_select(ref::cls(cs[k]) == 'H', 5, 1));
    }
    right = right & hit;
  }
  SX_CHECK(one, "an abbreviation does not have exactly one reading"); SX_CHECK(right, "a letter of an abbreviation is not read as its name");
  sx_reach("end"); if (lone) sx_reach("lone");
#else
  static const char16_t K[] = u"*. า";
  for (int k = 0; k < n; k++) { char16_t c = K[sx_choose(nm("kind", k).c_str(), 4)]; t.add(c == u'*' ? symCons(nm("c", k).c_str()) : c); }
  Parser p(false); PronunDAG d = p.parseWord(t.s);
  ref::Analysis r(t.u); ref::compare(d, r); dumpDAG("dag", d);
  sx_reach(r.segs.empty() ? "none" : "some");
#endif
}
