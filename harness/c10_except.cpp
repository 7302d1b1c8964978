// C10: exception dictionary.
#include "text.h"
using ref::Seg; using ref::RS;
static RS code(const char* c) { return ref::syl(ref::pos_of(IC, (unsigned char)c[0], 0), c[1], (unsigned char)c[2], ref::pos_of(EC, (unsigned char)c[3], 0), (uint64_t)(c[4] - '0' + 1)); }
static Seg seg(int f, int t, const char* a, const char* b = nullptr) { Seg g{f, t, false, false, 0, {}}; g.s[g.n++] = code(a); if (b) g.s[g.n++] = code(b); return g; }
static const char* const X[4] = {"kwAn3", "grEt1", "b_iw4", "slO_2"};
extern "C" void sx_main() {
  Txt t; ref::init();
  std::vector<DW> w; std::vector<ref::DictEntry> de; static std::string hold[4];
  int nw = 1 + sx_choose("words", WORDS);
  for (int k = 0; k < nw; k++) {
#ifdef POOL
    static const char16_t* const KEYS[] = {u"กา", u"น", u"กาน", u"ราก", u"นา", u"ก", u"เก", u"กานา"};
    static int last; if (k == 0) last = -1;
    int which = sx_choose(nm("key", k).c_str(), 8); if (which <= last) sx_prune(); last = which;
    std::u16string key = KEYS[which]; int len = (int)key.size();
#else
    int len = 1 + sx_choose(nm("len", k).c_str(), KLEN); std::u16string key;
    for (int i = 0; i < len; i++) key += symWord((nm("k", k) + char('a' + i)).c_str());
#endif
    for (auto& o : w) if (o.key.size() == key.size()) { bool eq = true; for (int i = 0; i < len; i++) eq = eq & (o.key[i] == key[i]); SX_ASSUME(!eq); }
    // data: one syllable; two alternatives; pre-syllable and syllable; a syllable per character; syllable, pre-syllable and syllable
    int kind = sx_choose(nm("data", k).c_str(), 5); if (kind == 4 && len < 2) sx_prune();
#ifdef POOL
#ifdef BRK
    if (kind != ((which > 5 ? 4 : which & 3))) sx_prune();
#else
    if (k > 0 && kind != ((which > 5 ? 4 : which & 3))) sx_prune();
#endif
#endif
    ref::DictEntry e; e.key = key; std::string L1(1, char('0' + len)); std::string& s = hold[k];
    const char* a = X[k & 3]; const char* b = "y_om2";
    if (kind == 0) { s = std::string(a) + "@" + L1; e.alts = {{seg(0, len, a)}}; }
    else if (kind == 1) { s = std::string(a) + "@" + L1 + ";" + b + "@" + L1; e.alts = {{seg(0, len, a)}, {seg(0, len, b)}}; }
    else if (kind == 2) { s = std::string(a) + "@-" + L1 + "," + b + "@" + L1; e.alts = {{seg(0, len, a, b)}}; }
    else if (kind == 4) { s = std::string(b) + "@1," + a + "@-10" + L1 + "," + b + "@" + L1; e.alts = {{seg(0, 1, b), seg(1, len, a, b)}}; }
    else { std::vector<Seg> ch; for (int i = 0; i < len; i++) { const char* c = i & 1 ? b : a; ch.push_back(seg(i, i + 1, c)); s += (i ? "," : "") + std::string(c) + "@" + char('1' + i); } e.alts = {ch}; }
    w.push_back(DW{key, s.c_str()}); de.push_back(e);
  }
  int n = 1 + sx_choose("n", LEN);
  for (int k = 0; k < n; k++) t.add(symLetter(nm("c", k).c_str()));
  sx_file_put(sx_path("d.dic"), dictFile(w));
  unsigned long m = 0;
#ifdef BRK
  int b = sx_choose("break", n); if (b) m = 1ul << b; sx_brk_on = 1; sx_brk_mask = m;
  Parser p(true);
#else
  Parser p(false);
#endif
  bool ok = p.loadExceptDict(sx_path("d.dic").c_str());
  SX_CHECK(ok, "the dictionary cannot be loaded");
  PronunDAG d = p.parseWord(t.s);
  ref::Analysis r(t.u, m, &de); ref::compare(d, r); dumpDAG("dag", d);
  // the encoded position of a pre-syllable is that of its place in the text (as for pre-syllables by rule)
  bool place = true, cross = false;
  for (auto& g : ref::segsOf(d)) {
    if (g.n == 2) { bool own = false; for (int k = 0; k < nw; k++) own = own | sameSyl(*g.s[0], Syl(std::string(X[k & 3]))); bool dot = g.to > 1 && t.u[g.to - 1] == u'.';
      if (own) place = place & ((g.s[0]->endPos() == -(100 * g.from + g.to)) | (dot & (g.s[0]->endPos() == -(100 * g.from + g.to - 1)))); }   // (or that before a period joined later)
    if (!g.s[0]->isLiteral()) for (int x = g.from + 1; x < g.to; x++) if (m >> x & 1) { bool dot = x == g.to - 1; if (dot) dot = t.u[x] == u'.'; cross = cross | !dot; }   // (a letter keeps its period)
  }
  SX_CHECK(place, "the position of a pre-syllable is not shifted to the place of the word");
  SX_CHECK(!cross, "a syllable straddles a word boundary");
  sx_reach(r.segs.empty() ? "none" : "some");
}
