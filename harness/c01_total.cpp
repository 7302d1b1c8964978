// C01/C02: analysis of arbitrary text; with COVER the shape of the result is checked.
#include "text.h"
#ifndef L
#define L 3
#endif
static void cover(const PronunDAG& d, const std::u16string& u) {
  auto e = edgesOf(d); int n = (int)u.size();
  if (e.empty()) { sx_reach("none"); return; }
  bool shape = true, ends = true, comp = true, lits = true, start = false, fin = false;
  for (auto& x : e) {
    shape &= x.f != x.t && x.f <= n && x.t <= n && (x.f < 0 || x.t < 0 || x.f < x.t) && !(x.f < 0 && x.t < 0);
    ends &= x.s.endPos() == x.t;
    start |= x.f == 0; fin |= x.t == n;
    bool in = x.f == 0, out = x.t == n;
    int before = x.f, after = x.t;                     // positions around a pre-syllable node
    for (auto& y : e) { in |= y.t == x.f; out |= y.f == x.t; if (x.f < 0 && y.t == x.f) before = y.f; if (x.t < 0 && y.f == x.t) after = y.t; }
    shape &= in && out && before >= 0 && after > before;
    if (x.s.isLiteral()) {
      std::u16string l = x.s.literal(); bool w = x.f >= 0 && x.t > x.f && (int)l.size() == x.t - x.f;
      if (w) for (int k = 0; k < (int)l.size(); k++) w = w & (l[k] == u[x.f + k]);
      lits = lits & w;
    } else {
      uint64_t i = (uint64_t)x.s.iCons1(), v = (uint64_t)x.s.vowel(), c = (uint64_t)x.s.iCons2(), f = (uint64_t)x.s.eCons(), t = (uint64_t)x.s.tone();
      bool vo = false, cl = false; for (int k = 0; k < 24; k++) vo = vo | (v == (unsigned char)VW[k]); for (int k = 0; k < 4; k++) cl = cl | (c == (unsigned char)SC[k]);
      comp = comp & (i >= 1) & (i <= 21) & vo & cl & (f <= 8) & (t >= 1) & (t <= 5);
    }
  }
  SX_CHECK(start && fin, "no reading covers the input from start to end");
  SX_CHECK(shape, "a syllable is not on a gapless way from the start to the end");
  SX_CHECK(ends, "a syllable does not record its own end position");
  SX_CHECK(lits, "a literal is not the chunk of the input it covers");
  SX_CHECK(comp, "a syllable has an invalid component");
  sx_reach("some");
}
extern "C" void sx_main() {
  Txt t;
#ifdef BYTES
  int n = sx_choose("n", BYTES + 1);
  for (int k = 0; k < n; k++) t.s += (char)sx_sym(nm("b", k).c_str(), 8);
#elif defined(LONG)
  // a long word of one repeated syllable; the number of readings may double with every repetition
  int shape = sx_choose("shape", 5); char16_t c = symCons("c"), v = (char16_t)(0xE00 + sx_sym("v", 7)), e = symCons("e"); SX_ASSUME(IN(v, u"าิุะีู") & IN(e, u"กนรว"));
  for (int k = 0; k < LONG; k++) { if (shape == 3) t.add(u'เ'); t.add(c); if (shape == 0 || shape == 1) t.add(v); if (shape == 1 || shape == 2) t.add(e); if (shape == 4) t.add(u' '); }
#else
  int n = 1 + sx_choose("n", L);
  for (int k = 0; k < n; k++) {
#ifdef WIDE
    uint32_t c = (uint32_t)sx_sym(nm("c", k).c_str(), 21); SX_ASSUME((c < 0x110000) & ((c < 0xD800) | (c > 0xDFFF)));
    if (c > 0xFFFF) { utf8(t.s, c); t.u += (char16_t)(0xD7C0 + (c >> 10)); t.u += (char16_t)(0xDC00 + (c & 0x3FF)); } else t.add((char16_t)c);
#else
    t.add(symAny(nm("c", k).c_str()));
#endif
  }
#endif
  bool brk = false;
#ifdef BREAKS
  brk = true; sx_brk_on = 1; sx_brk_mask = sx_conc(sx_range("breaks", 8, 0, (1u << t.u.size()) - 1) & ~1ull);
#endif
  Parser p(brk);
#ifdef DICT
  sx_file_put(sx_path("d.dic"), dictFile({{u"กา", "k_A_0@2;g_A_0@2"}, {u"กาน", "k_A_0@-3,n_ak4@3"}, {u"า", "?_A_0@1"}, {u".", "c_ut4@1"}}));
  p.loadExceptDict(sx_path("d.dic").c_str());
#endif
  PronunDAG d = p.parseWord(t.s);
  sx_dump("n", edgesOf(d).size());
#ifdef COVER
  cover(d, t.u);
#endif
  sx_reach("end");
}
