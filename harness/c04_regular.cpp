// C04: regularly spelled syllables; C07 (KARAN): with a silenced letter after them.
#include "syl.h"
extern "C" void sx_main() {
  const Form& f = FORMS[sx_choose("form", NFORMS)]; int kind = sx_choose("initial", 5); bool toned = sx_choose("toned", 2);
  if (toned && !hasT(f)) sx_prune();
  RegSyl r = regSyl(f, kind, toned, "");
  if (kind == 4 && f.v == 'o' && !f.pre[0] && f.notF[0]) sx_prune();      // (กวก spells the vowel ua)
  if (f.post[0] == u'ร') { if (kind == 2) sx_prune(); if (kind == 1) SX_ASSUME(r.t.u[1] != u'ร'); }      // no ro han after an r
  for (size_t k = 1; k < r.t.u.size(); k++) if (f.post[0] != u'ร') SX_ASSUME((r.t.u[k] != u'ร') | (r.t.u[k - 1] != u'ร'));   // (รร is ro han)
  Parser p(false); int n = (int)r.t.u.size();
#ifdef KARAN
  PronunDAG d0 = p.parseWord(r.t.s);
  char16_t x = symCons("x"); SX_ASSUME((x != u'ร') | (r.t.u.back() != u'ร'));       // (รร is ro han)
  Txt t = r.t; t.add(x); t.add(u'์');
  PronunDAG d = p.parseWord(t.s);
  bool was = reads(d0, 0, n, r), is = reads(d, 0, n + 2, r);
  sx_dump("was", was); sx_dump("is", is);
  SX_CHECK(!was | is, "a silenced letter removes or changes the reading before it");
  sx_reach(toned ? "toned" : "plain");
#else
  PronunDAG d = p.parseWord(r.t.s);
  bool ok = reads(d, 0, n, r); sx_dump("reads", ok);
  SX_CHECK(ok, "a regularly spelled syllable does not have its regular reading");
  sx_reach(toned ? "toned" : "plain"); if (kind) sx_reach("cluster");
#endif
}
