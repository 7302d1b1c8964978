// Regularly spelled syllables: every written vowel form with a symbolic initial, tone mark and final.
#pragma once
#include "text.h"
// Form: text before the initial, text after it ('T' = place of the tone mark, 'F' = final, 'f' = final by itself
// part of the form), vowel, built-in final, whether a tone mark can be written
struct Form { const char16_t* pre; const char16_t* post; char v; uint64_t e; const char16_t* notF; };
static const Form FORMS[] = {
  // open syllables
  {u"", u"Tะ", 'a', 0, u""}, {u"", u"Tา", 'A', 0, u""}, {u"", u"ิT", 'i', 0, u""}, {u"", u"ีT", 'I', 0, u""}, {u"", u"ึT", 'v', 0, u""}, {u"", u"ืTอ", 'V', 0, u""},
  {u"", u"ุT", 'u', 0, u""}, {u"", u"ูT", 'U', 0, u""}, {u"เ", u"Tะ", 'e', 0, u""}, {u"เ", u"T", 'E', 0, u""}, {u"แ", u"Tะ", 'x', 0, u""}, {u"แ", u"T", 'X', 0, u""},
  {u"โ", u"Tะ", 'o', 0, u""}, {u"โ", u"T", 'O', 0, u""}, {u"เ", u"Tาะ", 'c', 0, u""}, {u"", u"Tอ", 'C', 0, u""}, {u"เ", u"ีTยะ", 'y', 0, u""}, {u"เ", u"ีTย", 'Y', 0, u""},
  {u"เ", u"ืTอะ", 'z', 0, u""}, {u"เ", u"ืTอ", 'Z', 0, u""}, {u"", u"ัTวะ", 't', 0, u""}, {u"", u"ัTว", 'T', 0, u""}, {u"เ", u"Tอะ", 'w', 0, u""}, {u"เ", u"Tอ", 'W', 0, u""},
  // with a built-in final
  {u"", u"Tำ", 'a', ref::M, u""}, {u"ไ", u"T", 'a', ref::Y, u""}, {u"ใ", u"T", 'a', ref::Y, u""}, {u"เ", u"Tา", 'a', ref::W, u""}, {u"", u"รร", 'a', ref::N, u""}, {u"เ", u"Tย", 'W', ref::Y, u""},
  // with a written final
  {u"", u"ัTF", 'a', 0, u"ว"}, {u"", u"TาF", 'A', 0, u""}, {u"", u"ิTF", 'i', 0, u"ย"}, {u"", u"ีTF", 'I', 0, u"ย"}, {u"", u"ึTF", 'v', 0, u""}, {u"", u"ืTF", 'V', 0, u""},
  {u"", u"ุTF", 'u', 0, u""}, {u"", u"ูTF", 'U', 0, u""}, {u"เ", u"็F", 'e', 0, u""}, {u"เ", u"TF", 'E', 0, u"ย"}, {u"แ", u"็F", 'x', 0, u""}, {u"แ", u"TF", 'X', 0, u""},
  {u"", u"TF", 'o', 0, u"ยวร"}, {u"โ", u"TF", 'O', 0, u""}, {u"", u"็อF", 'c', 0, u""}, {u"", u"TอF", 'C', 0, u""}, {u"เ", u"ีTยF", 'Y', 0, u""}, {u"เ", u"ืTอF", 'Z', 0, u""},
  {u"", u"TวF", 'T', 0, u""}, {u"เ", u"ิTF", 'W', 0, u""}, {u"", u"รรF", 'a', 0, u""},
};
static const int NFORMS = sizeof FORMS / sizeof *FORMS;
struct RegSyl { Txt t; uint64_t i, v, e, tn; char c; int kind; char16_t F; bool hasF; };
static inline bool hasT(const Form& f) { for (const char16_t* p = f.post; *p; p++) if (*p == u'T') return true; return false; }
// kinds of initial: 0 single consonant, 1 ho nam, 2 true cluster
static inline RegSyl regSyl(const Form& f, int kind, bool toned, const char* id) {
  RegSyl r; ref::init(); std::string b(id); uint64_t cl; Txt ini; r.kind = kind; r.hasF = false; r.F = 0;
  char16_t c0 = (char16_t)(0xE00 + sx_sym((b + "c0").c_str(), 7)); SX_ASSUME(ref::cons(c0));
  r.i = ref::snd(c0); cl = ref::cls(c0); r.c = '_'; ini.add(c0);
  if (kind == 1) { SX_ASSUME(c0 == u'ห'); char16_t c1 = (char16_t)(0xE00 + sx_sym((b + "c1").c_str(), 7)); SX_ASSUME(IN(c1, u"งญนมยรลว")); ini.add(c1); r.i = ref::snd(c1); cl = 'H'; }
  if (kind >= 2) {
    char16_t c1 = kind == 2 ? u'ร' : kind == 3 ? u'ล' : u'ว'; r.c = kind == 2 ? 'r' : kind == 3 ? 'l' : 'w';
    SX_ASSUME(kind == 2 ? IN(c0, u"กขคตปพ") : kind == 3 ? IN(c0, u"กขคปผพ") : IN(c0, u"กขค")); ini.add(c1);
  }
  uint64_t mk = 0; r.v = (unsigned char)f.v; r.e = f.e; char16_t mc = 0;
  if (toned) { mk = sx_range((b + "mark").c_str(), 8, 1, 4); mc = (char16_t)(0xE47 + mk); }
  for (const char16_t* p = f.pre; *p; p++) r.t.add(*p);
  for (char16_t c : ini.u) r.t.add(c);
  for (const char16_t* p = f.post; *p; p++) {
    if (*p == u'T') { if (toned) r.t.add(mc); }
    else if (*p == u'F') {
      char16_t F = (char16_t)(0xE00 + sx_sym((b + "F").c_str(), 7)); SX_ASSUME(ref::cons(F)); SX_ASSUME(ref::fin(F) != 0);
      for (const char16_t* q = f.notF; *q; q++) SX_ASSUME(F != *q);
      r.e = ref::fin(F); r.F = F; r.hasF = true; r.t.add(F);
    } else r.t.add(*p);
  }
  bool sh = ref::shortV(r.v), dead = sx_select(r.e == 0, sh, r.e <= 3);
  r.tn = ref::tone(cl, mk, dead, sh);
  return r;
}
static inline bool reads(const PronunDAG& d, int from, int to, const RegSyl& r) {
  bool h = false;
  for (auto& e : edgesOf(d)) if (e.f == from && e.t == to && !e.s.isLiteral())
    h = h | (((uint64_t)e.s.iCons1() == r.i) & ((char)e.s.iCons2() == r.c) & ((uint64_t)e.s.vowel() == r.v) & ((uint64_t)e.s.eCons() == r.e) & ((uint64_t)e.s.tone() == r.tn));
  return h;
}
