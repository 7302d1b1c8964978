// Symbolic texts and analysis results shared by the analysis harnesses.
#pragma once
#include "ref.h"
#include "parser/parser.h"
struct Txt { std::string s; std::u16string u; void add(char16_t c) { utf8(s, c); u += c; } };
// any character of the Thai block or ASCII
static inline char16_t symAny(const char* n) { uint64_t v = sx_sym(n, 8); return (char16_t)sx_select(v < 128, 0xE00 + v, v - 128); }
static inline char16_t symWord(const char* n) { char16_t c = (char16_t)(0xE00 + sx_sym(n, 7)); SX_ASSUME(ref::wordChar(c)); return c; }
#ifdef ALPHA
// one of a few letters
static inline char16_t symLetter(const char* n) { uint64_t v = sx_sym(n, 8); char16_t c = (char16_t)sx_select(v < 128, 0xE00 + v, v - 128); bool h = false; for (const char16_t* p = ALPHA; *p; p++) h = h | (c == *p); SX_ASSUME(h); return c; }
#else
static inline char16_t symLetter(const char* n) { return symWord(n); }
#endif
static inline char16_t symCons(const char* n) { char16_t c = (char16_t)(0xE00 + sx_sym(n, 7)); SX_ASSUME(ref::cons(c)); return c; }
// a dictionary file with the given words (data = raw codes)
struct DW { std::u16string key; const char* data; };
static inline std::string dictFile(const std::vector<DW>& w) {
  std::string bank; std::vector<SxEntry> e;
  for (auto& x : w) { e.push_back(SxEntry{x.key, (int)bank.size()}); bank += x.data; bank += '\0'; }
  std::string f = sx_trie_bytes(e.data(), (int)e.size());
  for (int i = 3; i >= 0; i--) f += (char)(bank.size() >> (8 * i));
  return f + bank;
}
// results as segments (pre-syllable nodes are internal), positions shifted
static inline bool sameSeg(const ref::GSeg& a, const ref::GSeg& b, int shift) {
  if (a.from + shift != b.from || a.to + shift != b.to || a.n != b.n) return false;
  bool r = true; for (int k = 0; k < a.n; k++) r = r & sameSyl(*a.s[k], *b.s[k]); return r;
}
static inline bool segsIn(const std::vector<ref::GSeg>& a, const std::vector<ref::GSeg>& b, int shift) {
  bool r = true; for (auto& x : a) { bool h = false; for (auto& y : b) h = h | sameSeg(x, y, shift); r = r & h; } return r;
}
static inline bool sameResult(const PronunDAG& a, const PronunDAG& b) { auto x = ref::segsOf(a), y = ref::segsOf(b); return segsIn(x, y, 0) & segsIn(y, x, 0); }
// Word patterns: C any consonant, * any word character, U vowel above or below, V vowel after or above/below,
// T tone mark, L leading vowel but เ, k and K one of a few consonants; other characters stand for themselves,
// and a slash marks a word boundary.
#ifdef TPLS
static const char16_t* const TPL[] = {TPLS};
static bool tplFits(char16_t c, char16_t p) {
  switch (p) {
    case u'C': return ref::cons(c);
    case u'*': return ref::wordChar(c);
    case u'U': return IN(c, u"ัิีึืุู");
    case u'V': return IN(c, u"ะาำัิีึืุู");
    case u'T': return ref::mark(c);
    case u'L': return IN(c, u"แโไใ");
    case u'k': return IN(c, u"กตนรอ");
    case u'K': return IN(c, u"กคตทสหรวยอ");
  }
  return c == p;
}
static inline char16_t symTpl(const char* n, char16_t p) {
  if (p >= 0xE00 || p == u' ' || p == u'.') return p;
  char16_t c = (char16_t)(0xE00 + sx_sym(n, 7)); SX_ASSUME(tplFits(c, p)); return c;
}
static inline const char16_t* pickTpl(const char* n) { return TPL[sx_choose(n, sizeof TPL / sizeof *TPL)]; }
#endif
