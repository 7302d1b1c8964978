// Reference description of the analysis: which syllables the spelling rules license
// at each place of a text, and how they chain.  Written from the rules of Thai
// orthography the program documents; shares no code with the program.
#pragma once
#include "dag.h"
namespace ref {
typedef std::u16string Text;
// character sets as bit masks over the Thai block
struct Set { uint64_t lo, hi; };
constexpr Set mkSet(const char16_t* s) { Set r{0, 0}; for (; *s; s++) { unsigned o = (unsigned)*s - 0xE00; if (o < 64) r.lo |= 1ull << o; else r.hi |= 1ull << (o - 64); } return r; }
constexpr Set rngSet(unsigned a, unsigned b) { Set r{0, 0}; for (unsigned o = a - 0xE00; o <= b - 0xE00; o++) { if (o < 64) r.lo |= 1ull << o; else r.hi |= 1ull << (o - 64); } return r; }
constexpr Set operator|(Set a, Set b) { return Set{a.lo | b.lo, a.hi | b.hi}; }
static inline bool inSet(char16_t c, Set s) {
  unsigned o = (unsigned)c - 0xE00, k = o & 63;
  return (o < 128) & (bool)((sx_select(o < 64, s.lo, s.hi) >> k) & 1);
}
#define IN(c, str) ([](char16_t c_) { constexpr ref::Set s_ = ref::mkSet(str); return ref::inSet(c_, s_); }(c))
constexpr Set CONS = rngSet(0xE01, 0xE23) | rngSet(0xE25, 0xE25) | rngSet(0xE27, 0xE2E), LEAD = rngSet(0xE40, 0xE44), MARK = rngSet(0xE48, 0xE4B);
constexpr Set WORD = CONS | LEAD | MARK | rngSet(0xE24, 0xE24) | rngSet(0xE26, 0xE26) | rngSet(0xE30, 0xE39) | rngSet(0xE45, 0xE45) | rngSet(0xE47, 0xE47) | rngSet(0xE4C, 0xE4C);
static inline bool cons(char16_t c) { return inSet(c, CONS); }
static inline bool lead(char16_t c) { return inSet(c, LEAD); }
static inline bool start(char16_t c) { return inSet(c, CONS | LEAD); }
static inline bool mark(char16_t c) { return inSet(c, MARK); }
static inline bool wordChar(char16_t c) { return inSet(c, WORD); }
static inline bool token(char16_t c) { return wordChar(c) | (c == u'.'); }
//                             ก    ข    ฃ    ค    ฅ    ฆ    ง    จ    ฉ    ช    ซ    ฌ    ญ    ฎ    ฏ    ฐ    ฑ    ฒ    ณ    ด    ต    ถ    ท    ธ    น    บ    ป    ผ    ฝ    พ    ฟ    ภ    ม    ย    ร    ฤ    ล    ฦ    ว    ศ    ษ    ส    ห    ฬ    อ    ฮ
static const char SOUND[] = "kcccccgjJJsJydtTTTndtTTTnbpPfPfPmyr*l*wssshl?h";
static const char CLASS[] = "MHHLLLSMHLLLSMMHLLSMMHLLSMMHHLLLSSS*S*SHHHHSML";
static const char FINAL[] = "kkkkkkgtttttntttttntttttnpppppppm" /*ย*/ "yn*n*w" "ttt_n__";
static_assert(sizeof SOUND == 47 && sizeof CLASS == 47 && sizeof FINAL == 47, "46 consonants");
static inline unsigned ix(char16_t c) { return (unsigned)(c - 0xE01) % 46; }
static inline uint64_t pos_of(const char* t, uint64_t c, int from) { uint64_t r = 0; for (int k = from; t[k]; k++) r = sx_select(c == (unsigned char)t[k], (uint64_t)k, r); return r; }
// numeric codes of a consonant: initial sound (as in IC), class letter, final (as in EC; 0 = none)
static uint8_t sndT[46], finT[46]; static bool ready;
static inline void init() { if (ready) return; for (int k = 0; k < 46; k++) { sndT[k] = (uint8_t)pos_of(IC, (unsigned char)SOUND[k], 0); finT[k] = (uint8_t)pos_of(EC, (unsigned char)FINAL[k], 0); } ready = true; }
static inline uint64_t snd(char16_t c) { return sndT[ix(c)]; }
static inline uint64_t cls(char16_t c) { return (unsigned char)CLASS[ix(c)]; }
static inline uint64_t fin(char16_t c) { return finT[ix(c)]; }
static inline bool shortV(uint64_t v) { bool r = false; for (int k = 0; k < 24; k += 2) r = r | (v == (unsigned char)VW[k]); return r; }
// tone 1..5 of a syllable: class, mark 0..4, live/dead ending, vowel length
static inline uint64_t tone(uint64_t cl, uint64_t mk, bool dead, bool sh) {
  uint64_t low0 = sx_select(dead, sx_select(sh, 4, 3), 1);
  uint64_t low = sx_select(mk == 0, low0, sx_select(mk == 1, 3, sx_select(mk == 2, 4, mk + 1)));
  uint64_t mid = sx_select(mk == 0, sx_select(dead, 2, 1), mk + 1);
  uint64_t high = sx_select(mk == 0, sx_select(dead, 2, 5), mk + 1);
  return sx_select(cl == 'M', mid, sx_select(cl == 'H', high, low));
}
struct RS { uint64_t i, v, e, t; char c; bool lit; };           // one syllable, or the literal text of the segment
static inline RS syl(uint64_t snd, char clus, uint64_t v, uint64_t e, uint64_t tn) { return RS{snd, v, e, tn, clus, false}; }
static inline uint64_t sound(char c) { switch (c) { case 'r': return 16; case 'l': return 17; case '?': return 21; } return 0; }
static_assert(sizeof IC == 23, "");
static const uint64_t KOK = 1, KOT = 2, KOP = 3, NG = 4, N = 5, M = 6, Y = 7, W = 8;

// a way to get from one place to another: one syllable, or a pre-syllable and a syllable, or a literal
// (cfrom, cend: ends of the chain of segments it is part of, if the places between are only passed through)
struct Seg { int from, to; bool linked, toLinked; int n; RS s[2]; int cfrom = -1, cend = -1; };

struct Onset { int end; bool pre; RS preSyl; uint64_t snd, cls; char clus; char v; bool whole; };

struct Word {                       // syllables of the token t[.., stop)
  const Text& t; int stop; std::vector<Seg>& out;
  int from; bool linked;
  Word(const Text& t_, int stop_, std::vector<Seg>& o) : t(t_), stop(stop_), out(o), from(0), linked(false) { init(); }
  bool at(int p, char16_t c) const { return p < stop && t[p] == c; }
  bool isCons(int p) const { return p < stop && cons(t[p]); }
  void add(const Onset& o, uint64_t v, uint64_t e, uint64_t mk, int end, bool toLinked = false) {
    bool sh = shortV(v), dead = sx_select(e == 0, sh, e <= 3);
    Seg g{from, end, linked, toLinked, 0, {}};
    if (o.pre) g.s[g.n++] = o.preSyl;
    g.s[g.n++] = syl(o.snd, o.clus, v, e, tone(o.cls, mk, dead, sh));
    out.push_back(g);
  }
  // ---- silenced letters
  int karan1(int p) const { return isCons(p) && at(p + 1, u'์') ? p + 2 : p; }
  int karanIU(int p) const { return isCons(p) && p + 1 < stop && IN(t[p + 1], u"ิุ") && at(p + 2, u'์') ? p + 3 : p; }
  int karan2(int p) const { int q = karan1(p); if (q == p) q = karanIU(p); if (q == p && isCons(p) && isCons(p + 1) && at(p + 2, u'์')) q = p + 3; return q; }
  // ---- finals
  bool finalAt(int p, Set except) const { return isCons(p) && fin(t[p]) != 0 && !inSet(t[p], except); }
  void simple(const Onset& o, uint64_t v, uint64_t mk, int p, Set except = Set{0, 0}) { if (finalAt(p, except)) add(o, v, fin(t[p]), mk, karan2(p + 1)); }
  void complex(const Onset& o, uint64_t v, uint64_t mk, int p, Set except = Set{0, 0}) {
    if (!finalAt(p, except)) return;
    uint64_t f = fin(t[p]); int k = karan2(p + 1);
    add(o, v, f, mk, k);
    if (k > p + 1 || p + 1 >= stop) return;
    bool link;
    if (cons(t[p + 1])) {                                          // final + consonant
      if (t[p + 1] == u'ร' && IN(t[p], u"กคชตท") && (p + 2 >= stop || start(t[p + 2]))) add(o, v, f, mk, p + 2);   // จักร สมัคร เพชร มิตร สมุทร
      if (p + 2 >= stop) return;
      link = IN(t[p + 2], u"ฤะัาิีุู") | cons(t[p + 2]);
    } else if (IN(t[p + 1], u"ิุ")) {                               // final + i/u
      if (IN(t[p], u"ฒตธร") && (p + 2 >= stop || start(t[p + 2]))) { add(o, v, f, mk, p + 2); if (p + 2 >= stop) return; }  // วุฒิ ชาติ พยาธิ เมรุ
      link = true;
    } else link = IN(t[p + 1], u"ฤะัาีู");
    if (link) add(o, v, f, mk, p, true);                            // the final is read again as the next initial
  }
  // ---- initial consonants
  void onsets(int p, std::vector<Onset>& r) {
    if (!isCons(p)) return;
    char16_t c0 = t[p]; uint64_t s0 = snd(c0), k0 = cls(c0);
    bool has1 = p + 1 < stop, has2 = p + 2 < stop; char16_t c1 = has1 ? t[p + 1] : 0, c2 = has2 ? t[p + 2] : 0;
    RS preA = syl(s0, '_', 'a', 0, tone(k0, 0, true, true)), preO = syl(s0, '_', 'C', 0, tone(k0, 0, false, false)), none{};
    uint64_t R = sound('r');
    auto single = [&](int e, uint64_t s, uint64_t k, char cl, char v, bool whole) { r.push_back(Onset{e, false, none, s, k, cl, v, whole}); };
    auto pre = [&](int e, const RS& ps, uint64_t s, uint64_t k, char v, bool whole) { r.push_back(Onset{e, true, ps, s, k, '_', v, whole}); };
    single(p + 1, s0, k0, '_', 0, false);
    if (has1 && start(c1)) single(p + 1, s0, k0, '_', 'a', true);                    // implicit a
    if (has1 && cons(c1)) {
      bool rohan = c1 == u'ร' && has2 && c2 == u'ร';
      if (!rohan) {
        if (c1 == u'ร') {
          if (!linked && IN(c0, u"จซศส")) single(p + 2, s0, k0, '_', 0, false);       // silent r
          if (IN(c0, u"กตป") || (!linked && IN(c0, u"ขคดทบพฟ"))) single(p + 2, s0, k0, 'r', 0, false);
          if (has2) {
            if (start(c2)) { if (IN(c0, u"กคจทธนบปภมวสหอ")) pre(p + 2, preO, R, 'S', 'a', true); }   // มรดก
            else if (c2 == u'ิ' && c0 == u'บ') pre(p + 3, preO, R, 'S', 'i', true);                   // บริเวณ
            else if (c2 == u'ะ' && c0 == u'จ') pre(p + 3, preO, R, 'S', 'a', true);                   // จระเข้
          }
        }
        if (c0 == u'ห' && cls(c1) == 'S') single(p + 2, snd(c1), 'H', '_', 0, false);  // ho nam
        pre(p + 2, preA, snd(c1), sx_select(cls(c1) == 'S', k0, cls(c1)), 0, false);   // leading consonant
      }
      if (c1 == u'ล' && !linked && IN(c0, u"กขคบปผพฟ")) single(p + 2, s0, k0, 'l', 0, false);
      if (c1 == u'ว' && !linked && IN(c0, u"กขค")) single(p + 2, s0, k0, 'w', 0, false);
      if (c0 == u'บ' && c1 == u'ด' && has2 && IN(c2, u"ิี")) single(p + 1, s0, k0, '_', 'C', true);   // บดี
    } else if (has1 && c1 == u'ฤ' && !(has2 && IN(c2, u"ๅา"))) {
      int e = p + 2;
      if (IN(c0, u"กตทป")) single(e, s0, k0, 'r', 'i', false);                        // อังกฤษ
      else if (IN(c0, u"สศ")) { single(e, s0, k0, '_', 'i', false); pre(e, preA, R, k0, 'i', false); }   // ศฤงคาร สฤษฎ์
      else if (c0 == u'ว') single(e, s0, k0, 'r', 'v', false);
      else if (c0 == u'น') pre(e, preA, R, 'S', 'v', false);
      else if (IN(c0, u"คพ")) { if (has2 && cons(c2) && fin(c2) != 0) single(e, s0, k0, 'r', 'v', false); else pre(e, preA, R, 'S', 'v', true); }
      else {
        if (c0 != u'ห') { single(e, s0, k0, 'r', 'i', false); single(e, s0, k0, 'r', 'v', false); }
        pre(e, preA, R, 'S', 'i', false); pre(e, preA, R, 'S', 'v', false); pre(e, preA, R, 'S', 'v', true);
      }
    }
  }
  // optional tone mark at p: returns its number and moves p
  uint64_t markAt(int& p) const { if (p < stop && mark(t[p])) { uint64_t m = (uint64_t)(t[p] - 0xE47); p++; return m; } return 0; }
  // ---- rimes
  void noLead() {
    std::vector<Onset> os; onsets(from, os);
    for (auto& o : os) {
      int p = o.end; if (p >= stop) continue;
      if (o.whole) { add(o, (unsigned char)o.v, 0, 0, p); continue; }
      if (t[p] == u'ั') { int q = p + 1; uint64_t m = markAt(q); if (q >= stop) continue;
        if (t[q] == u'ว') { bool sh = at(q + 1, u'ะ'); q += sh ? 2 : 1; add(o, sh ? 't' : 'T', 0, m, karan1(q)); }
        else if (m == 0) complex(o, 'a', 0, q); else simple(o, 'a', m, q);
      } else if (IN(t[p], u"ิีึืุู")) upLow(o, p);
      else if (t[p] == u'็') { if (at(p + 1, u'อ')) simple(o, 'c', 0, karan1(p + 2)); }
      else { int q = p; uint64_t m = markAt(q); if (q < stop) after(o, m, q); }
    }
  }
  void upLow(const Onset& o, int p) {                       // vowels above and below
    char16_t c = t[p]; uint64_t v = 'i';
    v = sx_select(c == u'ี', 'I', v); v = sx_select(c == u'ึ', 'v', v); v = sx_select(c == u'ื', 'V', v); v = sx_select(c == u'ุ', 'u', v); v = sx_select(c == u'ู', 'U', v);
    int q = p + 1; uint64_t m = markAt(q);
    bool uee = c == u'ื';
    if (q >= stop || lead(t[q])) { add(o, v, 0, m, q); return; }
    if (uee) { if (t[q] == u'อ') add(o, v, 0, m, karan1(q + 1)); else simple(o, v, m, q); return; }
    int k = karanIU(q);
    if (k != q) { add(o, v, 0, m, k); return; }              // ปรีดิ์
    k = karan1(q); add(o, v, 0, m, k);
    if (k < stop) {
      Set ex = IN(c, u"ิี") ? mkSet(u"ย") : Set{0, 0};
      if (c == u'ึ' || m != 0) simple(o, v, m, k, ex); else complex(o, v, m, k, ex);
    }
  }
  void after(const Onset& o, uint64_t m, int p) {           // vowels after the consonant, or none written
    char16_t c = t[p];
    if (c == u'ะ') add(o, 'a', 0, m, karan1(p + 1));
    else if (c == u'า') { int k = karan1(p + 1); add(o, 'A', 0, m, k); complex(o, 'A', m, k); }
    else if (c == u'ำ') add(o, 'a', M, m, karan1(p + 1));
    else if (c == u'ว') simple(o, 'T', m, p + 1);
    else if (c == u'อ') { int k = karan1(p + 1); add(o, 'C', 0, m, k); simple(o, 'C', m, k); }
    else if (c == u'ร') {
      int k = p + 1;
      if (o.snd != sound('r')) { k = karan1(k); add(o, 'C', N, m, k); }      // พร
      if (at(k, u'ร')) { int e = karan1(k + 1); add(o, 'a', N, m, e); if (e == k + 1) complex(o, 'a', m, e); }   // ธรรม
    } else if (cons(c)) {
      if (o.v) { add(o, (unsigned char)o.v, 0, m, p); complex(o, (unsigned char)o.v, m, p, mkSet(u"ว")); }     // consonant + ru
      else if (!linked && o.clus != 'w') simple(o, 'o', m, p, mkSet(u"ยว"));
    }
  }
  void saraE() {
    std::vector<Onset> os; onsets(from + 1, os);
    for (auto& o : os) if (!o.whole) {
      int p = o.end; bool glot = o.pre && o.snd == sound('?');      // a glottal after a pre-syllable is the vowel letter
      if (p >= stop) { if (!glot) add(o, 'E', 0, 0, p); continue; }
      char16_t c = t[p];
      if (c == u'ิ') { int q = p + 1; if (q >= stop) continue; uint64_t m = markAt(q); simple(o, 'W', m, karan1(q)); }
      else if (c == u'ี' || c == u'ื') { bool ia = c == u'ี';
        int q = p + 1; uint64_t m = markAt(q); if (!at(q, ia ? u'ย' : u'อ')) continue; q++;
        bool sh = at(q, u'ะ'); if (sh) q++;
        q = karan1(q); add(o, ia ? (sh ? 'y' : 'Y') : (sh ? 'z' : 'Z'), 0, m, q);
        if (!sh) { if (ia) complex(o, 'Y', m, q); else simple(o, 'Z', m, q); }
      } else if (c == u'็') simple(o, 'e', 0, p + 1);
      else {
        int q = p; uint64_t m = markAt(q);
        if (q >= stop) { add(o, 'E', 0, m, q); continue; }
        c = t[q];
        if (c == u'อ') { if (!glot) add(o, 'E', 0, m, karan1(q)); bool sh = at(q + 1, u'ะ'); add(o, sh ? 'w' : 'W', 0, m, karan1(q + (sh ? 2 : 1))); }
        else if (c == u'ะ') { if (!glot) add(o, 'e', 0, m, karan1(q + 1)); }
        else if (c == u'า') { if (at(q + 1, u'ะ')) add(o, 'c', 0, m, karan1(q + 2)); else add(o, 'a', W, m, karan1(q + 1)); }
        else if (c == u'ย' && (q + 1 >= stop || start(t[q + 1]))) add(o, 'W', Y, m, karan1(q + 1));
        else if (!glot) { int k = karan1(q); add(o, 'E', 0, m, k); complex(o, 'E', m, k); }
      }
    }
  }
  void otherLead() {
    std::vector<Onset> os; onsets(from + 1, os); char16_t l = t[from];
    for (auto& o : os) if (!o.whole) {
      int p = o.end; uint64_t m = markAt(p);
      if (l == u'แ') {
        if (at(p, u'ะ')) add(o, 'x', 0, m, karan1(p + 1));
        else if (at(p, u'็')) simple(o, 'x', m, p + 1);
        else { int k = karan1(p); add(o, 'X', 0, m, k); simple(o, 'X', m, k); }
      } else if (l == u'โ') {
        bool sh = at(p, u'ะ'); if (sh) p++;
        uint64_t v = sh ? 'o' : 'O'; int k = karanIU(p);
        if (k != p) { add(o, v, 0, m, k); continue; }               // โพธิ์
        k = karan1(p); add(o, v, 0, m, k); if (!sh) complex(o, v, m, k);
      } else {
        if (l == u'ไ' && at(p, u'ย') && (p + 1 >= stop || start(t[p + 1]))) add(o, 'a', Y, m, p + 1);   // ไทย
        add(o, 'a', Y, m, karan1(p));
      }
    }
  }
  void ruLu() {
    Onset o{from + 1, false, RS{}, sx_select(t[from] == u'ฦ', sound('l'), sound('r')), 'S', '_', 0, false};
    int p = from + 1;
    if (p >= stop) add(o, 'v', 0, 0, p);
    else if (IN(t[p], u"ๅา")) add(o, 'V', 0, 0, p + 1);
    else if (cons(t[p])) {
      if (fin(t[p]) == 0 || (p + 1 < stop && !start(t[p + 1]))) add(o, 'v', 0, 0, p);
      else if (IN(t[p], u"ณทษ")) complex(o, 'i', 0, p); else complex(o, 'v', 0, p);
    }
  }
  void run(int pos, bool l) {
    from = pos; linked = l; char16_t c = t[pos];
    if (cons(c)) noLead(); else if (c == u'เ') { if (pos + 1 < stop) saraE(); } else if (lead(c)) { if (pos + 1 < stop) otherLead(); } else if (IN(c, u"ฤฦ")) ruLu();
  }
};

struct DictEntry { Text key; std::vector<std::vector<Seg>> alts; };   // alternatives: chains from 0 to the key's length

// All segments of the analysis that lie on a way from the start to the end of the text.
struct Analysis {
  const Text& t; unsigned long brk; const std::vector<DictEntry>* dict; std::vector<Seg> segs;
  Analysis(const Text& t_, unsigned long mask = 0, const std::vector<DictEntry>* d = nullptr) : t(t_), brk(mask), dict(d) {
    int n = (int)t.size(); init();
    std::vector<char> isTok(n); for (int k = 0; k < n; k++) isTok[k] = token(t[k]) ? 1 : 0;
    std::vector<char> reach(2 * (n + 1)); reach[0] = 1; std::vector<Seg> all; int stop = -1;
    for (int p = 0; p < n; p++) for (int l = 0; l < 2; l++) if (reach[2 * p + l]) {
      size_t first = all.size();
      if (!isTok[p]) { int e = p; while (e < n && !isTok[e]) e++; Seg g{p, e, l != 0, false, 1, {}}; g.s[0].lit = true; all.push_back(g); }
      else {
        if (p >= stop) { stop = p; while (stop < n && isTok[stop] && (stop == p || !(brk >> stop & 1))) stop++; }
        step(p, l != 0, stop, all);
      }
      for (size_t k = first; k < all.size(); k++) { Seg& g = all[k];
        if (g.cend < 0) { g.cfrom = g.from; g.cend = g.to; }
        if (!g.toLinked && g.cend < n && t[g.cend] == u'.' && t[g.cend - 1] != u'.' && t[g.cend - 1] != u' ') { if (g.to == g.cend) g.to++; g.cend++; }     // a period belongs to what it follows
        reach[2 * g.cend + g.toLinked] = 1;
      }
    }
    // keep what leads to the end
    std::vector<char> live(2 * (n + 1)); live[2 * n] = 1;
    for (int again = 1; again;) { again = 0; for (size_t k = all.size(); k--;) { Seg& g = all[k]; char& x = live[2 * g.cfrom + g.linked]; if (live[2 * g.cend + g.toLinked] && !x) { x = 1; again = 1; } } }
    for (auto& g : all) if (live[2 * g.cend + g.toLinked]) segs.push_back(g);
  }
  void step(int p, bool l, int stop, std::vector<Seg>& out) {
    bool any = false;
    if (dict) for (auto& d : *dict) {
      int e = p + (int)d.key.size(); if (e > stop) continue;
      bool m = true; for (size_t k = 0; k < d.key.size(); k++) m = m & (t[p + k] == d.key[k]);
      if (!m || !(e == stop || start(t[e]))) continue;
      any = true;
      for (auto& a : d.alts) for (auto g : a) { g.linked = l; g.cfrom = p; g.cend = e; g.from += p; g.to += p; g.toLinked = false; out.push_back(g); }
    }
    if (any) return;
    if (p == 0 || t[p - 1] == u' ' || t[p - 1] == u'.') {        // abbreviations
      int e = p; while (e < stop && cons(t[e])) e++;
      int k = e - p; bool dot = e < stop && t[e] == u'.';
      if ((dot && k <= 4) || (e == stop && k == 1)) {
        for (int q = p; q < e; q++) { int to = q + 1 == e && dot ? e + 1 : q + 1;
          Seg g{q, to, l, false, 1, {}}; g.cfrom = p; g.cend = dot ? e + 1 : e; g.s[0] = syl(snd(t[q]), '_', 'C', 0, sx_select(cls(t[q]) == 'H', 5, 1)); out.push_back(g); }
        if (k == 0) { Seg g{p, p + 1, l, false, 1, {}}; g.s[0].lit = true; out.push_back(g); }
        return;
      }
    }
    Word w(t, stop, out); w.run(p, l);
  }
};

// Segments of a graph built by the program: chains through pre-syllable nodes joined.
struct GSeg { int from, to, n; const Syl* s[8]; };
struct GE { int f, t; const Syl* s; };
static inline void chase(const std::vector<GE>& es, int node, GSeg g, std::vector<GSeg>& out) {
  for (auto& e : es) if (e.f == node) { g.s[g.n] = e.s; g.to = e.t; if (e.t < 0 && g.n < 7) { g.n++; chase(es, e.t, g, out); g.n--; } else { GSeg h = g; h.n++; out.push_back(h); } }
}
static inline std::vector<GSeg> segsOf(const PronunDAG& d) {
  std::vector<GE> es; for (auto it = d.outBegin(); it != d.outEnd(); ++it) es.push_back(GE{it->first, it->second.target, &it->second.edgeVal});
  std::vector<GSeg> r; std::vector<int> seen;
  for (auto& e : es) if (e.f >= 0) { bool k = false; for (int x : seen) k |= x == e.f; if (!k) { seen.push_back(e.f); chase(es, e.f, GSeg{e.f, 0, 0, {}}, r); } }
  return r;
}
static inline bool same(const RS& a, const Syl& b, const Text& t, const Seg& g) {
  if (b.isLiteral() || a.lit) {
    if (!b.isLiteral() || !a.lit) return false;
    std::u16string x = b.literal(); if ((int)x.size() != g.to - g.from) return false;
    bool r = true; for (size_t i = 0; i < x.size(); i++) r = r & (x[i] == t[g.from + i]); return r;
  }
  return ((uint64_t)b.iCons1() == a.i) & ((char)b.iCons2() == a.c) & ((uint64_t)b.vowel() == a.v) & ((uint64_t)b.eCons() == a.e) & ((uint64_t)b.tone() == a.t);
}
static inline bool same(const Seg& a, const GSeg& b, const Text& t) { bool r = true; for (int k = 0; k < a.n; k++) r = r & same(a.s[k], *b.s[k], t, a); return r; }
static inline bool fits(const Seg& a, const GSeg& b) { return a.from == b.from && a.to == b.to && a.n == b.n; }
static inline void compare(const PronunDAG& d, const Analysis& a) {
  auto got = segsOf(d); bool miss = true, extra = true;
  std::vector<uint64_t> ok(got.size());
  for (auto& g : a.segs) { uint64_t h = 0; for (size_t k = 0; k < got.size(); k++) if (fits(g, got[k])) { uint64_t s = same(g, got[k], a.t); h |= s; ok[k] |= s; } miss = miss & (h != 0); }
  for (size_t k = 0; k < got.size(); k++) extra = extra & (ok[k] != 0);
  SX_CHECK(miss, "a licensed reading is missing");
  SX_CHECK(extra, "a reading is not licensed");
}
}
