// C17: Thai respelling reads back to the same sound.
#include "common.h"
#include "output/sylout-thai.h"
// live: +2 = high+low consonant pair; the respelling of the initial per sound: {high form, low form} or {mid, ""}
static const char* HI[] = {"", u8"ก", u8"ข", u8"หฺง", u8"จ", u8"ฉ", u8"หฺย", u8"ด", u8"ต", u8"ถ", u8"หฺน", u8"บ", u8"ป", u8"ผ", u8"ฝ", u8"หฺม", u8"หฺร", u8"หฺล", u8"หฺว", u8"ส", u8"ห", u8"อ"};
static const char* LO[] = {"", u8"ก", u8"ค", u8"ง", u8"จ", u8"ช", u8"ย", u8"ด", u8"ต", u8"ท", u8"น", u8"บ", u8"ป", u8"พ", u8"ฟ", u8"ม", u8"ร", u8"ล", u8"ว", u8"ซ", u8"ฮ", u8"อ"};
static const char* S2[] = {"", u8"ฺร", u8"ฺล", u8"ฺว"};
static const char* FE[] = {"", u8"ก", u8"ด", u8"บ", u8"ง", u8"น", u8"ม", u8"ย", u8"ว"};
static const char* MARK[] = {"", u8"่", u8"้", u8"๊", u8"๋"};
// Reading rules: tone (0..4) of class c (0 mid, 1 high, 2 low), mark m (0..4), dead?, short?
static int readTone(int c, int m, bool dead, bool shrt) {
  if (c == 0) return m ? m : dead ? 1 : 0;
  if (c == 1) return m == 1 ? 1 : m == 2 ? 2 : m == 0 ? (dead ? 1 : 4) : m;      // 3, 4: read as marked
  if (m == 1) return 2;
  if (m == 2) return 3;
  if (m == 0) return dead ? (shrt ? 3 : 2) : 0;
  return m;
}
static bool isMid(uint64_t i) { return (i == 1) | (i == 4) | (i == 7) | (i == 8) | (i == 11) | (i == 12) | (i == 21); }
extern "C" void sx_main() {
  ThaiSylOutput o;
  C5 a = symC5(1);
  SX_ASSUME((a.i != 21) | (a.s == 0));
  int v = (int)sx_conc(a.v), t = (int)sx_conc(a.t) - 1;
  uint64_t e = sx_conc(a.e);
  bool shrt = !(v & 1);
  int q = v >> 1;                                        // vowel quality
  if (e != 0 && (q == 6 || q == 7 || q == 11)) shrt = false;   // ia, uea, oe with a final: long forms only
  bool dead = (e >= 1 && e <= 3) || (e == 0 && shrt);
  if (dead && t == 0) sx_prune();                        // no mid tone on dead syllables
  bool mid = isMid(a.i); 
  std::string p = o.output(sylOf(a, (int)sx_sym("pos", 32)));
  sx_dump_str("out", p);
  // which (class, mark) combinations are read with tone t
  bool found = false;
  int classes[2], nc = 0;
  if (mid) { sx_reach("mid"); classes[nc++] = 0; } else { sx_reach("highlow"); classes[nc++] = 1; classes[nc++] = 2; }
  for (int x = 0; x < nc; x++) for (int m = 0; m < 5; m++) {
    int c = classes[x];
    if (readTone(c, m, dead, shrt) != t) continue;
    if (c == 1 && m > 2) continue;                       // never written
    std::string in = std::string(c == 1 ? HI[a.i] : LO[a.i]) + S2[a.s], mk = MARK[m], w, fe = FE[e];
    bool un = m == 0;                                    // shortening mark only where no tone mark stands
    std::string mt = un ? std::string(u8"็") : mk;
    switch (q) {
    case 0: w = shrt ? (e == 0 ? in + mk + u8"ะ" : e == 8 ? std::string(u8"เ") + in + mk + u8"า" : in + u8"ั" + mk + fe) : in + mk + u8"า" + fe; break;
    case 1: w = in + (shrt ? u8"ิ" : u8"ี") + mk + fe; break;
    case 2: w = shrt ? in + u8"ึ" + mk + fe : in + u8"ื" + mk + (e == 0 ? std::string(u8"อ") : fe); break;
    case 3: w = in + (shrt ? u8"ุ" : u8"ู") + mk + fe; break;
    case 4: case 5: { std::string l = q == 4 ? u8"เ" : u8"แ"; w = !shrt ? l + in + mk + fe : e == 0 ? l + in + mk + u8"ะ" : l + in + mt + fe; break; }
    case 6: w = std::string(u8"เ") + in + u8"ี" + mk + u8"ย" + (shrt ? std::string(u8"ะ") : fe); break;
    case 7: w = std::string(u8"เ") + in + u8"ื" + mk + u8"อ" + (shrt ? std::string(u8"ะ") : fe); break;
    case 8: w = e == 0 ? in + u8"ั" + mk + u8"ว" + (shrt ? u8"ะ" : "") : in + (shrt ? mt : mk) + u8"ว" + fe; break;
    case 9: w = !shrt ? std::string(u8"โ") + in + mk + fe : e == 0 ? std::string(u8"โ") + in + mk + u8"ะ" : in + mk + fe; break;
    case 10: w = shrt ? (e == 0 ? std::string(u8"เ") + in + mk + u8"าะ" : in + mt + u8"อ" + fe) : in + mk + u8"อ" + fe; break;
    case 11: w = e == 0 ? std::string(u8"เ") + in + mk + u8"อ" + (shrt ? u8"ะ" : "") : e == 7 ? std::string(u8"เ") + in + mk + u8"ย" : std::string(u8"เ") + in + u8"ิ" + mk + fe; break;
    }
    found = found | sameStr(p, w);
  }
  SX_CHECK(found, "Thai respelling does not denote the syllable's sound and tone");
}
