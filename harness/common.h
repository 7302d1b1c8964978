// Symbolic syllables and characters shared by the harnesses.
#pragma once
#include "sx.h"
#include <string>
#include <list>
#include <vector>
#include "sylstring/syl.h"
#include "sylstring/sylstring.h"

// Component codes in the program's documented raw notation
static const char IC[] = "*kcgjJydtTnbpPfmrlwsh?";      // index = initial sound
static const char SC[] = "_rlw";
static const char VW[] = "aAiIvVuUeExXyYzZtToOcCwW";    // short/long pairs
static const char EC[] = "_ktpgnmyw";                    // index = final class
struct C5 { uint64_t i, s, v, e, t; };                   // component numbers: 1..21, 0..3, 0..23, 0..8, 1..5

static inline std::string nm(const char* b, int k) { return std::string(b) + char('0' + k / 10) + char('0' + k % 10); }
static inline C5 symC5(int k) {
  C5 c;
  c.i = sx_range(nm("i", k).c_str(), 8, 1, 21); c.s = sx_range(nm("s", k).c_str(), 8, 0, 3); c.v = sx_range(nm("v", k).c_str(), 8, 0, 23);
  c.e = sx_range(nm("e", k).c_str(), 8, 0, 8); c.t = sx_range(nm("t", k).c_str(), 8, 1, 5);
  return c;
}
static inline Syl sylOf(const C5& c, int endPos = -1) {
  return Syl((EInitConsSound)c.i, (ESecInitCons)SC[c.s], (EVowel)VW[c.v], (EEndConsClass)c.e, (ETone)c.t, endPos);
}
static inline bool sameC5(const C5& a, const C5& b) { return (a.i == b.i) & (a.s == b.s) & (a.v == b.v) & (a.e == b.e) & (a.t == b.t); }
// exact identity of two syllables, component-wise and branch-free
static inline bool sameComp(const Syl& a, const Syl& b) {
  return (a.iCons1() == b.iCons1()) & (a.iCons2() == b.iCons2()) & (a.vowel() == b.vowel()) & (a.eCons() == b.eCons()) & (a.tone() == b.tone());
}
static inline bool sameLit(const Syl& a, const Syl& b) {
  std::u16string x = a.literal(), y = b.literal(); if (x.size() != y.size()) return false;
  bool r = true; for (size_t i = 0; i < x.size(); i++) r = r & (x[i] == y[i]); return r;
}
static inline bool sameSyl(const Syl& a, const Syl& b) { return sameComp(a, b) & sameLit(a, b); }
static inline bool sameStr(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r;
}
// UTF-8 of a BMP/astral code point
static inline void utf8(std::string& o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static inline std::string utf8s(const std::u16string& s) { std::string o; for (char16_t c : s) utf8(o, c); return o; }
