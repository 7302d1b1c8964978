// C19: JSON output is well-formed and decodes to the syllables.
#include "graph.h"
#include "output/sylout-raw.h"
#include "output/sylout-roman.h"
#include "output/output-json.h"
#include "output/output-gjson.h"
#include <memory>
#ifndef N
#define N 3
#endif
#ifndef K
#define K 3
#endif
// A strict JSON reader for nested arrays of strings
struct J { bool str; std::string s; std::vector<J> a; };
struct Rd {
  const std::string& t; size_t p; bool ok;
  Rd(const std::string& t) : t(t), p(0), ok(true) {}
  unsigned char at() { return p < t.size() ? (unsigned char)t[p] : 0; }
  void ws() { while (p < t.size() && (at() == ' ' || at() == '\n' || at() == '\t' || at() == '\r')) p++; }
  unsigned hex() {
    unsigned char c = at(); p++;
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    ok = false; return 0;
  }
  J value() {
    J j; j.str = false; ws();
    if (at() == '"') {
      j.str = true; p++;
      while (ok) {
        if (p >= t.size()) { ok = false; break; }
        unsigned char c = at();
        if (c == '"') { p++; break; }
        if (c < 0x20) { ok = false; break; }
        if (c == '\\') {
          p++; c = at(); p++;
          if (c == '"' || c == '\\' || c == '/') j.s += (char)c;
          else if (c == 'b') j.s += '\b'; else if (c == 'f') j.s += '\f'; else if (c == 'n') j.s += '\n'; else if (c == 'r') j.s += '\r'; else if (c == 't') j.s += '\t';
          else if (c == 'u') { unsigned v = hex() << 12; v |= hex() << 8; v |= hex() << 4; v |= hex(); utf8(j.s, v); }
          else ok = false;
        } else { j.s += (char)c; p++; }
      }
    } else if (at() == '[') {
      p++; ws();
      if (at() == ']') { p++; return j; }
      for (;;) {
        j.a.push_back(value()); if (!ok) break;
        ws();
        if (at() == ',') { p++; continue; }
        if (at() == ']') { p++; break; }
        ok = false; break;
      }
    } else ok = false;
    return j;
  }
  J whole() { J j = value(); ws(); if (p != t.size()) ok = false; return j; }
};
static bool strs(const J& j, const std::vector<std::string>& w) {
  if (j.str || j.a.size() != w.size()) return false;
  bool r = true;
  for (size_t i = 0; i < w.size(); i++) { if (!j.a[i].str) return false; r = r & sameStr(j.a[i].s, w[i]); }
  return r;
}
// expected syllable text: own rendering of ordinary labels (fixed) and of literals
struct L { bool lit; std::string u8; Syl s; };
static std::string num(int n) { return n >= 10 ? num(n / 10) + char('0' + n % 10) : std::string(1, char('0' + n)); }
extern "C" void sx_main() {
#ifdef TEXT
  // one literal of TEXT arbitrary characters (any BMP character that is not a surrogate; or one astral character)
  std::u16string lit; std::string u8;
  int n = 1 + sx_choose("n", TEXT);
  for (int j = 0; j < n; j++) {
    int cls = sx_choose(nm("class", j).c_str(), 4);
    uint32_t c;
    if (cls == 0) { c = (uint32_t)sx_range(nm("a", j).c_str(), 8, 1, 0x7f); lit += (char16_t)c; }
    else if (cls == 1) { c = (uint32_t)sx_range(nm("b", j).c_str(), 16, 0x80, 0x7ff); lit += (char16_t)c; }
    else if (cls == 2) { c = (uint32_t)sx_range(nm("c", j).c_str(), 16, 0x800, 0xffff); SX_ASSUME((c < 0xd800) | (c > 0xdfff)); lit += (char16_t)c; }
    else { uint32_t h = (uint32_t)sx_range(nm("h", j).c_str(), 16, 0xd800, 0xdbff), l = (uint32_t)sx_range(nm("l", j).c_str(), 16, 0xdc00, 0xdfff);
           lit += (char16_t)h; lit += (char16_t)l; c = 0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00); }
    utf8(u8, c);
  }
  Syl s(7, lit), k = sylOf(C5{1, 0, 1, 0, 1}, 3);
  SylString str; str += k; str += s;
  std::list<SylString> list; list.push_back(str);
  std::string want = "(" + u8 + ")";
  JsonOutput jo(std::make_unique<RomanSylOutput>()), jr(std::make_unique<RawSylOutput>());
  GroupedJsonOutput go(std::make_unique<RomanSylOutput>());
  std::string out = jo.output(list); sx_dump_str("json", out);
  { Rd r(out); J j = r.whole(); SX_CHECK(r.ok, "JSON is not well-formed"); SX_CHECK(j.a.size() == 1 && strs(j.a[0], {"ka", want}), "JSON does not decode to the syllables"); }
  out = jr.output(str);
  { Rd r(out); J j = r.whole(); SX_CHECK(r.ok, "raw JSON is not well-formed"); SX_CHECK(strs(j, {"k_A_0@3", want + "@7"}), "raw JSON does not decode to the syllables"); }
  out = go.output(list);
  { Rd r(out); J j = r.whole(); SX_CHECK(r.ok, "grouped JSON is not well-formed"); SX_CHECK(j.a.size() == 1 && j.a[0].a.size() == 1 && j.a[0].a[0].a.size() == 1 && strs(j.a[0].a[0].a[0], {"ka", want}), "grouped JSON does not decode to the syllables"); }
  sx_reach("text");
#elif defined(LISTS)
  // any list of readings of any lengths, including empty ones and blanks
  int k = sx_choose("k", LISTS + 1); std::list<SylString> ls; std::vector<std::vector<std::string>> w;
  for (int e = 0; e < k; e++) {
    int n = sx_choose(nm("n", e).c_str(), 3); SylString str; std::vector<std::string> q;
    for (int i = 0; i < n; i++) {
      std::string name = nm("s", e) + char('a' + i);
      if (sx_choose((name + "?").c_str(), 2)) { char16_t c = (char16_t)sx_range(name.c_str(), 8, 1, 127); str += Syl(3, std::u16string(1, c)); q.push_back("(" + std::string(1, (char)c) + ")@3"); }
      else { str += sylOf(C5{1, 0, 1, 0, 1}, 4); q.push_back("k_A_0@4"); }
    }
    w.push_back(q); ls.push_back(str);
  }
  JsonOutput jo(std::make_unique<RawSylOutput>());
  std::string out = jo.output(ls); sx_dump_str("json", out);
  Rd r(out); J j = r.whole();
  SX_CHECK(r.ok && !j.str, "JSON of a list is not a well-formed array");
  bool ok = j.a.size() == w.size(); for (size_t i = 0; i < w.size() && ok; i++) ok &= strs(j.a[i], w[i]);
  SX_CHECK(ok, "JSON of a list does not decode to its readings in order");
  for (auto& str : ls) { std::string o = jo.output(str); Rd r2(o); J j2 = r2.whole(); size_t i = &str == &ls.front() ? 0 : w.size(); SX_CHECK(r2.ok && !j2.str, "JSON of a reading is not a well-formed array"); if (i == 0) SX_CHECK(strs(j2, w[0]), "JSON of a reading does not decode to its syllables"); }
  sx_reach(k ? "list" : "empty");
#else
  // graphs
  int k = sx_choose("k", K + 1);
  auto sh = shape(N, k);
  std::vector<GEdge> g; PronunDAG d;
  for (int e = 0; e < k; e++) {
    int f = nodeNo(sh[e].first, false), t = nodeNo(sh[e].second, false);
    bool reached = sh[e].first == 0; for (int o = 0; o < e; o++) reached |= sh[o].second == sh[e].first;
    if (!reached) sx_prune();
    int kind = sx_choose(nm("kind", e).c_str(), 3);
    Syl s = kind == 2 ? Syl(t, std::u16string(u"\"],[\"")) : sylOf(C5{(uint64_t)(kind ? 7 : 10 + e), 0, 1, 0, 1}, t);
    for (auto& o : g) if (o.f == f && o.t == t && sameSyl(o.s, s)) sx_prune();
    g.push_back(GEdge{f, t, s}); d.addEdge(f, t, s);
  }
  std::vector<Path> want; Path cur; paths(g, 0, cur, want);
  RawSylOutput raw;
  std::vector<std::vector<std::string>> w;
  std::list<SylString> ls;
  for (auto& p : want) { std::vector<std::string> q; SylString str; for (auto& s : p) { q.push_back(raw.output(s)); str += s; } w.push_back(q); ls.push_back(str); }
  auto multiset = [&](const std::vector<std::vector<std::string>>& got, bool exact) {
    for (auto& x : w) { int a = 0, b = 0; for (auto& y : got) a += x == y; for (auto& y : w) b += x == y; if (exact ? a != b : !a) return false; }
    for (auto& x : got) { bool h = false; for (auto& y : w) h |= x == y; if (!h) return false; }
    return true;
  };
  auto leaf = [](const J& j, std::vector<std::string>& q) { if (j.str) return false; for (auto& s : j.a) { if (!s.str) return false; q.push_back(s.s); } return true; };
  for (int v = 0; v < 2; v++) {
    JsonOutput jo(std::make_unique<RawSylOutput>());
    std::string out = v ? jo.output(ls) : jo.output(d); sx_dump_str("json", out);
    Rd r(out); J j = r.whole();
    SX_CHECK(r.ok && !j.str, "JSON is not a well-formed array");
    std::vector<std::vector<std::string>> got; bool ok = true;
    for (auto& a : j.a) { std::vector<std::string> q; ok &= leaf(a, q); got.push_back(q); }
    SX_CHECK(ok, "JSON is not an array of arrays of strings");
    SX_CHECK(got.size() == w.size() && multiset(got, true), "JSON does not decode to the readings");
    if (v) { bool same = true; for (size_t i = 0; i < w.size() && i < got.size(); i++) same &= w[i] == got[i]; SX_CHECK(same, "JSON changes the order of a list of readings"); }
  }
  GroupedJsonOutput go(std::make_unique<RawSylOutput>());
  // readings that differ only in positions may be merged by grouping: compare the labels alone
  auto strip = [](std::vector<std::vector<std::string>> v) { for (auto& q : v) for (auto& s : q) s = s.substr(0, s.rfind('@')); return v; };
  w = strip(w);
  for (int v = 0; v < 2; v++) {
  std::string out = v ? go.output(ls) : go.output(d); sx_dump_str("gjson", out);
  Rd r(out); J j = r.whole();
  SX_CHECK(r.ok && !j.str, "grouped JSON is not a well-formed array");
  std::vector<std::vector<std::string>> got; bool ok = true;
  for (auto& chain : j.a) {
    ok &= !chain.str;
    std::vector<std::vector<std::string>> acc(1);
    for (auto& frac : chain.a) {
      ok &= !frac.str && !frac.a.empty();
      std::vector<std::vector<std::string>> nx;
      for (auto& alt : frac.a) { std::vector<std::string> q; ok &= leaf(alt, q); for (auto x : acc) { x.insert(x.end(), q.begin(), q.end()); nx.push_back(x); } }
      acc = nx;
    }
    for (auto& x : acc) got.push_back(x);
  }
  SX_CHECK(ok, "grouped JSON is not nested as chains of groups of alternatives");
  SX_CHECK(multiset(strip(got), false), v ? "grouped JSON of a list of readings does not expand to them" : "grouped JSON does not expand to the readings");
  }
  if (!k) sx_reach("empty");
  if (want.size() > 1) sx_reach("several");
#endif
}
