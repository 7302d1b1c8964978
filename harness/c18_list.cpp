// C18: plain listings: one line per path, same order in every notation.
#include "graph.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include <memory>
#ifndef N
#define N 4
#endif
#ifndef K
#define K 4
#endif
static Syl label(int e, int kind, int t) {
  static const C5 own[] = {{1, 0, 1, 0, 1}, {21, 0, 9, 5, 1}, {3, 0, 7, 4, 5}, {16, 0, 0, 1, 2}, {12, 2, 16, 7, 3}};
  C5 all{7, 0, 21, 6, 1};
  if (kind == 1) return Syl::Blank;
  if (kind == 2) return Syl(t, std::u16string(u"a,b"));
  return sylOf(kind == 3 ? all : own[e % 5], t);
}
static bool isBlank(const Syl& s) { return !s.isLiteral() && s.iCons1() == Syl::Blank.iCons1(); }
static std::string joined(const Path& p, const ISylOutput& o, char delim) {
  std::string r; bool first = true;
  for (auto& s : p) {
    if (isBlank(s)) { r += ' '; first = true; continue; }
    if (!first) r += delim;
    r += o.output(s); first = false;
  }
  return r;
}
static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r; std::string c;
  for (char ch : s) { if (ch == '\n') { r.push_back(c); c.clear(); } else c += ch; }
  SX_CHECK(c.empty(), "the last line of a listing is not terminated");
  return r;
}
// raw lines identify the path (positions included)
static std::vector<std::string> rawLines; static std::vector<Path> want; static std::vector<std::string> wantRaw;
static void compare(const std::string& out, const std::vector<std::string>& exp, const char* m1, const char* m2) {
  auto l = lines(out);
  SX_CHECK(l.size() == want.size(), m1);
  if (l.size() != rawLines.size()) return;
  for (size_t j = 0; j < l.size(); j++) {
    bool ok = false;
    for (size_t p = 0; p < want.size(); p++) if (rawLines[j] == wantRaw[p] && l[j] == exp[p]) ok = true;
    SX_CHECK(ok, m2);
  }
}
#ifdef SYMB
// arbitrary labels: raw listing only
extern "C" void sx_main() {
  int k = 1 + sx_choose("k", K);
  auto sh = shape(N, k);
  std::vector<GEdge> g; PronunDAG d;
  for (int e = 0; e < k; e++) {
    int f = nodeNo(sh[e].first, false), t = nodeNo(sh[e].second, false);
    bool reached = sh[e].first == 0; for (int o = 0; o < e; o++) reached |= sh[o].second == sh[e].first;
    if (!reached) sx_prune();
    Syl s = sylOf(symC5(e), t);
    bool dup = false; for (auto& o : g) if (o.f == f && o.t == t) dup |= sameSyl(o.s, s);
    if (dup) sx_prune();
    g.push_back(GEdge{f, t, s}); d.addEdge(f, t, s);
  }
  Path cur; paths(g, 0, cur, want);
  RawSylOutput raw;
  std::string out = DelimOutput(std::make_unique<RawSylOutput>(), ',').output(d);
  for (auto& p : want) wantRaw.push_back(joined(p, raw, ','));
  auto l = lines(out);
  SX_CHECK(l.size() == want.size(), "not exactly one line per reading");
  for (auto& w : wantRaw) {
    int a = 0, b = 0; for (auto& x : l) a += sameStr(x, w); for (auto& x : wantRaw) b += sameStr(x, w);
    SX_CHECK(a == b, "a reading is listed too often or not at all");
  }
  if (want.size() > 1) sx_reach("several");
}
#else
extern "C" void sx_main() {
  int k = sx_choose("k", K + 1);
  auto sh = shape(N, k);
  bool neg = k ? sx_choose("neg", 2) : 0;
  std::vector<GEdge> g; PronunDAG d;
  for (int e = 0; e < k; e++) {
    int f = nodeNo(sh[e].first, neg), t = nodeNo(sh[e].second, neg);
    bool reached = sh[e].first == 0; for (int o = 0; o < e; o++) reached |= sh[o].second == sh[e].first;
    if (!reached) sx_prune();                       // an edge that no path from the start reaches
    Syl s = label(e, sx_choose(nm("kind", e).c_str(), 4), t);
    for (auto& o : g) if (o.f == f && o.t == t && sameSyl(o.s, s)) sx_prune();   // the same edge again
    g.push_back(GEdge{f, t, s}); d.addEdge(f, t, s);
  }
  Path cur; paths(g, 0, cur, want);
  RawSylOutput raw; ThaiSylOutput th; PhoneticSylOutput ph; SoundexSylOutput sx; RomanOutput ro;
  std::string out = DelimOutput(std::make_unique<RawSylOutput>(), ',').output(d);
  sx_dump_str("raw", out);
  for (auto& p : want) wantRaw.push_back(joined(p, raw, ','));
  rawLines = lines(out);
  SX_CHECK(rawLines.size() == want.size(), "not exactly one line per reading");
  for (auto& w : wantRaw) {
    int a = 0, b = 0; for (auto& x : rawLines) a += x == w; for (auto& x : wantRaw) b += x == w;
    SX_CHECK(a == b, "a reading is listed too often or not at all");
  }
  auto exp = [&](const ISylOutput& o, char dl) { std::vector<std::string> r; for (auto& p : want) r.push_back(joined(p, o, dl)); return r; };
  compare(DelimOutput(std::make_unique<ThaiSylOutput>(), '-').output(d), exp(th, '-'), "Thai listing: number of lines", "Thai listing: wrong line or order");
  compare(DelimOutput(std::make_unique<PhoneticSylOutput>(), ' ').output(d), exp(ph, ' '), "phonetic listing: number of lines", "phonetic listing: wrong line or order");
  compare(DelimOutput(std::make_unique<SoundexSylOutput>(), '-').output(d), exp(sx, '-'), "soundex listing: number of lines", "soundex listing: wrong line or order");
  std::vector<std::string> er; for (auto& p : want) { SylString s; for (auto& x : p) s += x; er.push_back(ro.output(s)); }
  compare(ro.output(d), er, "romanization listing: number of lines", "romanization listing: wrong line or order");
  SylString none; DelimOutput dr(std::make_unique<RawSylOutput>(), ',');
  SX_CHECK(dr.output(none).empty() && ro.output(none).empty(), "an empty reading does not print as an empty line");
  if (want.empty()) { SX_CHECK(out.empty(), "an empty graph gives a non-empty listing"); sx_reach("empty"); }
  if (want.size() > 2) sx_reach("several");
  for (auto& p : want) { if (p.size() > 2) sx_reach("long"); for (auto& s : p) if (isBlank(s)) sx_reach("blank"); }
}
#endif
