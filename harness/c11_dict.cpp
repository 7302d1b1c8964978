// C11: compile a word list with the dictionary compiler, load it, look text up.
#include "common.h"
#include "dict/dict.h"
#include <vector>
#ifdef SX_REPLAY
extern "C" int sx_prog_main(int, const char**);
#else
extern "C" int sx_prog_main(int, const char**) asm("main");
#endif
static int compileList(const std::string& list, const std::string& out) {
  std::string in = sx_path("list.txt");
  sx_file_put(in, list);
  const char* av[] = {"gen-lookup-dict", in.c_str(), out.c_str(), nullptr};
  try { return sx_prog_main(3, av); } catch (SxExit& e) { return e.code; }
}
struct Ent { std::u16string w; std::string d; };
static bool prefixAt(const std::u16string& w, const std::u16string& t, size_t at) {
  if (at + w.size() > t.size()) return false;
  bool r = true; for (size_t i = 0; i < w.size(); i++) r = r & (w[i] == t[at + i]); return r;
}
static void lookup(const Dict& d, const std::vector<Ent>& e, const std::u16string& t, int at) {
  Match m(t, at, &d);
  for (size_t len = 1; at + len <= t.size(); len++)
    for (auto& x : e) if (x.w.size() == len && prefixAt(x.w, t, at)) {
      bool f = m.findNext();
      SX_CHECK(f, "a listed word is not found");
      if (!f) return;
      SX_CHECK(m.getCurPos() == at + (int)len, "a listed word is found with another length or out of order");
      std::string g = m.getData(); sx_dump_str("data", g);
      SX_CHECK(sameStr(g, x.d), "a word does not have its own data");
      sx_reach("found");
    }
  SX_CHECK(!m.findNext(), "a word is found that is not listed at this place");
  SX_CHECK(!m.findNext(), "a word is found after the end of the search");
}
extern "C" void sx_main() {
  std::string out = sx_path("out.dic");
#if defined(BYTES)
  std::string b; int n = sx_choose("n", BYTES + 1);
  for (int k = 0; k < n; k++) b += (char)sx_sym(nm("b", k).c_str(), 8);
  int rc = compileList(b, out);
  sx_dump("rc", (unsigned)rc);
  if (rc == 0) { Dict d; d.open(out.c_str()); std::u16string t(u"กกก"); Match m(t, 0, &d); while (m.findNext()) m.getData(); }
  sx_reach(rc ? "rejected" : "accepted");
#else
  std::vector<Ent> e; std::string list;
#ifdef POOL
  // data of lengths that make the pool grow exactly at, just before and just after the end of a data item
  static const int L[] = {1, 90, 160, 250};
  int n = 2 + sx_choose("n", POOL - 1);
  for (int k = 0; k < n; k++) {
    Ent x; x.w = std::u16string(1, (char16_t)(0xE01 + k * 3)); if (k & 1) x.w += (char16_t)(0xE30 + k);
    int len = k == 1 ? 158 + sx_choose("len", 12) : L[sx_choose(nm("l", k).c_str(), 4)];
    if (k == 1) len -= e[0].d.size() == 90 ? 0 : 100;
    if (len + 3 * (int)x.w.size() + 2 > 255) sx_prune();         // a line holds up to 254 bytes
    for (int i = 0; i < len; i++) x.d += char('a' + (i + 7 * k) % 26);
    x.d[0] = (char)sx_range(nm("first", k).c_str(), 8, 0x21, 0x7e); x.d[len - 1] = (char)sx_range(nm("last", k).c_str(), 8, 0x21, 0x7e);
    e.push_back(x);
  }
  bool nl = true;
#elif defined(MANY)
  // more data than a 16-bit size can tell
  for (int k = 0; k < MANY; k++) {
    Ent x; x.w = std::u16string(1, (char16_t)(0xE01 + k / 40)) + (char16_t)(0xE01 + k % 40);
    for (int i = 0; i < 240; i++) x.d += char('a' + (i + k) % 26);
    if (k % 64 == 0 || k + 1 == MANY) x.d[3] = (char)sx_range(nm("x", k / 64).c_str(), 8, 0x21, 0x7e);
    e.push_back(x);
  }
  bool nl = true;
#else
  int n = 1 + sx_choose("n", WORDS);
  for (int k = 0; k < n; k++) {
    Ent x; int wl = 1 + sx_choose(nm("wl", k).c_str(), WLEN), dl = 1 + sx_choose(nm("dl", k).c_str(), 2);
    for (int i = 0; i < wl; i++) x.w += (char16_t)(0xE00 + sx_range((nm("w", k) + char('a' + i)).c_str(), 8, 1, 0x5b));
    for (int i = 0; i < dl; i++) { char c = (char)sx_sym((nm("d", k) + char('a' + i)).c_str(), 8); SX_ASSUME((c != 0) & (c != '\n') & (c != '\t')); x.d += c; }
    for (auto& o : e) if (o.w.size() == x.w.size() && prefixAt(o.w, x.w, 0)) sx_prune();     // each word listed once
    e.push_back(x);
  }
  bool nl = sx_choose("newline", 2);
#endif
  for (size_t k = 0; k < e.size(); k++) { list += utf8s(e[k].w) + "\t" + e[k].d; if (k + 1 < e.size() || nl) list += "\n"; }
  SX_CHECK(compileList(list, out) == 0, "a well-formed list is not compiled");
  Dict d; bool ok = d.open(out.c_str());
  SX_CHECK(ok, "the compiled dictionary cannot be opened");
#ifdef POOL
  for (auto& x : e) lookup(d, e, x.w + u"ก", 0);
#elif defined(MANY)
  int q = sx_choose("which", MANY / 16 + 1) * 16; if (q >= MANY) q = MANY - 1;
  lookup(d, e, e[q].w + u"ก", 0);
#else
  std::u16string t; int at = sx_choose("at", 2);
  for (int i = 0; i < at + TLEN; i++) { t += (char16_t)sx_sym(nm("t", i).c_str(), 16); SX_ASSUME(t[i] != 0); }
  lookup(d, e, t, at);
#endif
#endif
}
