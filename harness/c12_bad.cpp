// C12: bad dictionary files.
#include "dag.h"
#include "dict/dict.h"
#include "parser/parser.h"
static std::string head(uint32_t n) { std::string s; for (int i = 3; i >= 0; i--) s += (char)(n >> (8 * i)); return s; }
static std::string trie() { SxEntry e[2] = {{u"ตน", 0}, {u"ตา", 8}}; return sx_trie_bytes(e, 2); }
static const std::string& bankA() { static std::string s = std::string("k_A_0@2", 8) + std::string("m_I_1@2", 8); return s; }
static const std::string& bankB() { static std::string s = std::string("s_U_4@2", 8) + std::string("n_A_0@2", 8); return s; }
static std::string file(const std::string& bank) { return trie() + head((uint32_t)bank.size()) + bank; }
static int expectWord(const Parser& p, const PronunDAG& plain, const char* w, const char* codeA, const char* codeB, const char* where) {
  PronunDAG d = p.parseWord(w);
  PronunDAG a, b; a.addSylString(0, SylString(std::string(codeA))); b.addSylString(0, SylString(std::string(codeB)));
  (void)where;
  return sameDAG(d, plain) ? 0 : sameDAG(d, a) ? 1 : sameDAG(d, b) ? 2 : 3;
}
extern "C" void sx_main() {
  std::string p = sx_path("x.dic");
#ifdef SEQ
  Parser plain(false), q(false);
  PronunDAG w1 = plain.parseWord("ตน"), w2 = plain.parseWord("ตา");
  sx_file_put(sx_path("a.dic"), file(bankA())); sx_file_put(sx_path("b.dic"), file(bankB()));
  std::string bad = file(bankA()); sx_file_put(p, bad.substr(0, bad.size() - 3));
  int now = 0;
  for (int k = 0; k < SEQ; k++) {
    int op = sx_choose(nm("load", k).c_str(), 4);
    static const char* F[] = {"a.dic", "b.dic", "x.dic", "missing.dic"};
    bool ok = q.loadExceptDict(sx_path(F[op]).c_str());
    SX_CHECK(ok == (op < 2), "loading reports the wrong result");
    now = op == 0 ? 1 : op == 1 ? 2 : 0;
    int r1 = expectWord(q, w1, "ตน", "k_A_0@2", "s_U_4@2", ""), r2 = expectWord(q, w2, "ตา", "m_I_1@2", "n_A_0@2", "");
    SX_CHECK(r1 == now && r2 == now, now ? "a loaded dictionary does not replace the previous one completely" : "a failed load does not leave the analyser without dictionary");
    sx_reach(now ? "good" : "bad");
  }
#else
  std::string t = trie(), bank = bankA(), f; bool good = false;
  int kind = sx_choose("kind", 6);
  if (kind == 0) { int cut = sx_choose("cut", 9); f = t.substr(0, t.size() * cut / 8); if (cut == 8) sx_reach("noheader"); }
  else if (kind == 1) { int cut = sx_choose("cut", 4 + (int)bank.size()); f = t + (head((uint32_t)bank.size()) + bank).substr(0, cut); sx_reach("truncated"); }
  else if (kind == 2) { uint32_t n = (uint32_t)sx_sym("size", 32); good = n == bank.size(); f = t + head(n) + bank; sx_reach("header"); }
  else if (kind == 3) { int n = sx_choose("n", 7); for (int k = 0; k < n; k++) f += (char)sx_sym(nm("b", k).c_str(), 8);
    if (!sx_native() && n > 3) SX_ASSUME(f[0] != 'S');       // (not the magic of the modelled trie format)
    sx_reach("junk"); }
  else if (kind == 4) { int n = 1 + sx_choose("more", 2); f = file(bank); for (int k = 0; k < n; k++) f += (char)sx_sym(nm("b", k).c_str(), 8); sx_reach("trailing"); }
  else { p = sx_path("missing.dic"); sx_reach("missing"); }
  if (kind != 5) sx_file_put(p, f);
  Dict d; bool r = d.open(p.c_str());
  SX_CHECK(r == good, good ? "a good dictionary is rejected" : "a bad dictionary file is accepted");
  std::u16string w(u"ตนก"); { Match m(w, 0, &d); bool h = m.findNext(); SX_CHECK(h == good, "a rejected dictionary still has entries"); if (h) m.getData(); }
  Parser q(false), plain(false);
  SX_CHECK(q.loadExceptDict(p.c_str()) == good, "loading a bad dictionary reports success");
  if (!good) { SX_CHECK(sameDAG(q.parseWord("ตน"), plain.parseWord("ตน")) && sameDAG(q.parseWord("ตาตน"), plain.parseWord("ตาตน")), "a rejected dictionary changes the readings"); }
  else sx_reach("good");
#endif
}
