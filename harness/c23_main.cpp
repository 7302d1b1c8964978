// C23: command line.
#include "common.h"
#include "parser/parser.h"
#include "output/sylout-thai.h"
#include "output/sylout-roman.h"
#include "output/sylout-phonetic.h"
#include "output/sylout-raw.h"
#include "output/sylout-soundex.h"
#include "output/output-delim.h"
#include "output/output-roman.h"
#include "output/output-json.h"
#include "output/output-gjson.h"
#include <memory>
#ifdef SX_REPLAY
extern "C" int sx_prog_main(int, const char**);
#else
extern "C" int sx_prog_main(int, const char**) asm("main");
#endif
#ifndef ARGS
#define ARGS 3
#endif
static std::string dictFile(const char* data) {
  SxEntry e[1] = {{u"ตน", 0}};
  std::string b = sx_trie_bytes(e, 1), d(data); d += '\0';
  b += '\0'; b += '\0'; b += '\0'; b += (char)d.size();
  return b + d;
}
template <class S> static std::string show(const PronunDAG& g, int mode, char delim) {
  if (mode == 2) return GroupedJsonOutput(std::make_unique<S>()).output(g);
  if (mode == 1) return JsonOutput(std::make_unique<S>()).output(g);
  return DelimOutput(std::make_unique<S>(), delim).output(g);
}
static std::string block(char n, const PronunDAG& g, int mode) {
  switch (n) {
    case 't': return show<ThaiSylOutput>(g, mode, '-');
    case 'p': return show<PhoneticSylOutput>(g, mode, ' ');
    case 'w': return show<RawSylOutput>(g, mode, ',');
    case 's': return show<SoundexSylOutput>(g, mode, '-');
    default: return mode ? show<RomanSylOutput>(g, mode, 0) : RomanOutput().output(g);
  }
}
#ifdef WORDS
// words of arbitrary characters, as arguments or as lines of standard input
static std::string text(const char* b, int n, int lo) {
  static const char* A[] = {"\n", " ", "a", "ก", "า", ".", "-", "\r"};
  std::string s; for (int k = 0; k < n; k++) s += A[lo + sx_choose(nm(b, k).c_str(), 8 - lo)];
  return s;
}
extern "C" void sx_main() {
  static const char* OPT[] = {"-t", "-w", "-j", "-g"};
  std::vector<std::string> a, words; a.push_back("thpronun"); int o = sx_choose("opt", 4); std::string in;
  if (sx_choose("stdin", 2)) {
    in = text("c", sx_choose("n", WORDS + 1), 0); a.push_back(OPT[o]); sx_reach("stdin");
    std::string w; for (char c : in) if (c == '\n') { words.push_back(w); w = ""; } else w += c;
    if (!w.empty()) words.push_back(w);
  } else {
    int n = 1 + sx_choose("args", 2), at = sx_choose("at", n + 1); sx_reach("args");
    for (int k = 0; k <= n; k++) {
      if (k == at) a.push_back(OPT[o]);
      if (k < n) { std::string w = text(nm("w", k).c_str(), sx_choose(nm("n", k).c_str(), WORDS / 2 + 1), 1); if (w[0] == '-') sx_prune(); a.push_back(w); words.push_back(w); }
    }
    in = "ก\n";
  }
  std::vector<const char*> av; for (auto& s : a) av.push_back(s.c_str()); av.push_back(nullptr);
  sx_set_stdin(in);
  std::string want; Parser p(true); std::string notes = o == 0 ? "t" : o == 1 ? "w" : "trp";
  for (auto& w : words) { want += w + ":\n"; PronunDAG g = p.parseWord(w); for (char c : notes) want += block(c, g, o < 2 ? 0 : o - 1) + "\n"; }
  sx_capture_stdout();
  int rc; try { rc = sx_prog_main((int)a.size(), av.data()); } catch (SxExit& e) { rc = e.code; }
  std::string out = sx_captured();
  sx_dump_str("out", out);
  SX_CHECK(sameStr(out, want), "printed output is not each word followed by the requested notations in the requested structure");
  SX_CHECK(rc == 0, "exit status of a normal run");
}
#else
extern "C" void sx_main() {
  static const char* WORD[] = {"ตน", "aตา"};
  sx_brk_on = 1; sx_brk_mask = 2;                     // a word boundary after the first character
  std::string dp = sx_path("my.dic");
  sx_file_put(dp, dictFile("k_A_0@1,m_I_1@2"));
  sx_file_put("./except.dic", dictFile("d_I_0@2"));    // the installed dictionary (EXCEPT_DICT_DIR is . in this build)
  std::vector<std::string> a; a.push_back("thpronun");
  int n = sx_choose("n", ARGS + 1);
  std::vector<std::string> words; std::string notes; int mode = 0, dict = 0; bool brk = true, stop = false;
  for (int k = 0; k < n; k++) {
    int kind = sx_choose(nm("arg", k).c_str(), 6);
    if (kind == 0) {
      char c = (char)sx_range(nm("opt", k).c_str(), 8, 1, 126); SX_ASSUME((c != '-') & (c != 'd'));
      a.push_back(std::string("-") + c);
      if (stop) continue;
      if (c == 'j') { if (!mode) mode = 1; }
      else if (c == 'g') mode = 2;
      else if (c == 'n') brk = false;
      else if (c == 'r' || c == 't' || c == 'p' || c == 'w' || c == 's') notes += (char)sx_conc((unsigned char)c);
      else { stop = true; if (c == 'h' || c == 'V') sx_reach("info"); else sx_reach("unknown"); }
    } else if (kind <= 2) { a.push_back(WORD[kind - 1]); words.push_back(WORD[kind - 1]); }
    else if (kind == 3) { a.push_back("-d" + dp); dict = 1; }
    else if (kind == 4) { a.push_back("-d" + sx_path("missing.dic")); dict = 2; }
    else { static const char* L[] = {"--version", "--help", "--nope", "-d", "-", "--"}; a.push_back(L[sx_choose(nm("long", k).c_str(), 6)]); stop = true; }
  }
  std::vector<const char*> av; for (auto& s : a) av.push_back(s.c_str()); av.push_back(nullptr);
  std::string in; int lines = 0;
  if (words.empty()) {
    lines = sx_choose("lines", 3); bool last = sx_choose("newline", 2);
    for (int k = 0; k < lines; k++) { int w = k & 1; in += WORD[w]; if (k + 1 < lines || last) in += '\n'; if (!stop) words.push_back(WORD[w]); }
  } else in = "ก\n";                              // must not be read
  sx_set_stdin(in);
  std::string want;
  if (!stop) {
    if (notes.empty()) notes = "trp";
    Parser p(brk);
    if (dict != 2) p.loadExceptDict((dict == 1 ? dp : std::string("./except.dic")).c_str());
    for (auto& w : words) { want += w + ":\n"; PronunDAG g = p.parseWord(w); for (char c : notes) want += block(c, g, mode) + "\n"; }
  }
  sx_capture_stdout();
  int rc; try { rc = sx_prog_main((int)a.size(), av.data()); } catch (SxExit& e) { rc = e.code; }
  std::string out = sx_captured();
  sx_dump("rc", (uint64_t)(unsigned)rc);
  if (stop) {
    SX_CHECK(out.find(":\n") == std::string::npos || (out.find(std::string(WORD[0]) + ":") == std::string::npos && out.find(std::string(WORD[1]) + ":") == std::string::npos), "words are analysed in spite of a help, version or unknown option");
    SX_CHECK(out.find("ต") == std::string::npos, "analysis output in spite of a help, version or unknown option");
    sx_reach("stop");
  } else {
    sx_dump_str("out", out);
    SX_CHECK(sameStr(out, want), "printed output is not each word followed by the requested notations in the requested structure");
    SX_CHECK(rc == 0, "exit status of a normal run");
    sx_reach(mode == 2 ? "grouped" : mode == 1 ? "json" : "plain");
    if (!brk) sx_reach("nobreak");
    if (dict) sx_reach("dict");
    if (lines) sx_reach("stdin");
  }
}
#endif
