// Replay runtime: the harness interface implemented over a concrete assignment,
// linked with the real libstdc++, libthai and libdatrie.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <datrie/trie.h>
static std::map<std::string, uint64_t>& asg() {
  static std::map<std::string, uint64_t> m; static bool init = false;
  if (!init) { init = true; std::ifstream f(getenv("SX_ASSIGN")); std::string n; uint64_t v; while (f >> n >> v) m[n] = v; }
  return m;
}
static FILE* lg() { static FILE* f = fopen(getenv("SX_LOG"), "a"); return f; }
extern "C" {
uint64_t sx_sym(const char* n, int bits) { auto it = asg().find(n); uint64_t v = it == asg().end() ? 0 : it->second; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sx_assume(int c) { if (!c) { fprintf(lg(), "ASSUME\n"); fflush(lg()); _exit(77); } }
void sx_check(int c, const char* m) { if (!c) { fprintf(lg(), "CHECK %s\n", m); fflush(lg()); fprintf(stderr, "property assertion failed: %s\n", m); _exit(99); } }
void sx_reach(const char*) {}
uint64_t sx_conc(uint64_t v) { return v; }
void sx_prune(void) { _exit(77); }
void sx_unsupported(const char* w) { fprintf(stderr, "unsupported: %s\n", w); _exit(78); }
void sx_dump(const char* n, uint64_t v) { fprintf(lg(), "DUMP %s %llu\n", n, (unsigned long long)v); fflush(lg()); }
uint64_t sx_select(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_native(void) { return 1; }
void sx_main(void);
}
void sx_dump_str(const char* n, const std::string& s) { sx_dump(n, s.size()); for (char c : s) sx_dump(n, (unsigned char)c); }
void sx_dump_u16(const char* n, const std::u16string& s) { sx_dump(n, s.size()); for (char16_t c : s) sx_dump(n, c); }
std::string sx_path(const char* n) { return std::string(getenv("SX_TMP")) + "/" + n; }
void sx_file_put(const std::string& p, const std::string& b) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(b.data(), b.size()); }
bool sx_file_get(const std::string& p, std::string& b) { std::ifstream f(p, std::ios::binary); if (!f) return false; std::ostringstream o; o << f.rdbuf(); b = o.str(); return true; }
static std::istringstream in; static std::ostringstream out; static std::streambuf* oldOut;
void sx_set_stdin(const std::string& s) { in.clear(); in.str(s); std::cin.rdbuf(in.rdbuf()); std::cin.clear(); }
void sx_capture_stdout() { out.str(""); if (!oldOut) oldOut = std::cout.rdbuf(); std::cout.rdbuf(out.rdbuf()); }
std::string sx_captured() { return out.str(); }
std::string sx_trie_bytes(const SxEntry* e, int n) {
  AlphaMap* m = alpha_map_new(); alpha_map_add_range(m, 0x01, 0x7e); alpha_map_add_range(m, 0x0e01, 0x0e5b); Trie* t = trie_new(m); alpha_map_free(m);
  for (int i = 0; i < n; i++) { AlphaChar k[64]; size_t j = 0; for (char16_t c : e[i].key) k[j++] = c; k[j] = 0; trie_store(t, k, e[i].data); }
  std::string p = sx_path("trie.tmp"), b; FILE* f = fopen(p.c_str(), "wb"); trie_fwrite(t, f); fclose(f); trie_free(t);
  sx_file_get(p, b); unlink(p.c_str()); return b;
}
extern "C" void sx_exit(int c) { throw SxExit{c}; }
int main() { sx_main(); if (oldOut) std::cout.rdbuf(oldOut); fprintf(lg(), "DONE\n"); fflush(lg()); fflush(nullptr); return 0; }
