// Harness interface of the symbolic executor; in native replay builds the same
// functions read the counterexample assignment (see sx_native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sx_sym(const char* name, int bits);         // fresh symbolic value
void     sx_assume(int cond);
void     sx_check(int cond, const char* msg);         // property assertion
void     sx_reach(const char* label);                 // vacuity witness
uint64_t sx_conc(uint64_t v);                         // case split on all values
void     sx_prune(void);
void     sx_unsupported(const char* why);
void     sx_dump(const char* n, uint64_t v);
uint64_t sx_select(int c, uint64_t a, uint64_t b);    // branch-free choice
int      sx_native(void);                             // 1 in the replay build
}
#define SX_ASSUME(c) sx_assume((int)(c))
#define SX_CHECK(c, m) sx_check((int)(c), m)
// symbolic value in [lo, hi]
static inline uint64_t sx_range(const char* n, int bits, uint64_t lo, uint64_t hi) {
  uint64_t v = sx_sym(n, bits); sx_assume((v >= lo) & (v <= hi)); return v;
}
// case split in [0, n)
static inline int sx_choose(const char* name, int n) { return (int)sx_conc(sx_range(name, 32, 0, n - 1)); }

// ---- environment helpers (model: in memory; replay build: the real thing)
#ifdef __cplusplus
#include <string>
struct SxExit { int code; };                                   // thrown by exit() in a program under test
void        sx_dump_str(const char* name, const std::string& s);
void        sx_dump_u16(const char* name, const std::u16string& s);
std::string sx_path(const char* name);                        // a scratch file name
void        sx_file_put(const std::string& path, const std::string& bytes);
bool        sx_file_get(const std::string& path, std::string& bytes);
void        sx_set_stdin(const std::string& s);
void        sx_capture_stdout();                              // start collecting
std::string sx_captured();                                    // what was printed, stops collecting
// A dictionary file: nEntries (key, data) pairs followed by the raw bytes of the data bank part.
struct SxEntry { std::u16string key; int data; };
std::string sx_trie_bytes(const SxEntry* e, int n);           // serialised trie
// Word breaks reported by the segmenter stub: mask of positions 1..n-1, or none
extern int  sx_brk_on; extern unsigned long sx_brk_mask; extern int sx_brk_calls;
extern int  sx_brk_every, sx_brk_upto;                        // also at multiples of the one up to the other
#endif
