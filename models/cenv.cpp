// Models of stdio (in-memory files) and libdatrie (association list).
#include "sx.h"
#include "sx_ios.h"
#include <vector>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <stdarg.h>
#include <datrie/trie.h>
#include <datrie/alpha-map.h>
#include <datrie/triedefs.h>

// ------------------------------------------------------------ files
namespace {
struct File { std::string name; std::string data; };
struct Handle { int file; size_t pos; bool wr; bool eof; bool open; };
std::vector<File>& files() { static std::vector<File> f; return f; }
int findFile(const char* n) { auto& v = files(); for (size_t i = 0; i < v.size(); i++) if (v[i].name == n) return (int)i; return -1; }
Handle hOut = {-2, 0, true, false, true}, hErr = {-3, 0, true, false, true}, hIn = {-4, 0, false, false, true};
}
#undef stdin
#undef stdout
#undef stderr
extern "C" {
FILE* stdin = (FILE*)&hIn; FILE* stdout = (FILE*)&hOut; FILE* stderr = (FILE*)&hErr;
static std::string& bytes(Handle* h) { return h->file == -2 ? sx_out : h->file == -3 ? sx_err : h->file == -4 ? sx_in : files()[h->file].data; }
FILE* fopen(const char* p, const char* m) {
  int i = findFile(p); bool wr = m[0] == 'w' || m[0] == 'a';
  if (i < 0) { if (!wr) return nullptr; files().push_back(File{p, ""}); i = (int)files().size() - 1; }
  if (m[0] == 'w') files()[i].data.clear();
  Handle* h = new Handle{i, m[0] == 'a' ? files()[i].data.size() : 0, wr, false, true};
  return (FILE*)h;
}
int fclose(FILE* f) { Handle* h = (Handle*)f; SX_CHECK(h->open, "fclose of a closed file"); h->open = false; if (h->file >= 0) delete h; return 0; }
size_t fread(void* p, size_t sz, size_t n, FILE* f) {
  Handle* h = (Handle*)f; std::string& s = bytes(h); size_t avail = s.size() - h->pos;
  if (sz == 0 || n == 0) return 0;
  if (n == 1) {                                   // one record of possibly symbolic size
    if (sz > avail) { memcpy(p, s.data() + h->pos, avail); h->pos = s.size(); h->eof = true; return 0; }
    sz = sx_conc(sz); memcpy(p, s.data() + h->pos, sz); h->pos += sz; return 1;
  }
  size_t k = 0; while (k < n && h->pos + sz <= s.size()) { memcpy((char*)p + k * sz, s.data() + h->pos, sz); h->pos += sz; k++; }
  if (k < n) { h->eof = true; h->pos = s.size(); }
  return k;
}
size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) {
  Handle* h = (Handle*)f; if (sz == 0 || n == 0) return 0;
  std::string& s = bytes(h);
  if (h->pos == s.size() || h->file < 0) s.append((const char*)p, sz * n); else { for (size_t i = 0; i < sz * n; i++) { if (h->pos + i < s.size()) s[h->pos + i] = ((const char*)p)[i]; else s += ((const char*)p)[i]; } }
  h->pos += sz * n; return n;
}
char* fgets(char* b, int n, FILE* f) {
  Handle* h = (Handle*)f; std::string& s = bytes(h); int k = 0;
  while (k < n - 1 && h->pos < s.size()) { char c = s[h->pos++]; b[k++] = c; if (c == '\n') break; }
  if (k == 0) { h->eof = true; return nullptr; }
  b[k] = 0; return b;
}
int fgetc(FILE* f) { Handle* h = (Handle*)f; std::string& s = bytes(h); if (h->pos >= s.size()) { h->eof = true; return EOF; } return (unsigned char)s[h->pos++]; }
int getc(FILE* f) { return fgetc(f); }
int ungetc(int c, FILE* f) { Handle* h = (Handle*)f; if (c == EOF || h->pos == 0) return EOF; h->pos--; h->eof = false; return c; }
int fputc(int c, FILE* f) { char b = (char)c; fwrite(&b, 1, 1, f); return (unsigned char)c; }
int putc(int c, FILE* f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char* s, FILE* f) { fwrite(s, 1, strlen(s), f); return 1; }
int puts(const char* s) { sx_out += s; sx_out += '\n'; return 1; }
int feof(FILE* f) { return ((Handle*)f)->eof; }
int ferror(FILE*) { return 0; }
int fflush(FILE*) { return 0; }
int fseek(FILE* f, long o, int w) { Handle* h = (Handle*)f; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)h->pos : (long)bytes(h).size(); if (b + o < 0) return -1; h->pos = (size_t)(b + o); h->eof = false; return 0; }
long ftell(FILE* f) { return (long)((Handle*)f)->pos; }
void rewind(FILE* f) { ((Handle*)f)->pos = 0; }
}
static std::string fmtV(const char* f, va_list ap) {
  std::string r;
  for (; *f; f++) {
    if (*f != '%') { r += *f; continue; }
    f++; bool left = false, zero = false, plus = false, alt = false; int w = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f != ' ') break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; else break; }
    std::string s; bool num = false;
    switch (*f) {
    case '%': s = "%"; break;
    case 'c': s = std::string(1, (char)va_arg(ap, int)); break;
    case 's': { const char* p = va_arg(ap, const char*); if (!p) p = "(null)"; size_t n = prec < 0 ? strlen(p) : strnlen(p, (size_t)prec); s.assign(p, n); break; }
    case 'd': case 'i': { long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) v = (short)v; else if (lng < -1) v = (signed char)v; s = std::to_string(v); if (plus && v >= 0) s = "+" + s; num = true; break; }
    case 'u': case 'x': case 'X': case 'o': { unsigned long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; else if (lng < -1) v = (unsigned char)v;
      unsigned b = *f == 'u' ? 10 : *f == 'o' ? 8 : 16; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; bool z = v == 0;
      if (b == 10) s = std::to_string(v); else do { s.insert(s.begin(), dg[v % b]); v /= b; } while (v);
      if (alt && !z && b == 16) s = (*f == 'X' ? "0X" : "0x") + s; num = true; break; }
    default: sx_unsupported("printf conversion");
    }
    if (num && prec >= 0) { zero = false; bool sg = s[0] == '-' || s[0] == '+'; while ((int)s.size() - sg < prec) s.insert(s.begin() + sg, '0'); }
    if ((int)s.size() < w) { size_t k = (size_t)w - s.size(); if (left) s.append(k, ' '); else if (zero && num) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, k, '0'); else s.insert(0, k, ' '); }
    r += s;
  }
  return r;
}
extern "C" {
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { std::string s = fmtV(f, ap); if (n) { size_t k = s.size() < n ? s.size() : n - 1; memcpy(b, s.data(), k); b[k] = 0; } return (int)s.size(); }
int vsprintf(char* b, const char* f, va_list ap) { std::string s = fmtV(f, ap); memcpy(b, s.c_str(), s.size() + 1); return (int)s.size(); }
int vfprintf(FILE* o, const char* f, va_list ap) { if (o == stderr) return 0; std::string s = fmtV(f, ap); fwrite(s.data(), 1, s.size(), o); return (int)s.size(); }
int vprintf(const char* f, va_list ap) { return vfprintf(stdout, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
int fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(o, f, ap); va_end(ap); return r; }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
void perror(const char* s) { sx_err += s; sx_err += ": error\n"; }
char* strerror(int) { return (char*)"error"; }
int fileno(FILE* f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : 3; }
void clearerr(FILE* f) { ((Handle*)f)->eof = false; }
int setvbuf(FILE*, char*, int, size_t) { return 0; }
int getchar() { return fgetc(stdin); }
ssize_t getdelim(char** l, size_t* z, int d, FILE* f) {
  std::string s; for (int c; (c = fgetc(f)) != EOF;) { s += (char)c; if (c == d) break; }
  if (s.empty()) return -1;
  if (!*l || *z < s.size() + 1) { *z = s.size() + 1; *l = (char*)realloc(*l, *z); }
  memcpy(*l, s.c_str(), s.size() + 1); return (ssize_t)s.size();
}
ssize_t getline(char** l, size_t* z, FILE* f) { return getdelim(l, z, '\n', f); }
static int scanV(const char* s, const char* f, va_list ap) {
  int n = 0; const char* b = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return n; s++; continue; }
    f++; int w = 0, l = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'z') { l++; f++; }
    if (*f == 'n') { *va_arg(ap, int*) = (int)(s - b); continue; }
    if (*f != 'c') while (isspace((unsigned char)*s)) s++;
    if (!*s) return n ? n : EOF;
    if (*f == 'c') { *va_arg(ap, char*) = *s++; n++; }
    else if (*f == 's') { char* o = va_arg(ap, char*); int k = 0; while (*s && !isspace((unsigned char)*s) && (!w || k < w)) { *o++ = *s++; k++; } *o = 0; n++; }
    else if (w == 0 && (*f == 'd' || *f == 'u' || *f == 'x' || *f == 'i')) { char* e; long v = *f == 'd' || *f == 'i' ? strtol(s, &e, *f == 'i' ? 0 : 10) : (long)strtoul(s, &e, *f == 'x' ? 16 : 10); if (e == s) return n; s = e; if (l) *va_arg(ap, long*) = v; else *va_arg(ap, int*) = (int)v; n++; }
    else sx_unsupported("scanf conversion");
  }
  return n;
}
int sx_sscanf(const char* s, const char* f, ...) asm("sscanf");
int sx_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scanV(s, f, ap); va_end(ap); return r; }
int sx_sscanf23(const char* s, const char* f, ...) asm("__isoc23_sscanf");
int sx_sscanf23(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scanV(s, f, ap); va_end(ap); return r; }
void sx_do_exit(int c) asm("exit");                  // (stdlib.h says exit does not throw)
void sx_do_exit(int c) { throw SxExit{c}; }          // caught where the harness calls main()
char* setlocale(int, const char*) { return (char*)"C"; }
int remove(const char* p) { int i = findFile(p); if (i < 0) return -1; files()[i].name = ""; return 0; }
char* getenv(const char*) { return nullptr; }
}
// Big arrays: a fixed size is exact up to 32 * BIG, one that depends on the input up to 64 bytes (the files with
// such sizes are smaller than that); above that BIG bytes are backed by memory.
extern "C" int sx_is_symbolic(uint64_t);
static const size_t BIG = 4096;
void* operator new[](size_t n) {
  if (!sx_is_symbolic(n) && n <= 32 * BIG) return malloc(n);
  if (n > BIG) { if (n > ((size_t)1 << 40)) throw std::bad_alloc(); return malloc(BIG); }
  if (sx_is_symbolic(n) && n > 64) return malloc(BIG);
  return malloc(n);
}

std::string sx_path(const char* n) { return n; }
void sx_file_put(const std::string& p, const std::string& b) { int i = findFile(p.c_str()); if (i < 0) { files().push_back(File{p, b}); } else files()[i].data = b; }
bool sx_file_get(const std::string& p, std::string& b) { int i = findFile(p.c_str()); if (i < 0) return false; b = files()[i].data; return true; }
void sx_set_stdin(const std::string& s) { sx_in = s; sx_in_pos = 0; std::cin.clear(); hIn = Handle{-4, 0, false, false, true}; }
void sx_capture_stdout() { sx_out.clear(); }
std::string sx_captured() { std::string s = sx_out; return s; }
void sx_dump_str(const char* n, const std::string& s) { sx_dump(n, s.size()); for (char c : s) sx_dump(n, (unsigned char)c); }
void sx_dump_u16(const char* n, const std::u16string& s) { sx_dump(n, s.size()); for (char16_t c : s) sx_dump(n, c); }

// ------------------------------------------------------------ libdatrie
struct _AlphaMap { std::vector<std::pair<AlphaChar, AlphaChar>> r; };
struct TEntry { std::vector<AlphaChar> k; TrieData d; };
struct _Trie { std::vector<TEntry> e; _AlphaMap m; bool any; };
struct _TrieState { const _Trie* t; std::vector<int> live; size_t depth; };
extern "C" {
AlphaMap* alpha_map_new() { return new _AlphaMap; }
void alpha_map_free(AlphaMap* m) { delete m; }
int alpha_map_add_range(AlphaMap* m, AlphaChar b, AlphaChar e) { if (b > e) return -1; m->r.push_back({b, e}); return 0; }
int alpha_char_strlen(const AlphaChar* s) { int n = 0; while (s[n]) n++; return n; }
Trie* trie_new(const AlphaMap* m) { Trie* t = new _Trie; t->m = *m; t->any = false; return t; }
void trie_free(Trie* t) { delete t; }
Bool trie_is_dirty(const Trie*) { return FALSE; }
static bool inMap(const Trie* t, AlphaChar c) { bool r = t->any; for (auto& p : t->m.r) r = r | ((c >= p.first) & (c <= p.second)); return r; }
Bool trie_store(Trie* t, const AlphaChar* key, TrieData d) {
  std::vector<AlphaChar> k; for (; *key; key++) { if (!inMap(t, *key)) return FALSE; k.push_back(*key); }
  for (auto& e : t->e) if (e.k.size() == k.size()) { bool eq = true; for (size_t i = 0; i < k.size(); i++) eq = eq & (e.k[i] == k[i]); if (eq) { e.d = d; return TRUE; } }
  t->e.push_back(TEntry{k, d}); return TRUE;
}
Bool trie_store_if_absent(Trie* t, const AlphaChar* key, TrieData d) { TrieData o; if (trie_retrieve(t, key, &o)) return FALSE; return trie_store(t, key, d); }
Bool trie_retrieve(const Trie* t, const AlphaChar* key, TrieData* o) {
  for (auto& e : t->e) { size_t n = alpha_char_strlen(key); if (e.k.size() != n) continue; bool eq = true; for (size_t i = 0; i < n; i++) eq = eq & (e.k[i] == key[i]); if (eq) { if (o) *o = e.d; return TRUE; } }
  return FALSE;
}
Bool trie_delete(Trie* t, const AlphaChar* key) { sx_unsupported("trie_delete"); return FALSE; }
TrieState* trie_root(const Trie* t) { _TrieState* s = new _TrieState; s->t = t; s->depth = 0; for (size_t i = 0; i < t->e.size(); i++) s->live.push_back((int)i); return s; }
TrieState* trie_state_clone(const TrieState* s) { return new _TrieState(*s); }
void trie_state_copy(TrieState* d, const TrieState* s) { *d = *s; }
void trie_state_free(TrieState* s) { delete s; }
void trie_state_rewind(TrieState* s) { s->depth = 0; s->live.clear(); for (size_t i = 0; i < s->t->e.size(); i++) s->live.push_back((int)i); }
static const TEntry* term(const TrieState* s) { for (int i : s->live) { auto& e = s->t->e[i]; if (e.k.size() == s->depth) return &e; } return nullptr; }
Bool trie_state_is_walkable(const TrieState* s, AlphaChar c) { if (c == 0) return term(s) ? TRUE : FALSE; for (int i : s->live) { auto& e = s->t->e[i]; if (e.k.size() > s->depth && e.k[s->depth] == c) return TRUE; } return FALSE; }
Bool trie_state_walk(TrieState* s, AlphaChar c) {
  if (c == 0) {                                   // the terminator can be walked, and walked again
    for (int i : s->live) if (s->t->e[i].k.size() == s->depth) { int k = i; s->live.clear(); s->live.push_back(k); return TRUE; }
    return FALSE; }
  std::vector<int> n; for (int i : s->live) { auto& e = s->t->e[i]; if (e.k.size() > s->depth && e.k[s->depth] == c) n.push_back(i); }
  if (n.empty()) return FALSE;
  s->live = n; s->depth++; return TRUE;
}
Bool trie_state_is_single(const TrieState* s) { return s->live.size() == 1 ? DA_TRUE : DA_FALSE; }
TrieData trie_state_get_data(const TrieState* s) { auto* e = term(s); if (e) return e->d; if (s->live.size() == 1) return s->t->e[s->live[0]].d; return TRIE_DATA_ERROR; }
TrieData trie_state_get_terminal_data(const TrieState* s) { auto* e = term(s); return e ? e->d : TRIE_DATA_ERROR; }
static void put4(std::string& s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
static std::string ser(const Trie* t) { std::string s = "SX"; s += (char)('T' + t->e.size() / 256); s += (char)t->e.size(); for (auto& e : t->e) { s += (char)e.k.size(); for (auto c : e.k) put4(s, c); put4(s, (uint32_t)e.d); } return s; }
int trie_fwrite(Trie* t, FILE* f) { std::string s = ser(t); return fwrite(s.data(), s.size(), 1, f) == 1 ? 0 : -1; }
static bool get4(FILE* f, uint32_t& v) { unsigned char b[4]; if (fread(b, 4, 1, f) != 1) return false; v = b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; return true; }
Trie* trie_fread(FILE* f) {
  char h[4]; if (fread(h, 4, 1, f) != 1) return nullptr;
  if (h[0] != 'S' || h[1] != 'X' || (h[2] != 'T' && h[2] != 'U')) return nullptr;
  Trie* t = new _Trie; t->any = true; int n = (unsigned char)sx_conc((unsigned char)h[3]); if (h[2] == 'U') n += 256;
  for (int i = 0; i < n; i++) {
    unsigned char l; if (fread(&l, 1, 1, f) != 1) goto bad;
    { TEntry e; uint32_t v; for (int k = 0; k < l; k++) { if (!get4(f, v)) goto bad; e.k.push_back(v); } if (!get4(f, v)) goto bad; e.d = (TrieData)v; t->e.push_back(e); }
  }
  return t;
bad: delete t; return nullptr;
}
Trie* trie_new_from_file(const char* p) { FILE* f = fopen(p, "rb"); if (!f) return nullptr; Trie* t = trie_fread(f); fclose(f); return t; }
int trie_save(Trie* t, const char* p) { FILE* f = fopen(p, "wb"); if (!f) return -1; int r = trie_fwrite(t, f); fclose(f); return r; }
}
std::string sx_trie_bytes(const SxEntry* e, int n) {
  Trie t; t.any = true;
  for (int i = 0; i < n; i++) { AlphaChar k[64]; size_t j = 0; for (char16_t c : e[i].key) k[j++] = c; k[j] = 0; trie_store(&t, k, e[i].data); }
  return ser(&t);
}
