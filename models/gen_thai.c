/* Tabulates the character classes of the installed libthai as interval tests
   without branches, so that the symbolic run sees exactly that table. */
#include <stdio.h>
#include <thai/thailib.h>
#include <thai/thwctype.h>
#include <thai/thctype.h>
#define FNS(X) X(th_wcistis) X(th_wcisthai) X(th_wciseng) X(th_wcisthcons) X(th_wcisthvowel) X(th_wcisthtone) X(th_wcisthdiac) X(th_wcisthdigit) X(th_wcisthpunct) X(th_wcistaillesscons) X(th_wcisovershootcons) X(th_wcisundershootcons) X(th_wcisundersplitcons) X(th_wcisldvowel) X(th_wcisflvowel) X(th_wcisupvowel) X(th_wcisblvowel)
#define PR(f) gen(#f, f);
static void gen(const char *n, int (*f)(thwchar_t)) {
  printf("int %s(thwchar_t wc) { unsigned c = (unsigned)wc; unsigned r = 0;\n", n);
  long s = -1;
  for (long c = 0; c <= 0x110000; c++) {
    int v = c < 0x110000 && f((thwchar_t)c) != 0;
    if (v && s < 0) s = c;
    if (!v && s >= 0) { printf("  r |= (c - %ldu) <= %ldu;\n", s, c - 1 - s); s = -1; }
  }
  printf("  return (int)r; }\n");
}
int main(void) {
  printf("#include \"sx.h\"\n#include <thai/thwchar.h>\nextern \"C\" {\n");
  FNS(PR)
  /* TIS-620 code of a character, and the class table of TIS-620 */
  printf("thchar_t th_uni2tis(thwchar_t wc) { unsigned c = (unsigned)wc, r = 255;\n");
  for (long c = 0; c < 0x110000; ) {
    unsigned t = th_uni2tis((thwchar_t)c); long s = c;
    if (t == 255) { c++; continue; }
    while (c < 0x110000 && th_uni2tis((thwchar_t)c) == t + (c - s) && t + (c - s) < 255) c++;
    printf("  r = (unsigned)sx_select((c - %ldu) < %ldu, c - %ldu + %uu, r);\n", s, c - s, s, t);
  }
  printf("  return (thchar_t)r; }\nextern const unsigned short _th_ctype_tbl[256] = {");
  for (int i = 0; i < 256; i++) printf("%d,", _th_ctype_tbl[i]);
  printf("};\n}\n");
  return 0;
}
