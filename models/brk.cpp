// Word segmenter stub, used by the symbolic run and by the replay build alike:
// reports exactly the positions given in sx_brk_mask (bit i = break before character i),
// and every multiple of sx_brk_every up to sx_brk_upto when that is set.
#include "sx.h"
#include <thai/thailib.h>
#include <thai/thwbrk.h>
#include <thai/thbrk.h>
int sx_brk_on = 0; unsigned long sx_brk_mask = 0; int sx_brk_calls = 0; int sx_brk_every = 0, sx_brk_upto = 0;
static char dummy;
extern "C" {
ThBrk* th_brk_new(const char*) { return (ThBrk*)&dummy; }
void th_brk_delete(ThBrk*) {}
int th_brk_wc_find_breaks(ThBrk*, const thwchar_t* s, int pos[], size_t pos_sz) {
  sx_brk_calls++;
  int n = 0; size_t len = 0; while (s[len]) len++;
  for (size_t i = 1; i < len && (size_t)n < pos_sz; i++)
    if (sx_brk_on && ((i < 64 && ((sx_brk_mask >> i) & 1)) || (sx_brk_every && (int)i <= sx_brk_upto && i % sx_brk_every == 0))) pos[n++] = (int)i;
  return n;
}
int th_wbrk(const thwchar_t* s, int pos[], size_t pos_sz) { return th_brk_wc_find_breaks(nullptr, s, pos, pos_sz); }
}
