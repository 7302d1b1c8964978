// The character classes as functions (tabulated by gen_thai.c) instead of table-lookup macros.
#include_next <thai/thwctype.h>
#undef th_wcistis
#undef th_wcisthai
#undef th_wciseng
#undef th_wcisthcons
#undef th_wcisthvowel
#undef th_wcisthtone
#undef th_wcisthdigit
#undef th_wcisthdiac
#undef th_wcisthpunct
#undef th_wcistaillesscons
#undef th_wcisovershootcons
#undef th_wcisundershootcons
#undef th_wcisundersplitcons
#undef th_wcisldvowel
#undef th_wcisflvowel
#undef th_wcisupvowel
#undef th_wcisblvowel
