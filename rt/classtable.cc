// Prints the class of every code point as ranges: the exact table of /repo's
// own chars::getCodeType, which the engine uses where the argument is symbolic.
#include <stdio.h>
#include "util/characters.h"
int main() {
  unsigned last = 0;
  for (unsigned c = 0; c < 0x200000; ++c) {
    unsigned t = (unsigned)jumanpp::chars::getCodeType((char32_t)c);
    if (c == 0 || t != last) printf("%x %x\n", c, t);
    last = t;
  }
}
