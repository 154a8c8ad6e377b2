/* C09: decimal formatting is exact for every 32-bit value. */
#include <reactor.h>
#include "sa.h"

static const uint64_t pow10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000};

/* every 32-bit number of each decimal length */
void ctx_format(void)
{
  int len = 1 + __sa_choice(10, "decimal length"), i;
  uint64_t hi = pow10[len] - 1;
  uint32_t n = __sa_range("n", len == 1 ? 0 : pow10[len - 1], hi > UINT32_MAX ? UINT32_MAX : hi);
  uint64_t v = 0;
  char *p;

  __sa_check(utility_u32_len(n) == (size_t) len, "decimal length is exact");
  if (__sa_choice(2, "terminated"))
  {
    p = malloc(len + 1);
    utility_u32_toa(n, p);
    __sa_check(p[len] == 0, "the digits are followed by a terminator");
  }
  else
  {
    p = malloc(len);
    utility_u32_sprint(n, p + len);
  }
  for (i = 0; i < len; i++)
  {
    __sa_check(p[i] >= '0' && p[i] <= '9', "only decimal digits are written");
    v = v * 10 + (p[i] - '0');
  }
  __sa_check(v == n, "the digits denote the number");
  __sa_mark("formatted");
}
