/* H05: field lookup is by whole name, ignoring case; the first match wins. */
#include <reactor.h>
#include <string.h>
#include "sa.h"

/* a copy in an object of its own: looking further is an access outside an object */
static data own(const char *s)
{
  size_t n = strlen(s);
  char *p = malloc(n);

  memcpy(p, s, n);
  return data_construct(p, n);
}

static int lower(int c)
{
  return c >= 'A' && c <= 'Z' ? c + 32 : c;
}

static int same(data a, data b)
{
  size_t i;

  if (data_size(a) != data_size(b))
    return 0;
  for (i = 0; i < data_size(a); i ++)
    if (lower(((unsigned char *) data_base(a))[i]) != lower(((unsigned char *) data_base(b))[i]))
      return 0;
  return 1;
}

static const char *names[] = {"Host", "hOST", "Hos", "Hostx", "hos-", "", "[ost", "{OST", "host\xc4", "\x48ost\xe4", "Range", "Hpst"};
#define N (sizeof names / sizeof *names)

static void lookup(int fields)
{
  http_field f[4];
  data q = own(names[__sa_choice(N, "looked for")]), d;
  int i;

  for (i = 0; i < fields; i ++)
    f[i] = http_field_construct(own(names[__sa_choice(fields > 2 ? 3 : N, "name")]), data_construct("abcd" + i, 1));
  d = http_field_lookup(f, fields, q);
  for (i = 0; i < fields && !same(f[i].name, q); i ++)
    ;
  if (i == fields)
    __sa_check(data_size(d) == 0 && data_base(d) == NULL, "a field that is absent has the null value");
  else
    __sa_check(data_base(d) == data_base(f[i].value) && data_size(d) == 1, "the value is that of the first field with the name");
  if (i == fields)
    __sa_mark("absent");
  else
    __sa_mark("present");
}

void ctx_none(void)
{
  data d = http_field_lookup(NULL, 0, data_string("Host"));

  __sa_check(data_size(d) == 0 && data_base(d) == NULL, "there is nothing in no fields");
}
void ctx_one(void) { lookup(1); }
void ctx_two(void) { lookup(2); }
void ctx_three(void) { lookup(3); }

/* names of any length and contents: another length is another name, whatever the characters */
void ctx_any_length(void)
{
  size_t a = __sa_range("length", 0, 1UL << 40), b = __sa_range("length looked for", 0, 1UL << 40);
  char *p = __sa_bytes("name", a), *q = __sa_bytes("name looked for", b);
  http_field f[2] = {http_field_construct(data_construct(p, a), data_string("1")), http_field_construct(data_construct(q, b), data_string("2"))};
  data d;

  __sa_assume(a != b);
  d = http_field_lookup(f, 2, data_construct(q, b));
  __sa_check(data_base(d) == data_base(f[1].value), "names of different length are different");
  d = http_field_lookup(f, 1, data_construct(q, b));
  __sa_check(data_size(d) == 0, "names of different length are different");
  d = http_field_lookup(f, 1, data_construct(p, a));
  __sa_check(data_base(d) == data_base(f[0].value), "equal names are the same");
  __sa_mark("lengths");
}
