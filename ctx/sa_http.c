/* H01, H02: responses and requests are serialised exactly (REQUEST selects requests). */
#include <reactor.h>
#include <string.h>
#include "sa.h"

#define MAX (1UL << 40)

static char *want, *tail;                 /* what is to come before and after the length */
static size_t n, m;

static void lit(const char *s)
{
  __sa_copy((tail ? tail : want) + (tail ? m : n), s, strlen(s));
  *(tail ? &m : &n) += strlen(s);
}

static void part(data d)
{
  __sa_copy((tail ? tail : want) + (tail ? m : n), data_base(d), data_size(d));
  *(tail ? &m : &n) += data_size(d);
}

static data any(const char *name, size_t lo, size_t hi)
{
  size_t k = __sa_range(name, lo, hi);

  return data_construct(__sa_bytes(name, k), k);
}

/* the bodies whose size has a given number of digits */
static data body_of(int digits)
{
  static const size_t pow10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000};

  if (!digits)
    return __sa_choice(2, "null body") ? data_null() : data_construct("x", 0);
  return any("body", pow10[digits - 1], pow10[digits] - 1);
}

static void verify(char *p, size_t size, data body, int digits)
{
  uint64_t v = 0;
  int i;

  __sa_check(size == n + digits + m, "exactly the message is appended");
  __sa_same(p, want, n, "the message is serialised exactly up to the length of the body");
  for (i = 0; i < digits; i ++)
  {
    __sa_check(p[n + i] >= '0' && p[n + i] <= '9', "the length is decimal");
    v = v * 10 + (p[n + i] - '0');
  }
  if (digits)
    __sa_check(v == data_size(body), "the length is that of the body");
  __sa_same(p + n + digits, tail, m, "the message is serialised exactly after the length of the body");
  __sa_mark("written");
}

static data untyped(void)
{
  return __sa_choice(2, "null type") ? data_null() : data_construct("x", 0);
}

static void message(int digits, int queued)
{
  stream s;
  size_t q;
  char *before = NULL;
  data body = body_of(digits), d[4];
  int i, typed = digits > 2 ? 1 : __sa_choice(2, "type");
  char *p;

  stream_construct(&s, NULL, NULL);
  want = __sa_ghost("wanted");
  q = queued ? __sa_range("queued", 1, MAX) : 0;
  if (queued)
  {
    before = __sa_bytes("queued output", q);
    stream_write(&s, data_construct(before, q));
  }
#ifdef REQUEST
  d[0] = any("method", 0, MAX);
  d[1] = any("target", 0, MAX);
  d[2] = any("host", 0, MAX);
  d[3] = typed ? any("type", 1, MAX) : untyped();
  http_write_request(&s, d[0], d[1], d[2], d[3], body);
  part(d[0]);
  lit(" ");
  part(d[1]);
  lit(" HTTP/1.1\r\nHost: ");
  part(d[2]);
  lit("\r\n");
  if (digits)
  {
    lit("Content-Type: ");
    part(d[3]);
    lit("\r\nContent-Length: ");
  }
  tail = __sa_ghost("wanted after the length");
  lit(digits ? "\r\n\r\n" : "\r\n");
  part(body);
  i = digits;
#else
  d[0] = any("status", 0, MAX);
  d[1] = any("date", 0, MAX);
  d[2] = typed ? any("type", 1, MAX) : untyped();
  http_write_response(&s, d[0], d[1], d[2], body);
  lit("HTTP/1.1 ");
  part(d[0]);
  lit("\r\nServer: reactor\r\nDate: ");
  part(d[1]);
  if (typed)
  {
    lit("\r\nContent-Type: ");
    part(d[2]);
  }
  lit("\r\nContent-Length: ");
  tail = __sa_ghost("wanted after the length");
  lit("\r\n\r\n");
  part(body);
  i = digits ? digits : 1;
#endif
  p = buffer_data(&s.output);
  __sa_check(buffer_size(&s.output) > q, "something is appended");
  if (queued)
    __sa_same(p, before, q, "what was queued before stays");
  verify(p + q, buffer_size(&s.output) - q, body, i);
  stream_destruct(&s);
  __sa_no_leaks("message");
}

void ctx_empty(void) { message(0, __sa_choice(2, "queued")); }
void ctx_small(void) { message(1 + __sa_choice(2, "digits"), __sa_choice(2, "queued")); }
#ifdef THOROUGH
#define QUEUED __sa_choice(2, "queued")
#else
#define QUEUED 0
#endif
void ctx_medium(void) { message(3 + __sa_choice(4, "digits"), QUEUED); }
void ctx_large(void) { message(7 + __sa_choice(3, "digits"), QUEUED); }
void ctx_huge(void) { message(10 + __sa_choice(3, "digits"), QUEUED); }

/* a field pushed on its own */
void ctx_field(void)
{
  data name = any("name", 0, MAX), value = any("value", 0, MAX);
  size_t k = data_size(name) + data_size(value) + 4;
  char *x = malloc(k);
  pointer p = x;

  want = __sa_ghost("wanted");
  http_field_push(&p, http_field_construct(name, value));
  part(name);
  lit(": ");
  part(value);
  lit("\r\n");
  __sa_check((char *) p == x + k, "the cursor moves past the field");
  __sa_same(x, want, k, "a field is serialised exactly");
  free(x);
  __sa_mark("field");
}
