/* C10: byte-range views and write cursors. */
#include <reactor.h>
#include "sa.h"

#define MAX (1UL << 40)

static data view(const void *p, size_t n)
{
  data d = data_construct(p, n);
  __sa_check(data_base(d) == p && data_size(d) == n, "a view has the base and size given");
  __sa_check(!!data_empty(d) == (n == 0), "a view is empty exactly if its size is zero");
  return d;
}

/* two views that agree on the first `same` bytes and differ at the next (if both have one) */
static void pair(size_t n1, size_t n2, size_t same, data *d1, data *d2)
{
  size_t m = n1 > n2 ? n1 : n2;
  char *p = malloc(m + 1), *q = malloc(m + 1);
  unsigned char *x = __sa_bytes("common", m + 1);

  __sa_copy(p, x, m);
  __sa_copy(q, x, m);
  if (same < n1 && same < n2)
  {
    unsigned char a = __sa_range("a", 0, 255), b = __sa_range("b", 0, 255);
    __sa_assume(a != b);
    p[same] = a;
    q[same] = b;
  }
  *d1 = view(p, n1);
  *d2 = view(q, n2);
}

void ctx_equal(void)
{
  size_t n1 = __sa_range("size1", 0, MAX), n2 = __sa_range("size2", 0, MAX), s = __sa_range("agree", 0, MAX);
  data d1, d2;

  __sa_assume(s <= n1 && s <= n2);
  pair(n1, n2, s, &d1, &d2);
  if (n1 == n2 && s == n1)
  {
    __sa_check(data_equal(d1, d2), "views with the same bytes are equal");
    __sa_mark("equal");
  }
  else
  {
    __sa_check(!data_equal(d1, d2), "views of different size or content are not equal");
    __sa_mark("unequal");
  }
  free((void *) data_base(d1));
  data_free(d2);
  __sa_no_leaks("views");
}

void ctx_prefix(void)
{
  size_t n1 = __sa_range("size1", 0, MAX), n2 = __sa_range("size2", 0, MAX), s = __sa_range("agree", 0, MAX);
  data d1, d2;

  __sa_assume(s <= n1 && s <= n2);
  pair(n1, n2, s, &d1, &d2);
  if (s == n1)
  {
    __sa_check(data_prefix(d1, d2), "a view is a prefix of a view that starts with its bytes");
    __sa_mark("prefix");
  }
  else
  {
    __sa_check(!data_prefix(d1, d2), "a view that is longer or has other bytes is not a prefix");
    __sa_mark("no prefix");
  }
}

void ctx_null(void)
{
  data n = data_null(), d = view(__sa_bytes("x", 5), 5), e = view(__sa_bytes("y", 1), 0);

  __sa_check(data_size(n) == 0 && data_empty(n) && data_base(n) == NULL, "the null view is empty");
  __sa_check(data_equal(n, data_null()) && data_equal(n, e) && data_equal(e, n), "empty views are equal");
  __sa_check(data_prefix(n, d) && data_prefix(n, n) && data_prefix(e, n), "the empty view is a prefix of every view");
  __sa_check(!data_equal(n, d) && !data_equal(d, n) && !data_prefix(d, n), "a non-empty view differs from an empty one");
  data_free(n);
  __sa_mark("null");
}

void ctx_select(void)
{
  size_t n = __sa_range("size", 0, MAX), o = __sa_range("offset", 0, MAX), m = __sa_range("part", 0, MAX);
  char *p = __sa_bytes("x", n + 1);
  data d, e, f;

  __sa_assume(o <= n && m <= n - o);
  d = view(p, n);
  e = data_select(d, o, m);
  __sa_check(data_base(e) == p + o && data_size(e) == m, "a selected view covers exactly the part asked for");
  __sa_check(data_offset(d, e) == o, "the offset between two views is the distance of their bases");
  f = data_consume(d, o);
  __sa_check(data_base(f) == p + o && data_size(f) == n - o, "a consumed view lacks exactly the bytes consumed");
  __sa_check(data_base(d) == p && data_size(d) == n, "the original view is unchanged");
  __sa_mark("select");
}

void ctx_alloc(void)
{
  size_t n = __sa_range("size", 0, MAX);
  data d = data_alloc(n);
  void *z = calloc(1, n);

  __sa_check(data_size(d) == n, "an allocated view has the size asked for");
  __sa_check(__sa_objsize(data_base(d)) >= n, "an allocated view has room for its size");
  __sa_same(data_base(d), z, n, "an allocated view is zeroed");
  __sa_fill((void *) data_base(d), n, "w");
  data_free(d);
  free(z);
  __sa_no_leaks("allocated view");
  __sa_mark("alloc");
}

void ctx_string(void)
{
  size_t n = __sa_range("length", 0, MAX);
  char *p = __sa_cstr("s", n);
  data d = data_string(p);

  __sa_check(data_base(d) == p && data_size(d) == n, "a view of a string covers its characters");
  __sa_mark("string");
}

void ctx_cursor(void)
{
  size_t n = __sa_range("size1", 0, MAX), m = __sa_range("size2", 0, MAX), k = __sa_range("skip", 0, MAX), total = n + m + k + 1, at = 0;
  char *x = __sa_bytes("x", n + 1), *y = __sa_bytes("y", m + 1), *b = malloc(total), *g = __sa_ghost("expected");
  uint8_t c = __sa_range("byte", 0, 255);
  pointer p = b;
  int order = __sa_choice(2, "order");

  if (order)
  {
    pointer_push_byte(&p, c);
    g[at] = c;
    at += 1;
  }
  pointer_push(&p, data_construct(x, n));
  __sa_copy(g + at, x, n);
  at += n;
  __sa_check((char *) p == b + at, "the cursor advances by exactly what was written");
  if (!order)
  {
    pointer_push_byte(&p, c);
    g[at] = c;
    at += 1;
  }
  pointer_move(&p, k);
  __sa_fill(b + at, k, "skipped");
  __sa_copy(g + at, b + at, k);
  at += k;
  __sa_check((char *) p == b + at, "the cursor moves by exactly the distance asked for");
  pointer_push(&p, data_construct(y, m));
  __sa_copy(g + at, y, m);
  at += m;
  __sa_check((char *) p == b + at, "the cursor advances by exactly what was written");
  __sa_same(b, g, total, "the bytes pushed are the ones written, in order");
  pointer_push(&p, data_null());
  __sa_check((char *) p == b + at, "pushing an empty view changes nothing");
  __sa_mark("cursor");
}
