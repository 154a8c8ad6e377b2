/* C01: buffers hold exactly the bytes put in. */
#include <reactor.h>
#include "sa.h"

#define MAX (1UL << 40)
#ifdef THOROUGH
#define DEPTH 2
#else
#define DEPTH 1
#endif

static buffer b;
static char *want;
static size_t n;

static void verify(void)
{
  __sa_check(buffer_size(&b) == n, "the size is the number of bytes put in");
  __sa_check(buffer_capacity(&b) >= n, "the capacity is never below the size");
  if (buffer_capacity(&b))
    __sa_check(__sa_objsize(buffer_data(&b)) >= buffer_capacity(&b), "the allocation is as large as the capacity claims");
  if (n)
    __sa_same(buffer_data(&b), want, n, "the buffer holds exactly the bytes put in, in place");
}

static void splice(size_t pos, size_t m)
{
  char *t = __sa_ghost("t");

  __sa_copy(t, want + pos, n - pos);
  __sa_copy(want + pos + m, t, n - pos);
  n += m;
}

static void insert(void)
{
  size_t m = __sa_range("insert", 0, MAX), pos = __sa_choice(2, "append") ? n : __sa_range("position", 0, MAX);
  char *x = __sa_bytes("x", m);

  __sa_assume(pos <= n);
  buffer_insert(&b, pos, x, m);
  splice(pos, m);
  __sa_copy(want + pos, x, m);
}

static void fill(void)
{
  size_t m = __sa_range("element", 1, 1024), count = __sa_choice(3, "count"), pos = __sa_choice(2, "append") ? n : __sa_range("position", 0, MAX), i;
  char *x = __sa_bytes("x", m);

  __sa_assume(pos <= n);
  buffer_insert_fill(&b, pos, count, x, m);
  splice(pos, count * m);
  for (i = 0; i < count; i ++)
    __sa_copy(want + pos + i * m, x, m);
}

static void erase(void)
{
  size_t pos = __sa_range("position", 0, MAX), m = __sa_range("erase", 0, MAX);
  char *t = __sa_ghost("t");

  __sa_assume(pos <= n && m <= n - pos);
  buffer_erase(&b, pos, m);
  __sa_copy(t, want + pos + m, n - pos - m);
  __sa_copy(want + pos, t, n - pos - m);
  n -= m;
}

static void resize(void)
{
  size_t m = __sa_range("new size", 0, MAX);

  buffer_resize(&b, m);
  if (m > n)
  {
    __sa_check(buffer_capacity(&b) >= m, "the capacity is never below the size");
    __sa_fill((char *) buffer_data(&b) + n, m - n, "new");
    __sa_copy(want + n, (char *) buffer_data(&b) + n, m - n);
  }
  n = m;
}

static void reserve(void)
{
  size_t m = __sa_range("reserve", 0, MAX);

  buffer_reserve(&b, m);
  __sa_check(buffer_capacity(&b) >= m, "reserving provides the capacity asked for");
}

static void op(int o)
{
  switch (o)
  {
  case 0: insert(); break;
  case 1: erase(); break;
  case 2: resize(); break;
  case 3: reserve(); break;
  case 4: buffer_compact(&b); break;
  case 5: fill(); break;
  case 6: buffer_clear(&b); n = 0; __sa_check(buffer_capacity(&b) == 0, "a cleared buffer holds nothing"); break;
  }
  verify();
}

static void run(int first)
{
  int i;

  buffer_construct(&b);
  want = __sa_ghost("wanted contents");
  n = 0;
  verify();
  if (first >= 0)
    op(first);
  for (i = 0; i < DEPTH; i ++)
    op(__sa_choice(7, "operation"));
  buffer_destruct(&b);
  __sa_no_leaks("buffer");
  __sa_mark("done");
}

void ctx_fresh(void) { run(-1); }
void ctx_after_insert(void) { run(0); }
void ctx_after_resize(void) { run(2); }
void ctx_after_reserve(void) { run(3); }
void ctx_after_fill(void) { run(5); }
