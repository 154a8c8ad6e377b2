/* C02: vectors place, erase and release exactly the addressed objects. */
#include <reactor.h>
#include "sa.h"

#define MAX (1UL << 30)

static vector v;
static char *want;
static size_t n, object;

static size_t rel_first, rel_count, rel_done;
static int released[4];

static void verify(void)
{
  __sa_check(vector_size(&v) == n, "the size counts the objects");
  __sa_check(!!vector_empty(&v) == (n == 0), "a vector is empty exactly if it has no objects");
  __sa_check(vector_capacity(&v) >= n, "the capacity counts objects and is never below the size");
  if (n)
  {
    __sa_check(__sa_objsize(vector_data(&v)) >= vector_capacity(&v) * object, "the allocation holds as many objects as the capacity claims");
    __sa_same(vector_data(&v), want, n * object, "the vector holds exactly its objects, in place");
    __sa_check(vector_front(&v) == vector_data(&v), "the front is the first object");
    __sa_check((char *) vector_back(&v) == (char *) vector_data(&v) + (n - 1) * object, "the back is the last object");
  }
}

static void release(void *p)
{
  size_t j;

  for (j = 0; j < rel_count; j ++)
    if ((char *) p == (char *) vector_data(&v) + (rel_first + j) * object)
      break;
  __sa_check(j < rel_count, "only erased objects are released");
  __sa_check(!released[j], "an erased object is released once");
  released[j] = 1;
  rel_done ++;
  __sa_same(p, want + (rel_first + j) * object, object, "an erased object is intact when it is released");
}

static void expect(size_t first, size_t count)
{
  int i;

  rel_first = first;
  rel_count = count;
  rel_done = 0;
  for (i = 0; i < 4; i ++)
    released[i] = 0;
}

static void inserted(size_t pos, size_t m)
{
  char *t = __sa_ghost("t");

  __sa_copy(t, want + pos * object, (n - pos) * object);
  __sa_copy(want + (pos + m) * object, t, (n - pos) * object);
  n += m;
}

static void erased(size_t pos, size_t m, int with)
{
  char *t = __sa_ghost("t");

  __sa_check(rel_done == (with ? m : 0), "every erased object is released");
  __sa_copy(t, want + (pos + m) * object, (n - pos - m) * object);
  __sa_copy(want + pos * object, t, (n - pos - m) * object);
  n -= m;
}

static void op(int o)
{
  size_t pos, m, i;
  char *x;
  int with;

  switch (o)
  {
  case 0:
    pos = __sa_range("position", 0, MAX);
    __sa_assume(pos <= n);
    x = __sa_bytes("x", object);
    vector_insert(&v, pos, x);
    inserted(pos, 1);
    __sa_copy(want + pos * object, x, object);
    __sa_check((char *) vector_at(&v, pos) == (char *) vector_data(&v) + pos * object, "access by position");
    __sa_mark("insert");
    break;
  case 1:
    pos = __sa_range("position", 0, MAX);
    m = __sa_range("count", 0, MAX);
    __sa_assume(pos <= n);
    x = __sa_bytes("x", m * object);
    vector_insert_range(&v, pos, x, x + m * object);
    inserted(pos, m);
    __sa_copy(want + pos * object, x, m * object);
    __sa_mark("insert range");
    break;
  case 2:
    pos = __sa_range("position", 0, MAX);
    m = __sa_choice(3, "count");
    __sa_assume(pos <= n);
    x = __sa_bytes("x", object);
    vector_insert_fill(&v, pos, m, x);
    inserted(pos, m);
    for (i = 0; i < m; i ++)
      __sa_copy(want + (pos + i) * object, x, object);
    __sa_mark("insert fill");
    break;
  case 3:
    pos = __sa_range("position", 0, MAX);
    __sa_assume(pos < n);
    with = __sa_choice(2, "with release");
    expect(pos, 1);
    vector_erase(&v, pos, with ? release : NULL);
    erased(pos, 1, with);
    __sa_mark("erase");
    break;
  case 4:
    pos = __sa_range("first", 0, MAX);
    m = __sa_choice(4, "count");
    __sa_assume(pos + m <= n);
    with = __sa_choice(2, "with release");
    expect(pos, m);
    vector_erase_range(&v, pos, pos + m, with ? release : NULL);
    erased(pos, m, with);
    __sa_mark("erase range");
    break;
  case 5:
    x = __sa_bytes("x", object);
    vector_push_back(&v, x);
    inserted(n, 1);
    __sa_copy(want + (n - 1) * object, x, object);
    __sa_mark("push back");
    break;
  case 6:
    __sa_assume(n > 0);
    with = __sa_choice(2, "with release");
    expect(n - 1, 1);
    vector_pop_back(&v, with ? release : NULL);
    erased(n - 1, 1, with);
    __sa_mark("pop back");
    break;
  case 7:
    with = __sa_choice(2, "with release");
    if (with)
      __sa_assume(n <= 3);
    expect(0, with ? n : 0);
    vector_clear(&v, with ? release : NULL);
    erased(0, n, with && n);
    __sa_check(vector_capacity(&v) == 0, "a cleared vector has no storage");
    __sa_mark("clear");
    break;
  case 8:
    m = __sa_range("reserve", 0, MAX);
    vector_reserve(&v, m);
    __sa_check(vector_capacity(&v) >= m, "reserving provides room for the objects asked for");
    __sa_mark("reserve");
    break;
  case 9:
    vector_shrink_to_fit(&v);
    __sa_mark("shrink");
    break;
  }
  verify();
}

static void run(size_t size, int second)
{
  char *x;

  object = size;
  vector_construct(&v, object);
  want = __sa_ghost("wanted contents");
  n = 0;
  verify();
  /* any number of objects already in place */
  n = __sa_choice(2, "few objects") ? __sa_choice(4, "objects") : __sa_range("objects", 0, MAX);
  x = __sa_bytes("objects", n * object);
  vector_insert_range(&v, 0, x, x + n * object);
  __sa_copy(want, x, n * object);
  verify();
  op(__sa_choice(10, "operation"));
  if (second)
    op(__sa_choice(10, "operation"));
  if (__sa_choice(2, "destroy with release"))
  {
    __sa_assume(n <= 3);
    expect(0, n);
    vector_destruct(&v, release);
    __sa_check(rel_done == n, "every object is released by destroying the vector");
  }
  else
    vector_destruct(&v, NULL);
  __sa_no_leaks("vector");
}

#ifdef THOROUGH
#define SECOND 1
#else
#define SECOND 0
#endif
void ctx_1(void) { run(1, SECOND); }
void ctx_3(void) { run(3, SECOND); }
void ctx_8(void) { run(8, SECOND); }
void ctx_24(void) { run(24, SECOND); }
