/* C03: lists stay consistently linked in both directions. */
#include <reactor.h>
#include "sa.h"

#define N 8
struct object { long id; char rest[16]; };

static list l, l2;
static long seq[N], seq2[N];
static int n, n2;
static int freed[N], released[N];
static void *where[N];

static void verify1(list *q, long *s, int k)
{
  struct object *o;
  int i = 0;

  list_foreach(q, o)
  {
    __sa_check(i < k, "forward traversal ends after the last element");
    __sa_check(o->id == s[i] && o == where[o->id], "forward traversal meets the elements in order");
    i ++;
  }
  __sa_check(i == k, "forward traversal meets every element");
  list_foreach_reverse(q, o)
  {
    __sa_check(i > 0, "backward traversal ends after the first element");
    i --;
    __sa_check(o->id == s[i], "backward traversal meets the elements in reverse order");
  }
  __sa_check(i == 0, "backward traversal meets every element");
  __sa_check(!!list_empty(q) == (k == 0), "a list is empty exactly if it has no elements");
}

static void verify(void)
{
  verify1(&l, seq, n);
  verify1(&l2, seq2, n2);
}

static long ids;
static struct object make(void)
{
  struct object o = {.id = ids++};
  __sa_fill(o.rest, sizeof o.rest, "payload");
  return o;
}

static void added(int at, struct object *o, struct object x)
{
  int i;

  for (i = n; i > at; i --)
    seq[i] = seq[i - 1];
  seq[at] = x.id;
  n ++;
  where[x.id] = o;
  __sa_same(o, &x, sizeof x, "an inserted element holds the object given");
}

static void *at(int i)
{
  return i == n ? list_end(&l) : where[seq[i]];
}

static int with;
static void release(void *p)
{
  struct object *o = p;

  __sa_check(where[o->id] == p, "the released object is the erased element");
  __sa_check(!released[o->id], "an element is released once");
  released[o->id] = 1;
}

static void gone(int i)
{
  long id = seq[i];

  __sa_check(!__sa_is_live(where[id]), "an erased element is freed");
  __sa_check(released[id] == with, "an erased element is released");
  for (n --; i < n; i ++)
    seq[i] = seq[i + 1];
}

static void op(void)
{
  struct object x, *o, *e;
  long t;
  int i, j, k;

  switch (__sa_choice(7, "operation"))
  {
  case 0:
    x = make();
    o = list_push_front(&l, &x, sizeof x);
    added(0, o, x);
    __sa_mark("push front");
    break;
  case 1:
    x = make();
    e = list_end(&l);
    o = list_push_back(&l, &x, sizeof x);
    added(n, o, x);
    __sa_check(e == list_end(&l), "the end iterator is stable");
    __sa_mark("push back");
    break;
  case 2:
    x = make();
    i = __sa_choice(n + 1, "before");
    o = list_insert(at(i), &x, sizeof x);
    added(i, o, x);
    __sa_mark("insert");
    break;
  case 3: /* move element j before element i */
    __sa_assume(n > 0);
    i = __sa_choice(n + 1, "before");
    j = __sa_choice(n, "element");
    list_splice(at(i), at(j));
    if (i != j)
    {
      t = seq[j];
      for (k = j; k < n - 1; k ++)
        seq[k] = seq[k + 1];
      if (i > j)
        i --;
      for (k = n - 1; k > i; k --)
        seq[k] = seq[k - 1];
      seq[i] = t;
    }
    __sa_mark("splice within");
    break;
  case 4: /* move an element to the other list */
    __sa_assume(n > 0);
    j = __sa_choice(n, "element");
    i = n2 ? __sa_choice(2, "front") : 1;
    list_splice(i ? list_end(&l2) : list_front(&l2), at(j));
    t = seq[j];
    for (k = j; k < n - 1; k ++)
      seq[k] = seq[k + 1];
    n --;
    if (!i)
    {
      for (k = n2; k > 0; k --)
        seq2[k] = seq2[k - 1];
      seq2[0] = t;
    }
    else
      seq2[n2] = t;
    n2 ++;
    __sa_mark("splice across");
    break;
  case 5:
    __sa_assume(n > 0);
    with = __sa_choice(2, "with release");
    i = __sa_choice(n, "element");
    list_erase(at(i), with ? release : NULL);
    gone(i);
    __sa_mark("erase");
    break;
  case 6: /* erase from within a traversal that has already stepped past the element */
    with = 1;
    i = 0;
    o = list_front(&l);
    while (o != list_end(&l))
    {
      e = o;
      o = list_next(o);
      if (__sa_choice(2, "erase element"))
      {
        list_erase(e, release);
        gone(i);
      }
      else
        i ++;
    }
    __sa_mark("erase in traversal");
    break;
  }
  verify();
}

static int compare(void *a, void *b)
{
  return ((struct object *) a)->id == ((struct object *) b)->id ? 0 : __sa_choice(2, "order") ? 1 : -1;
}

static void run(int start, int depth)
{
  struct object x, *o;
  int i, k;

  list_construct(&l);
  list_construct(&l2);
  verify();
  for (i = 0; i < start; i ++)
  {
    x = make();
    added(n, list_push_back(&l, &x, sizeof x), x);
  }
  for (i = 0; i < depth; i ++)
    op();
  for (k = 0; k < ids; k ++)
  {
    x.id = k;
    o = list_find(&l, compare, &x);
    for (i = 0; i < n && seq[i] != k; i ++);
    __sa_check(o == (i < n ? where[k] : NULL), "finding returns the first matching element or nothing");
  }
  with = 1;
  list_clear(&l, release);
  for (i = 0; i < n; i ++)
    __sa_check(released[seq[i]] && !__sa_is_live(where[seq[i]]), "clearing releases and frees every element");
  n = 0;
  verify1(&l, seq, 0);
  list_destruct(&l, release);
  list_destruct(&l2, NULL);
  __sa_no_leaks("lists");
}

#ifdef THOROUGH
#define DEPTH 3
#else
#define DEPTH 2
#endif
void ctx_0(void) { run(0, DEPTH + 1); }
void ctx_1(void) { run(1, DEPTH); }
void ctx_2(void) { run(2, DEPTH); }
void ctx_3(void) { run(3, DEPTH - 1); }

void ctx_null_object(void)
{
  size_t s = __sa_range("size", 1, 1UL << 32);
  char *o, *z = calloc(1, s);

  list_construct(&l);
  o = list_push_back(&l, NULL, s);
  __sa_same(o, z, s, "an element inserted without an object is zeroed");
  __sa_check(__sa_objsize(o) >= s, "an element has room for its object");
  free(z);
  list_destruct(&l, NULL);
  __sa_no_leaks("list");
  __sa_mark("null object");
}
