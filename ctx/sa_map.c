/* C04, C05: maps.  The generic map is used with a hash the context chooses per key: close to both
   ends of the table, so that probe runs collide and wrap around, with and without differing high
   bits, so that growing the table tears runs apart.  SIZES selects the obligations of C05. */
#include <reactor.h>
#include <string.h>
#include "sa.h"

#ifdef SIZES
#define FINDS(c, m)
#define COUNTS(c, m) __sa_check(c, m)
#else
#define FINDS(c, m) __sa_check(c, m)
#define COUNTS(c, m)
#endif

#define NK 40
#define NS 64
typedef struct element element;
struct element { long key; long serial; long value; };

static map m;
static size_t hashes[NK];
static int present[NK];                 /* serial of the element inserted for the key, or 0 */
static long values[NS];
static int serials, keys, count, releases, last;

static size_t hash(void *p)
{
  element *e = p;

  FINDS(e->key > 0 && e->key < NK, "only keys of inserted elements or of the one looked for are hashed");
  return hashes[e->key];
}

static void set(void *p, void *q)
{
  element *a = p, *b = q;

  *a = b ? *b : (element) {0};
}

static int equal(void *p, void *q)
{
  element *a = p, *b = q;

  return b ? a->key == b->key : a->key == 0;
}

static void release(void *p)
{
  element *e = p;

  COUNTS(e->serial > 0 && e->serial <= serials && e->value == values[e->serial], "the contents of a released element are intact");
  last = e->serial;
  releases ++;
}

static long lookup(int k)
{
  element q = {.key = k};
  element *e = map_at(&m, &q, hash, equal);

  __sa_live(e, "a lookup yields an element of the table");
  FINDS(!present[k] || (e->key == k && e->serial == present[k] && e->value == values[present[k]]), "a present key is found with the value inserted for it");
  FINDS(present[k] || (e->key == 0 && e->serial == 0 && e->value == 0), "an absent key yields the empty element");
  return 0;
}

static void verify(void)
{
  int k;

  COUNTS(map_size(&m) == (size_t) count, "the size is the number of present keys");
#ifndef SIZES
  for (k = 1; k <= keys; k ++)
    lookup(k);
#endif
}

static void insert(int k, int cb)
{
  element e = {.key = k, .serial = ++ serials};

  e.value = values[serials] = 1000 + serials;
  releases = 0;
  map_insert(&m, &e, hash, set, equal, cb ? release : NULL);
  if (present[k])
  {
    COUNTS(releases == cb, "an element rejected as duplicate is released once");
    COUNTS(!cb || last == serials, "the element released is the rejected one");
  }
  else
  {
    COUNTS(releases == 0, "no element is released when one is added");
    present[k] = serials;
    count ++;
  }
}

static void erase(int k, int cb)
{
  element e = {.key = k};

  releases = 0;
  map_erase(&m, &e, hash, set, equal, cb ? release : NULL);
  if (present[k])
  {
    COUNTS(releases == cb, "an erased element is released once");
    COUNTS(!cb || last == present[k], "the element released is the erased one");
    present[k] = 0;
    count --;
  }
  else
    COUNTS(releases == 0, "erasing an absent key releases nothing");
}

static int seen[NS];
static void release_seen(void *p)
{
  release(p);
  COUNTS(!seen[last], "no element is released twice");
  seen[last] = 1;
}

static void all(int destroy, int cb)
{
  int k;

  for (k = 0; k < NS; k ++)
    seen[k] = 0;
  releases = 0;
  if (destroy)
    map_destruct(&m, equal, cb ? release_seen : NULL);
  else
    map_clear(&m, set, equal, cb ? release_seen : NULL);
  COUNTS(releases == cb * count, "every element is released when all are removed");
  for (k = 1; k <= keys; k ++)
  {
    COUNTS(!cb || !present[k] || seen[present[k]], "each present element is released when all are removed");
    present[k] = 0;
  }
  count = 0;
}

static void finish(int cb)
{
  all(1, cb);
  __sa_no_leaks("map");
}

static size_t pick(int k, int n)
{
  static const size_t where[] = {15, 14, 0, 1, 13};

  return where[__sa_choice(n, "hash")] | (k & 1 ? (size_t) 0xa500000000000010 : 0);
}

static void start(int n)
{
  keys = n;
  map_construct(&m, sizeof(element), set);
}

/* a few keys whose probe runs collide and wrap around; two erased in any order, then added again */
static void cluster(int n, int places)
{
  int k;

  start(n + 1);
  hashes[n + 1] = 15;
  for (k = 1; k <= n; k ++)
    hashes[k] = pick(k, places);
  for (k = 1; k <= n; k ++)
    insert(k, 1);
  verify();
  erase(1 + __sa_choice(n, "first"), 1);
  verify();
  erase(1 + __sa_choice(n, "second"), 1);
  verify();
  k = 1 + __sa_choice(2, "again") * (n - 1);
  insert(k, 1);
  verify();
  finish(1);
}

#ifdef THOROUGH
void ctx_cluster_5(void) { cluster(5, 4); }
void ctx_cluster_4(void) { cluster(4, 5); }
#else
void ctx_cluster_4(void) { cluster(4, 3); }
#endif
void ctx_cluster_3(void) { cluster(3, 5); }

/* any short sequence of operations with few keys */
void ctx_sequence(void)
{
  int i, k, cb;

  start(3);
  hashes[1] = 15;
  hashes[2] = (size_t) -1;
  hashes[3] = __sa_choice(2, "hash of the third") ? 0 : 31;
#ifdef THOROUGH
  for (i = 0; i < 4; i ++)
#else
  for (i = 0; i < 3; i ++)
#endif
  {
    k = __sa_choice(8, "operation");
    cb = k < 6 ? 1 : __sa_choice(2, "callback");
    if (k < 3)
      insert(k + 1, cb);
    else if (k < 6)
      erase(k - 2, cb);
    else if (k == 6)
      all(0, cb);
    else
    {
      releases = 0;
      map_reserve(&m, cb ? 20 : 3, hash, set, equal);
      COUNTS(releases == 0, "reserving releases nothing");
    }
    verify();
  }
  finish(__sa_choice(2, "release"));
}

/* the same without callbacks, and with all keys unknown to the table */
void ctx_no_callback(void)
{
  int k, j;

  start(4);
  for (k = 1; k <= 4; k ++)
    hashes[k] = 14 + (k & 1);
  for (k = 1; k <= 3; k ++)
    insert(k, 0);
  insert(1 + __sa_choice(4, "key"), 0);
  verify();
  j = 1 + __sa_choice(4, "erased");
  erase(j, 0);
  verify();
  erase(j, 1);
  verify();
  if (__sa_choice(2, "clear"))
  {
    all(0, 0);
    verify();
    insert(2, 0);
    verify();
  }
  finish(0);
}

/* growth: more and more keys, with all hashes alike, alternating, or spread; then all erased again */
static void growth(int n)
{
  int i, k, how, order;

  start(n);
  how = __sa_choice(5, "hashes");
  for (k = 1; k <= n; k ++)
    hashes[k] = how == 0 ? 15 : how == 1 ? (size_t) -(k & 1) : how == 2 ? (size_t) k * 16 + 15 : how == 3 ? (size_t) (k * 7) : (size_t) -k;
  for (k = 1; k <= n; k ++)
  {
    insert(k, 1);
    if (k == 8 || k == 9 || k == 16 || k == 17 || k == n)
      verify();
  }
  insert(3, 1);
  order = __sa_choice(3, "order of erasure");
  for (i = 0; i < n; i ++)
  {
    k = order == 0 ? i + 1 : order == 1 ? n - i : 1 + (i * 5) % n;
    erase(k, 1);
    COUNTS(map_size(&m) == (size_t) count, "the size is the number of present keys");
    if (i == 0 || i == 1 || i == n / 2)
      verify();
  }
  verify();
  insert(1, 1);
  verify();
  finish(1);
}

#ifdef THOROUGH
void ctx_growth(void) { growth(36); }
#else
void ctx_growth(void) { growth(18); }
#endif

/* room asked for: small, exact and large, before and after insertions */
void ctx_reserve(void)
{
  int i, k, n;

  start(12);
  for (k = 1; k <= 12; k ++)
    hashes[k] = (size_t) (k / 2) * 31;
  n = __sa_choice(3, "inserted before") * 4;
  for (k = 1; k <= n; k ++)
    insert(k, 1);
  static const size_t sizes[] = {0, 1, 8, 9, 16, 17, 33};
  map_reserve(&m, sizes[__sa_choice(7, "room")], hash, set, equal);
  verify();
  for (; k <= 12; k ++)
    insert(k, 1);
  verify();
  all(0, 1);
  verify();
  insert(5, 1);
  verify();
  finish(1);
}

#ifndef SIZES
/* room for many elements: every slot must be reachable by probing */
static void long_set(void *p, void *q) { *(long *) p = q ? *(long *) q : 0; }
static int long_equal(void *p, void *q) { return q ? *(long *) p == *(long *) q : *(long *) p == 0; }
static size_t long_base;
static size_t long_hash(void *p) { return long_base; }

static void large(size_t n, long base)
{
  long k;

  map_construct(&m, sizeof k, long_set);
  map_reserve(&m, n, long_hash, long_set, long_equal);
  long_base = base;
  for (k = 1; k <= 6; k ++)
    map_insert(&m, &k, long_hash, long_set, long_equal, NULL);
  k = 3;
  map_erase(&m, &k, long_hash, long_set, long_equal, NULL);
  for (k = 1; k <= 6; k ++)
    FINDS(*(long *) map_at(&m, &k, long_hash, long_equal) == (k == 3 ? 0 : k), "a present key is found in a large table");
  FINDS(map_size(&m) == 5, "the size is the number of present keys");
  map_destruct(&m, long_equal, NULL);
  __sa_no_leaks("map");
}

void ctx_large(void) { large(257, __sa_choice(2, "hash") * -3); }
void ctx_huge(void) { large(65537, 0); }
#endif

/* maps of integers and of strings: the same through the wrappers, with their own hashes */
static uintptr_t ikeys[] = {1, 2, 16, 17, (uintptr_t) -1, 0x100000001, 33, 48, 49, 64, 128, 4096};
static long ireleased;
static uintptr_t ilast, ilastv;

static void irelease(mapi_entry *e)
{
  ireleased ++;
  ilast = e->key;
  ilastv = e->value;
}

#define WN 12
void ctx_mapi(void)
{
  mapi t;
  mapi_entry *e;
  int i, n, j, c;

  mapi_construct(&t);
  if (__sa_choice(2, "reserve"))
    mapi_reserve(&t, 20);
  for (i = 0; i < WN; i ++)
    mapi_insert(&t, ikeys[i], 100 + i, irelease);
  COUNTS(ireleased == 0 && mapi_size(&t) == WN, "the size is the number of present keys");
  j = __sa_choice(WN, "duplicate");
  mapi_insert(&t, ikeys[j], 7, irelease);
  COUNTS(ireleased == 1 && ilast == ikeys[j] && ilastv == 7 && mapi_size(&t) == WN, "an element rejected as duplicate is released once");
  for (i = 0; i < WN; i ++)
    FINDS(mapi_at(&t, ikeys[i]) == (uintptr_t) (100 + i), "a present key is found with the value inserted for it");
  FINDS(mapi_at(&t, 77) == 0 && mapi_at(&t, 3) == 0, "an absent key yields the empty element");
  ireleased = 0;
  mapi_erase(&t, ikeys[j], irelease);
  COUNTS(ireleased == 1 && ilast == ikeys[j] && ilastv == (uintptr_t) (100 + j) && mapi_size(&t) == WN - 1, "an erased element is released once");
  mapi_erase(&t, ikeys[j], irelease);
  COUNTS(ireleased == 1 && mapi_size(&t) == WN - 1, "erasing an absent key releases nothing");
  for (i = 0; i < WN; i ++)
    FINDS(mapi_at(&t, ikeys[i]) == (i == j ? 0 : (uintptr_t) (100 + i)), "after an erasure the other keys are found");
  n = 0;
  mapi_foreach(&t, e)
    n ++;
  COUNTS(n == WN - 1, "traversal meets every present element");
  ireleased = 0;
  c = __sa_choice(3, "end");
  if (c == 0)
  {
    mapi_clear(&t, irelease);
    COUNTS(ireleased == WN - 1 && mapi_size(&t) == 0, "every element is released when all are removed");
    FINDS(mapi_at(&t, ikeys[0]) == 0, "an absent key yields the empty element");
    mapi_insert(&t, 5, 6, NULL);
    FINDS(mapi_at(&t, 5) == 6, "a present key is found with the value inserted for it");
    COUNTS(mapi_size(&t) == 1, "the size is the number of present keys");
  }
  ireleased = 0;
  n = mapi_size(&t);
  mapi_destruct(&t, c == 1 ? NULL : irelease);
  COUNTS(ireleased == (c == 1 ? 0 : n), "every element is released when all are removed");
  __sa_no_leaks("map of integers");
}

/* among them keys whose hashes agree in the bits used */
static char *skeys[] = {"a", "b", "ab", "ba", "abcdefgh", "abcdefgi", "abcdefghijklmnopq", "abcdefghijklmnop#M", "", "ABcdeFGHijklmnopq", "key", "key3C"};
static char *slast;
static uintptr_t slastv;
static void srelease(maps_entry *e)
{
  ireleased ++;
  slast = e->key;
  slastv = e->value;
}

void ctx_maps(void)
{
  maps t;
  maps_entry *e;
  char copy[32];
  int i, n, j, c;

  maps_construct(&t);
  if (__sa_choice(2, "reserve"))
    maps_reserve(&t, 20);
  for (i = 0; i < WN; i ++)
    maps_insert(&t, skeys[i], 100 + i, srelease);
  COUNTS(ireleased == 0 && maps_size(&t) == WN, "the size is the number of present keys");
  j = __sa_choice(WN, "duplicate");
  memcpy(copy, skeys[j], strlen(skeys[j]) + 1);
  maps_insert(&t, copy, 7, srelease);
  COUNTS(ireleased == 1 && slast == copy && slastv == 7 && maps_size(&t) == WN, "an element rejected as duplicate is released once");
  for (i = 0; i < WN; i ++)
  {
    memcpy(copy, skeys[i], strlen(skeys[i]) + 1);
    FINDS(maps_at(&t, copy) == (uintptr_t) (100 + i), "a present key is found with the value inserted for it");
  }
  FINDS(maps_at(&t, "zz") == 0 && maps_at(&t, "abcdefg") == 0 && maps_at(&t, "key0") == 0 && maps_at(&t, "0a") == 0 && maps_at(&t, "0pp") == 0, "an absent key yields the empty element");
  ireleased = 0;
  memcpy(copy, skeys[j], strlen(skeys[j]) + 1);
  maps_erase(&t, copy, srelease);
  COUNTS(ireleased == 1 && slast == skeys[j] && slastv == (uintptr_t) (100 + j) && maps_size(&t) == WN - 1, "an erased element is released once");
  maps_erase(&t, copy, srelease);
  COUNTS(ireleased == 1 && maps_size(&t) == WN - 1, "erasing an absent key releases nothing");
  for (i = 0; i < WN; i ++)
    FINDS(maps_at(&t, skeys[i]) == (i == j ? 0 : (uintptr_t) (100 + i)), "after an erasure the other keys are found");
  n = 0;
  maps_foreach(&t, e)
    n ++;
  COUNTS(n == WN - 1, "traversal meets every present element");
  ireleased = 0;
  c = __sa_choice(3, "end");
  if (c == 0)
  {
    maps_clear(&t, srelease);
    COUNTS(ireleased == WN - 1 && maps_size(&t) == 0, "every element is released when all are removed");
    FINDS(maps_at(&t, skeys[0]) == 0, "an absent key yields the empty element");
    maps_insert(&t, "x", 6, NULL);
    FINDS(maps_at(&t, "x") == 6, "a present key is found with the value inserted for it");
    COUNTS(maps_size(&t) == 1, "the size is the number of present keys");
  }
  ireleased = 0;
  n = maps_size(&t);
  maps_destruct(&t, c == 1 ? NULL : srelease);
  COUNTS(ireleased == (c == 1 ? 0 : n), "every element is released when all are removed");
  __sa_no_leaks("map of strings");
}
