/* C08: hashing reads exactly the given bytes and depends on nothing else.  Each block is an object
   of exactly its size, so that any access outside it is an access outside an object. */
#include <reactor.h>
#include <string.h>
#include "sa.h"

#ifdef THOROUGH
#define N 700
#else
#define N 261
#endif

static char contents[N];

static void prepare(int variant)
{
  int i;

  for (i = 0; i < N; i ++)
    contents[i] = variant ? 0xff - i % 7 : 1 + i % 250;
}

/* equal blocks in different places, with other data around them and other things hashed in between */
static void equal(size_t n)
{
  uint64_t h;
  char *a, *b, *c;

  prepare(__sa_choice(2, "contents"));
  a = malloc(n);
  memcpy(a, contents, n);
  h = hash_data(a, n);
  b = malloc(n + 24);
  __sa_fill(b, 8, "before");
  __sa_fill(b + 8 + n, 16, "after");
  memcpy(b + 8, contents, n);
  c = malloc(n + 1);
  memcpy(c, contents, n);
  c[n] = 0;
  hash_data("something else", 14);
  __sa_check(hash_data(b + 8, n) == h, "the hash depends on nothing but the bytes");
  b[7] = 1;
  b[n + 8] = 2;
  __sa_check(hash_data(b + 8, n) == h, "the hash depends on nothing but the bytes");
  __sa_check(hash_string(c) == h, "the hash of a string is that of its characters");
  __sa_check(hash_string(c) == h, "the hash of a string does not change");
  __sa_check(!memcmp(a, contents, n) && !memcmp(c, contents, n), "hashing changes nothing");
  free(a);
  free(b);
  free(c);
  __sa_no_leaks("hash");
}

void ctx_1(void) { equal(__sa_choice(65, "length")); }
void ctx_2(void) { equal(65 + __sa_choice(64, "length")); }
void ctx_3(void) { equal(129 + __sa_choice(64, "length")); }
void ctx_4(void) { equal(193 + __sa_choice(N - 1 - 193, "length")); }

/* unknown contents of unknown length */
void ctx_any(void)
{
  size_t n = __sa_range("length", 0, 1 << 30);
  char *a = __sa_bytes("block", n), *b = malloc(n + 24);

  __sa_copy(b + 8, a, n);
  __sa_check(hash_data(a, n) == hash_data(b + 8, n), "the hash depends on nothing but the bytes");
}

void ctx_any_string(void)
{
  size_t n = __sa_range("length", 0, 1 << 30);
  char *a = __sa_cstr("string", n);

  hash_string(a);
}

/* integer keys */
void ctx_integer(void)
{
  uint64_t v = 1ULL << __sa_choice(64, "bit");
  uint64_t h = hash_uint64(v);

  hash_uint64(77);
  __sa_check(hash_uint64(v) == h, "equal integers have equal hashes");
}
