/* C06: strings are values. */
#include <reactor.h>
#include <reactor/data.h>
#include <reactor/string.h>
#include "sa.h"

#define MAX (1UL << 32)

static char *want;
static size_t n;

static void verify(string s)
{
  string z = string_null();

  __sa_check(string_size(s) == n, "the size is that of the defined bytes");
  __sa_check(string_capacity(s) >= string_size(s), "the capacity is never below the size");
  __sa_check(!!string_empty(s) == (n == 0), "a string is empty exactly if it has no bytes");
  __sa_same(s, want, n, "the string holds exactly the defined bytes");
  __sa_check(s[n] == 0, "the string is terminated after its last byte");
  __sa_check(__sa_objsize(s) > string_capacity(s), "the allocation holds the capacity and a terminator");
  __sa_check(data_base(string_data(s)) == s && data_size(string_data(s)) == n, "the data of a string are its bytes");
  __sa_check(string_size(z) == 0 && z[0] == 0 && string_capacity(z) == 0, "the shared empty string is never modified");
}

static void finish(string s)
{
  string_free(s);
  __sa_check(__sa_is_live(string_null()), "the shared empty string is never freed");
  __sa_no_leaks("string");
}

/* a string with any contents, possibly emptied after having been allocated */
static string any(void)
{
  string s = string_null();
  size_t m;
  char *x;

  want = __sa_ghost("wanted contents");
  n = 0;
  switch (__sa_choice(3, "string"))
  {
  case 0: return s;
  case 1:
    m = __sa_range("length", 0, MAX);
    x = __sa_bytes("s", m);
    s = string_append_data(s, data_construct(x, m));
    __sa_copy(want, x, m);
    n = m;
    return s;
  default:
    m = __sa_range("length", 1, MAX);
    x = __sa_bytes("s", m);
    s = string_append_data(s, data_construct(x, m));
    return string_resize(s, 0);
  }
}

void ctx_insert(void)
{
  string s = any();
  size_t m = __sa_range("inserted", 0, MAX), pos;
  char *x = __sa_bytes("x", m), *t = __sa_ghost("t");
  data d = data_construct(x, m);

  verify(s);
  if (__sa_choice(4, "null view") == 0)
  {
    d = data_null();
    m = 0;
  }
  switch (__sa_choice(3, "where"))
  {
  case 0: pos = 0; s = string_prepend_data(s, d); __sa_mark("prepend"); break;
  case 1: pos = n; s = string_append_data(s, d); __sa_mark("append"); break;
  default:
    pos = __sa_range("position", 0, MAX);
    __sa_assume(pos <= n);
    s = string_insert_data(s, pos, d);
    __sa_mark("insert");
  }
  __sa_copy(t, want + pos, n - pos);
  __sa_copy(want + pos + m, t, n - pos);
  __sa_copy(want + pos, x, m);
  n += m;
  verify(s);
  finish(s);
}

void ctx_erase(void)
{
  string s = any();
  size_t pos = __sa_range("position", 0, MAX), m = __sa_range("erased", 0, MAX);
  char *t = __sa_ghost("t");

  __sa_assume(pos <= n && m <= n - pos);
  s = string_erase_data(s, __sa_choice(2, "null view") && m == 0 ? data_null() : data_select(string_data(s), pos, m));
  __sa_copy(t, want + pos + m, n - pos - m);
  __sa_copy(want + pos, t, n - pos - m);
  n -= m;
  verify(s);
  __sa_mark("erase");
  finish(s);
}

void ctx_resize(void)
{
  string s = any();
  size_t m = __sa_range("size", 0, MAX), r = __sa_range("capacity", 0, MAX);

  s = string_allocate(s, r);
  __sa_check(string_capacity(s) >= r, "allocating provides the capacity asked for");
  verify(s);
  s = string_resize(s, m);
  if (m > n)
    __sa_fill(s + n, m - n, "grown"), __sa_copy(want + n, s + n, m - n);
  n = m;
  verify(s);
  __sa_mark("resize");
  finish(s);
}

void ctx_copy(void)
{
  string s = any(), c;

  c = string_copy(s);
  verify(s);
  verify(c);
  __sa_check(string_equal(s, c) && string_equal(c, s), "a copy equals the original");
  if (n)
  {
    __sa_check(c != s, "a copy is independent of the original");
    s[0] = 'x';
    verify(c);
    __sa_mark("copy");
  }
  string_free(s);
  verify(c);
  finish(c);
}

void ctx_equal(void)
{
  size_t n1 = __sa_range("size1", 0, MAX), n2 = __sa_range("size2", 0, MAX), k = __sa_range("agree", 0, MAX);
  char *x = __sa_bytes("common", n1 + n2);
  string s = string_append_data(string_null(), data_construct(x, n1)), t = string_append_data(string_null(), data_construct(x, n2));

  if (k < n1 && k < n2)
  {
    unsigned char a = __sa_range("a", 0, 255), b = __sa_range("b", 0, 255);
    __sa_assume(a != b);
    s[k] = a;
    t[k] = b;
    __sa_check(!string_equal(s, t), "strings with different bytes are not equal");
    __sa_mark("unequal");
  }
  else
    __sa_check(!!string_equal(s, t) == (n1 == n2), "strings are equal exactly if they have the same bytes");
  string_free(s);
  string_free(t);
  __sa_no_leaks("string");
}

/* s = A M B M C with A, B, C free of matches */
static size_t la, lb, lc, lm;
static char *m;
static int matches;

static string subject(int k)
{
  string s = string_null();
  size_t l;
  char *x;

  la = __sa_range("before", 0, MAX);
  lb = __sa_range("between", 0, MAX);
  lc = __sa_range("after", 0, MAX);
  lm = __sa_range("match", 1, MAX);
  matches = k;
#ifndef THOROUGH
  if (k > 1)
    __sa_assume(la > 0 && lb > 0 && lc > 0);
#endif
  x = malloc(la + lm + lb + lm + lc);
  m = __sa_bytes("M", lm);
  __sa_fill(x, la, "free:A");
  l = la;
  if (matches > 0)
  {
    __sa_copy(x + l, m, lm);
    __sa_fill(x + l + lm, lb, "free:B");
    l += lm + lb;
  }
  if (matches > 1)
  {
    __sa_copy(x + l, m, lm);
    __sa_fill(x + l + lm, lc, "free:C");
    l += lm + lc;
  }
  s = string_append_data(s, data_construct(x, l));
  free(x);
  return s;
}

static void put(void *p, size_t k)
{
  __sa_copy(want + n, p, k);
  n += k;
}

void ctx_find(void)
{
  string s = subject(__sa_choice(3, "matches"));
  data d, e;

  d = string_find_data(s, data_construct(m, lm));
  if (matches)
  {
    __sa_check(data_size(d) == lm && data_base(d) == s + la, "the first match is found");
    e = string_find_at_data(s, la + lm, data_construct(m, lm));
    if (matches > 1)
      __sa_check(data_size(e) == lm && data_base(e) == s + la + lm + lb, "the first match from the position given is found");
    else
      __sa_check(data_empty(e), "no match is reported where there is none");
    __sa_mark("found");
  }
  else
    __sa_check(data_empty(d), "no match is reported where there is none");
  __sa_check(data_empty(string_find_data(s, data_null())), "an empty match is never found");
  __sa_check(data_empty(string_find_at_data(s, string_size(s), data_construct(m, lm))), "nothing is found at the end");
  finish(s);
}

static void replaced(string s, string t, data r, int all)
{
  char *x = string_null();
  (void) x;
  want = __sa_ghost("wanted contents");
  n = 0;
  put(s, la);
  if (matches > 0)
  {
    put((void *) data_base(r), data_size(r));
    put(s + la + lm, lb);
  }
  if (matches > 1)
  {
    put(all ? (void *) data_base(r) : m, all ? data_size(r) : lm);
    put(s + la + lm + lb + lm, lc);
  }
  verify(t);
}

static void replace(int all, int k)
{
  string s = subject(k), t = string_copy(s);
  size_t lr = __sa_range("replacement", 0, MAX);
  char *x = malloc(lr);
  data r;

  __sa_fill(x, lr, "free:R");
  r = data_construct(x, lr);
  t = all ? string_replace_all_data(t, data_construct(m, lm), r) : string_replace_data(t, data_construct(m, lm), r);
  replaced(s, t, r, all);
  free(x);
  string_free(s);
  finish(t);
  __sa_mark("replace");
}

void ctx_replace_0(void) { replace(0, 0); }
void ctx_replace_1(void) { replace(0, 1); }
void ctx_replace_2(void) { replace(0, 2); }
void ctx_replace_all_0(void) { replace(1, 0); }
void ctx_replace_all_1(void) { replace(1, 1); }
void ctx_replace_all_2(void) { replace(1, 2); }

/* empty match, empty or null replacement */
void ctx_replace_degenerate(void)
{
  int all = __sa_choice(2, "all"), kind = __sa_choice(3, "operands");
  string s = subject(1), t = string_copy(s);
  data r = kind == 1 ? data_null() : data_string("xyz"), f = kind == 2 ? data_null() : data_construct(m, lm);

  __sa_assume(kind != 0);
  t = all ? string_replace_all_data(t, f, r) : string_replace_data(t, f, r);
  if (kind == 2)
  {
    __sa_check(string_size(t) == string_size(s), "replacing an empty match changes nothing");
    __sa_same(t, s, string_size(s) + 1, "replacing an empty match changes nothing");
    __sa_mark("empty match");
  }
  else
  {
    replaced(s, t, r, all);
    __sa_mark("null replacement");
  }
  string_free(s);
  finish(t);
}

/* occurrences next to each other, overlapping, at both ends, and in the replacement */
void ctx_replace_literal(void)
{
  static const char *subjects[] = {"ababab", "aaaaa", "xabaabx", "ab", "", "aab", "abcabcab"};
  static const char *matches[] = {"ab", "aa", "a", "abcabcabc"};
  static const char *replacements[] = {"", "a", "ab", "xaby", "b"};
  const char *x = subjects[__sa_choice(7, "subject")], *f = matches[__sa_choice(4, "match")], *r = replacements[__sa_choice(5, "replacement")];
  int all = __sa_choice(2, "all"), done = 0;
  size_t i, k = 0, lx = strlen(x), lf = strlen(f), lr = strlen(r);
  char expect[64];
  string t;

  for (i = 0; i < lx; )
    if (!(done && !all) && lx - i >= lf && memcmp(x + i, f, lf) == 0)
    {
      memcpy(expect + k, r, lr);
      k += lr;
      i += lf;
      done = 1;
    }
    else
      expect[k ++] = x[i ++];
  t = string_append_data(string_null(), data_string(x));
  t = all ? string_replace_all_data(t, data_string(f), data_string(r)) : string_replace_data(t, data_string(f), data_string(r));
  __sa_check(string_size(t) == k, "a replacement yields the string with the occurrences replaced");
  __sa_same(t, expect, k, "a replacement yields the string with the occurrences replaced");
  string_free(t);
  __sa_no_leaks("string");
}
