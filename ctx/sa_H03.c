/* H03, H04: the HTTP parser, on input of any length and contents. H03 takes any number of fields, H04 follows
   their contents and takes few. */
#include <reactor.h>
#include <string.h>
#include "sa.h"

static char *in;
static size_t n;

static void within(const void *p, size_t len, size_t end, const char *what)
{
  const char *q = p;

  __sa_check(q >= in, "results start within the input consumed");
  __sa_check(len <= end, "results are no longer than the input consumed");
  __sa_check((size_t) (q - in) <= end - len, "results end within the input consumed");
}

static void fields_within(http_field *fields, size_t count, size_t cap, size_t end)
{
  size_t i;

  __sa_check(count <= cap, "no more fields than there are slots");
#ifndef ANYCAP
  for (i = 0; i < count; i ++)
  {
    if (data_base(fields[i].name))
    {
      within(data_base(fields[i].name), data_size(fields[i].name), end, "name");
      __sa_check(data_size(fields[i].name) > 0, "names of fields are not empty");
    }
    else
      __sa_check(data_size(fields[i].name) == 0 && i > 0, "only continuation lines have no name");
    within(data_base(fields[i].value), data_size(fields[i].value), end, "value");
  }
#endif
}

static http_field *slots(size_t cap)
{
  http_field *fields = malloc(cap * sizeof *fields);

#ifdef ANYCAP
  __sa_forget(fields);
#endif
  return fields;
}

static void request(size_t cap)
{
  data method, target;
  http_field *fields = slots(cap);
  size_t count = cap;
  ssize_t r;

  n = __sa_range("size", 0, 0x7fffffff);
  in = __sa_bytes("input", n);
  r = http_read_request_data(data_construct(in, n), &method, &target, fields, &count);
  __sa_check(r == -1 || r == -2 || (r >= 1 && (size_t) r <= n), "the result is an error, incomplete, or a length within the input");
  if (r == -1)
    __sa_mark("malformed");
  else if (r == -2)
    __sa_mark("incomplete");
  else
  {
    __sa_mark("complete");
    within(data_base(method), data_size(method), r, "method");
    __sa_check(data_size(method) > 0, "the method is not empty");
    within(data_base(target), data_size(target), r, "target");
    __sa_check(data_size(target) > 0, "the target is not empty");
    fields_within(fields, count, cap, r);
  }
  free(fields);
}

#ifdef ANYCAP
void ctx_request(void) { request(__sa_range("capacity", 0, 1 << 24)); }
#else
void ctx_request_0(void) { request(0); }
void ctx_request_1(void) { request(1); }
void ctx_request_2(void) { request(2); }
#endif

static void response(size_t cap)
{
  data status;
  int code;
  http_field *fields = slots(cap);
  size_t count = cap;
  stream s;
  ssize_t r;

  n = __sa_range("size", 0, 0x7fffffff);
  in = __sa_bytes("input", n);
  memset(&s, 0, sizeof s);
  s.input.data = in;
  s.input.size = n;
  r = http_read_response(&s, &code, &status, fields, &count);
  __sa_check(r == -1 || r == -2 || (r >= 1 && (size_t) r <= n), "the result is an error, incomplete, or a length within the input");
  if (r > 0)
  {
    __sa_mark("complete response");
    within(data_base(status), data_size(status), r, "status");
    __sa_check(code >= 0 && code <= 999, "status codes have three digits");
    fields_within(fields, count, cap, r);
  }
  free(fields);
}

#ifdef ANYCAP
void ctx_response(void) { response(__sa_range("capacity", 0, 1 << 24)); }
#else
void ctx_response_0(void) { response(0); }
void ctx_response_1(void) { response(1); }
void ctx_response_2(void) { response(2); }
#endif
