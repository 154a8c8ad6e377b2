/* S02: what can be read is what was received minus what was consumed. */
#include "sa_stream.h"

static int parts, menu;
static size_t told_of;                 /* bytes received when the stream last notified */

static size_t received(void)
{
  return __sa_inlen(fd);
}

static void check(void)
{
  data d = stream_read(s);

  __sa_check(data_size(d) == received() - consumed, "what can be read is exactly what was received and not consumed");
  __sa_same(data_base(d), (char *) __sa_inlog(fd) + consumed, data_size(d), "the bytes that can be read are those received, in order");
}

static void consume(void)
{
  size_t n = data_size(stream_read(s)), k = 0;

  switch (__sa_choice(3, "consumed"))
  {
  case 0:
    break;
  case 1:
    if (!parts ++)
    {
      k = __sa_range("consumed", 1, 1UL << 40);
      __sa_assume(k < n);
    }
    else
      k = n > 1;
    __sa_mark("consumed in part");
    break;
  case 2:
    k = n;
    break;
  }
  stream_consume(s, k);
  consumed += k;
  check();
}

static void on_read(void)
{
  __sa_check(received() > told_of, "read notifications bring new bytes");
  told_of = received();
  check();
  consume();
  if (mask & STREAM_WRITE)
    flush();
}

static void on_write(void)
{
  check();
}

static void on_close(void)
{
  __sa_check(told_of == received(), "bytes received are notified before the close");
  check();
}

static void once(void)
{
  reactor_loop_once();
  __sa_check(told_of == received(), "bytes received are notified");
  check();
}

static void run(int k, int rounds, int reads)
{
  int i;

  __sa_config("menu", menu);
  __sa_config("truebits", 1);
  __sa_config("inrounds", rounds);
  __sa_config("maxreads", reads);
  __sa_config("sslreads", reads);
  __sa_config("readfail", k == PLAIN);
  __sa_config("sslwrites", 1);
  begin(k, STREAM_READ);
  check();
  for (i = 0; i < rounds; i ++)
    once();
  if (rounds == 1)
    consume();
  __sa_mark("all rounds");
  finish();
}

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

/* one report of input, of every kind, then another look from outside the callback */
void ctx_one_plain(void) { menu = 1; run(PLAIN, 1, 4 + MORE); }
void ctx_one_pipe(void) { menu = 1; run(PIPE, 1, 4 + MORE); }
void ctx_one_tls(void) { menu = 1; run(TLS, 1, 4 + MORE); }

/* several reports */
void ctx_some_plain(void) { menu = -1; run(PLAIN, 2 + MORE, 3 + MORE); }
void ctx_some_tls(void) { menu = -1; run(TLS, 2 + MORE, 3 + MORE); }

/* input while output is pending, then on the same stream opened again */
static void again(int k, int l)
{
  __sa_config("half", 1);
  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("maxreads", 2);
  __sa_config("sslreads", 3);
  __sa_config("writes", 1);
  __sa_config("sslwrites", 1);
  parts = 1;
  begin(k, STREAM_READ);
  if (__sa_choice(2, "output"))
    put(40);
  once();
  stream_close(s);
  told_of = 0;
  start(l, STREAM_READ);
  check();
  once();
  finish();
}

void ctx_plain_again(void) { again(PLAIN, __sa_choice(2, "mode") ? PLAIN : TLS); }
void ctx_tls_again(void) { again(TLS, __sa_choice(2, "mode") ? PLAIN : TLS); }

/* much input at once */
static void deep(int k)
{
  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("deep", MORE ? 500 : 130);
  begin(k, STREAM_READ);
  once();
  __sa_check(__sa_inlen(fd) >= (MORE ? 500 : 130) * 16384UL, "all the input there is is read");
  finish();
}

void ctx_deep_plain(void) { deep(PLAIN); }
void ctx_deep_pipe(void) { deep(PIPE); }
void ctx_deep_tls(void) { deep(TLS); }
