/* S01: what was sent is always a beginning of what was written, and in the end all of it. */
#include "sa_stream.h"

static int more;

/* the amounts written: any amount in contexts with few steps, small ones in those with many */
static int large;
static size_t amount(void)
{
  return large ? __sa_range("size", 0, MAX) : written ? 7 + written % 5 : 40;
}

static void check(void)
{
  __sa_check(sent() <= written, "no more is sent than was written");
  __sa_same(__sa_outlog(fd), want, sent(), "the bytes sent are the first of those written, in order");
}

static void respond(void)
{
  check();
  if (!more)
    return;
  more --;
  if (__sa_choice(2, "write from a callback"))
  {
    put(amount());
    if (__sa_choice(2, "flush"))
      flush();
  }
  check();
}

static void on_read(void)
{
  stream_consume(s, data_size(stream_read(s)));
  respond();
}

static void on_write(void)
{
  respond();
}

static void on_close(void)
{
}

static void once(void)
{
  reactor_loop_once();
  check();
}

static void op(int k)
{
  switch (k)
  {
  case 0:
    put(amount());
    break;
  case 1:
    allocate(amount());
    break;
  case 2:
    flush();
    break;
  case 3:
    stream_notify(s);
    break;
  case 4:
    if (__sa_wakes_out(fd))
      once();
    break;
  }
  check();
}

/* from now on the peer takes everything: all that was written is sent */
static void drain(void)
{
  int i;

  more = 0;
  __sa_config("inrounds", 0);
  __sa_config("writes", 1);
  __sa_config("sslwrites", 1);
  __sa_config("nowriteerr", 1);
  for (i = 0; i < 2 && !__sa_broken(fd) && __sa_wakes_out(fd); i ++)
    once();
  if (__sa_broken(fd))
    return;
  flush();
  check();
  if (__sa_wakes_out(fd))
    once();
  __sa_check(__sa_ghost_int("sslfatal") || sent() == written, "once the peer takes everything, everything is sent");
  __sa_mark("everything sent");
}

static void setup(int k, int errors, int writes)
{
  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("maxreads", 1);
  __sa_config("sslreads", 1);
  __sa_config("writes", writes);
  __sa_config("sslwrites", writes);
  __sa_config("nowriteerr", !errors);
  begin(k, STREAM_READ);
}

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

/* any operations after a first write, of which only a part may be sent */
static void partial(int k, int first)
{
  int i;

  setup(k, 0, 3 + MORE);
  put(amount());
  flush();
  check();
  op(first);
  for (i = 0; i < 1 + MORE; i ++)
    op(__sa_choice(5, "operation"));
  drain();
  finish();
}

void ctx_plain_write(void) { partial(PLAIN, 0); }
void ctx_plain_allocate(void) { partial(PLAIN, 1); }
void ctx_plain_flush(void) { partial(PLAIN, 2); }
void ctx_plain_notify(void) { partial(PLAIN, 3); }
void ctx_plain_event(void) { partial(PLAIN, 4); }
void ctx_tls_write(void) { partial(TLS, 0); }
void ctx_tls_allocate(void) { partial(TLS, 1); }
void ctx_tls_flush(void) { partial(TLS, 2); }
void ctx_tls_notify(void) { partial(TLS, 3); }
void ctx_tls_event(void) { partial(TLS, 4); }

/* any amounts: one write, or several before the first flush */
static void amounts(int k)
{
  large = 1;
  setup(k, 0, 2);
  op(__sa_choice(2, "first"));
  if (__sa_choice(2, "more"))
    op(__sa_choice(2, "second"));
  flush();
  check();
  drain();
  finish();
}

void ctx_amounts_plain(void) { amounts(PLAIN); }
void ctx_amounts_tls(void) { amounts(TLS); }

/* writing from callbacks */
static void callbacks(int k)
{
  setup(k, 0, 2 + MORE);
  more = 1 + MORE;
  put(amount());
  flush();
  if (__sa_choice(2, "notify"))
    stream_notify(s);
  if (__sa_wakes_out(fd) || __sa_choice(2, "input"))
    once();
  drain();
  finish();
}

void ctx_callbacks_plain(void) { callbacks(PLAIN); }
void ctx_callbacks_tls(void) { callbacks(TLS); }

/* writing fails */
static void errors(int k)
{
  setup(k, 1, 2 + MORE);
  op(__sa_choice(2, "first"));
  flush();
  check();
  op(__sa_choice(5, "operation"));
  flush();
  drain();
  finish();
}

void ctx_errors_plain(void) { errors(PLAIN); }
void ctx_errors_pipe(void) { errors(PIPE); }
void ctx_errors_tls(void) { errors(TLS); }

/* output that takes many writes */
static void deep(int k)
{
  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("deep", MORE ? 500 : 130);
  __sa_config("piece", 20000);
  begin(k, STREAM_READ);
  put(20000000);
  flush();
  check();
  __sa_check(sent() == written, "output is sent as long as the peer takes it");
  finish();
}

void ctx_deep_plain(void) { deep(PLAIN); }
void ctx_deep_pipe(void) { deep(PIPE); }
void ctx_deep_tls(void) { deep(TLS); }
