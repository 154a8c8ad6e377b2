/* S03: an open stream waits for write readiness exactly while it has something to send, a write
        notification to give or a TLS layer waiting to write.
   S04 (-DNOTIFY): write notifications come once per request and only after all output is sent. */
#include "sa_stream.h"

static int more;
static size_t due;                     /* the output up to here was written before the last flush or write event */
static int wrote;                      /* something was written since */

static size_t amount(void)
{
  return written ? 7 + written % 5 : 40;
}

static int fatal(void)
{
  return kind == TLS && __sa_ghost_int("sslfatal");
}

static void check(void)
{
  int events = __sa_ep_events(fd);

#ifndef NOTIFY
  __sa_check(events != -1, "an open stream is registered");
  __sa_check(!!(events & EPOLLIN) == !!(mask & STREAM_READ), "read interest is what the stream was opened with");
  if (!fatal() && (sent() < due || asked || (kind == TLS && __sa_ghost_int("sslwant") == 2)))
    __sa_check(!!(events & EPOLLOUT), "a stream with something to do when writable waits for it");
  if (sent() == written && !asked && !(kind == TLS && __sa_ghost_int("sslwant") == 2))
    __sa_check(!(events & EPOLLOUT), "a stream with nothing to do when writable does not wait for it");
  if (!__sa_broken(fd) && !fatal() && (events & EPOLLOUT) && (kind == PLAIN ? sent() < due : __sa_ghost_int("sslwant") == 2))
    __sa_check(__sa_wakes_out(fd), "the report of write readiness a stream waits for will come");
#else
  if (!__sa_broken(fd) && !fatal() && asked && sent() == written)
    __sa_check((events & EPOLLOUT) && __sa_wakes_out(fd), "a requested notification of a stream without queued output will come");
#endif
}

static void ask(void)
{
  stream_notify(s);
  asked = 1;
}

static void respond(void)
{
  if (!more)
    return;
  more --;
  switch (__sa_choice(3, "from a callback"))
  {
  case 0:
    break;
  case 1:
    put(amount());
    flush();
    due = written;
    break;
  case 2:
    ask();
    break;
  }
}

static void on_read(void)
{
  stream_consume(s, data_size(stream_read(s)));
  respond();
}

static void on_write(void)
{
#ifdef NOTIFY
  __sa_check(asked, "write notifications are made on request only");
  __sa_check(sent() == written, "write notifications come when everything is sent");
#endif
  __sa_mark("write notification");
  asked = 0;
  respond();
}

static void on_close(void)
{
}

static void once(void)
{
  int i, out = 0, was = asked && !more;

  reactor_loop_once();
  for (i = 0; i < __sa_batch(); i ++)
    if (__sa_batch_fd(i) == fd && __sa_batch_bits(i) & EPOLLOUT)
      out = 1;
  if (out)
    due = written;
#ifdef NOTIFY
  if (out)
    __sa_check(!(was && asked && sent() == written), "a notification due is given when the stream becomes writable");
#endif
  check();
}

static void again(int k, int m)
{
  stream_close(s);
  asked = 0;
  due = 0;
  start(k, m);
  check();
}

static void op(int k)
{
  switch (k)
  {
  case 0:
    put(amount());
    flush();
    due = written;
    break;
  case 1:
    ask();
    break;
  case 2:
    put(amount());
    break;
  case 3:
    if (mask & STREAM_READ || __sa_wakes_out(fd))
      once();
    break;
  case 4:
    flush();
    due = written;
    break;
  }
  check();
}

static void setup(int errors, int writes)
{
  __sa_config("half", 1);
  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("maxreads", 1);
  __sa_config("sslreads", 1);
  __sa_config("writes", writes);
  __sa_config("sslwrites", writes);
  __sa_config("nowriteerr", !errors);
  due = 0;
}

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

/* in the end the peer takes everything and asked for notifications come */
static void drain(void)
{
  int i;

  __sa_config("inrounds", 0);
  __sa_config("writes", 1);
  __sa_config("sslwrites", 1);
  __sa_config("nowriteerr", 1);
  more = 0;
  flush();
  due = written;
  check();
  for (i = 0; i < 2 && !__sa_broken(fd) && !fatal() && __sa_wakes_out(fd); i ++)
    once();
  if (!__sa_broken(fd) && !fatal())
  {
#ifdef NOTIFY
    __sa_check(!asked, "every requested notification comes");
#endif
    __sa_mark("settled");
  }
}

static void ops(int k, int first, int early, int reading)
{
  int i, m = k == TLS || reading || __sa_choice(2, "reading") ? STREAM_READ : 0;

  setup(0, 2 + MORE);
  more = reading;
  if (early)
  {
    reactor_construct();
    tls = __sa_sslctx();
    create();
    stream_notify(s);
    start(k, m);
    asked = 1;
  }
  else
    begin(k, m);
  check();
  op(first);
  for (i = 0; i < 2 - early + MORE; i ++)
    op(__sa_choice(5, "operation"));
  drain();
  finish();
}

void ctx_plain_flush(void) { ops(PLAIN, 0, 0, 0); }
void ctx_plain_ask(void) { ops(PLAIN, 1, 0, 0); }
void ctx_plain_write(void) { ops(PLAIN, 2, 0, 0); }
void ctx_plain_early(void) { ops(PLAIN, __sa_choice(5, "first"), 1, 0); }
void ctx_plain_callbacks(void) { ops(PLAIN, 3, 0, 1); }
void ctx_pipe(void) { ops(PIPE, 0, 0, 0); }
void ctx_tls_flush(void) { ops(TLS, 0, 0, 0); }
void ctx_tls_ask(void) { ops(TLS, 1, 0, 0); }
void ctx_tls_write(void) { ops(TLS, 2, 0, 0); }
void ctx_tls_early(void) { ops(TLS, __sa_choice(5, "first"), 1, 0); }
void ctx_tls_callbacks(void) { ops(TLS, 3, 0, 1); }

/* errors, and opening again */
static void reopened(int k)
{
  setup(1, 2 + MORE);
  begin(k, STREAM_READ);
  op(__sa_choice(2, "before"));
  if (__sa_choice(2, "event"))
    once();
  __sa_config("nowriteerr", 1);
  again(__sa_choice(2, "mode") ? PLAIN : TLS, STREAM_READ);
  op(__sa_choice(2, "after"));
  if (kind != TLS)
    drain();
  else if (__sa_wakes_out(fd))
    once();
  finish();
}

void ctx_plain_reopened(void) { reopened(PLAIN); }
void ctx_tls_reopened(void) { reopened(TLS); }
