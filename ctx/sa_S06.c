/* S06: while the loop waits on a TLS stream with queued output, the last attempt to write has reported what it
   waits for, and the stream is registered for it. */
#include "sa_stream.h"

static int more;
static size_t due;                     /* the output up to here was written before the last flush or write event */

static void check(void)
{
  int events = __sa_ep_events(fd), w = __sa_ghost_int("sslwwant");

  if (__sa_ghost_int("sslfatal"))
    return;
  if (sent() < due)
  {
    __sa_check(w, "queued output is written until it is gone or the TLS layer has to wait");
    if (w)
    {
      __sa_check(!!(events & EPOLLOUT), "a TLS stream with queued output waits for write readiness");
      __sa_check(w == 2 || events & EPOLLIN, "a TLS stream whose output waits for input waits for read readiness");
      if (w == 2)
        __sa_check(__sa_wakes_out(fd), "the write readiness that TLS output waits for will be reported");
    }
    __sa_mark("output waits");
  }
  if (__sa_ghost_int("sslwant") == 2)
  {
    __sa_check(!!(events & EPOLLOUT) && __sa_wakes_out(fd), "a TLS layer that waits to write will be told");
    __sa_mark("layer waits to write");
  }
}

static void respond(void)
{
  if (!more)
    return;
  more --;
  switch (__sa_choice(3, "from a callback"))
  {
  case 0:
    break;
  case 1:
    put(40);
    flush();
    due = written;
    break;
  case 2:
    stream_notify(s);
    break;
  }
}

static void on_read(void)
{
  stream_consume(s, data_size(stream_read(s)));
  respond();
}

static void on_write(void)
{
  respond();
}

static void on_close(void)
{
}

static void once(void)
{
  int i;

  reactor_loop_once();
  for (i = 0; i < __sa_batch(); i ++)
    if (__sa_batch_fd(i) == fd && __sa_batch_bits(i) & EPOLLOUT)
      due = written;
  check();
}

static void op(int k)
{
  switch (k)
  {
  case 0:
    put(40);
    flush();
    due = written;
    break;
  case 1:
    once();
    break;
  case 2:
    put(20);
    break;
  case 3:
    stream_notify(s);
    break;
  case 4:
    flush();
    due = written;
    break;
  }
  check();
}

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

static void run(int first, int second, int cb, int n)
{
  int i;

  __sa_config("menu", MORE - 1);
  __sa_config("half", 1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 2);
  __sa_config("sslreads", 2);
  __sa_config("sslwrites", 3 + MORE);
  more = cb;
  begin(TLS, STREAM_READ);
  check();
  op(first);
  op(second);
  for (i = 0; i < n + MORE; i ++)
    op(__sa_choice(5, "operation"));
  if (__sa_wakes_out(fd))
    once();
  __sa_mark("done");
  finish();
}

void ctx_flush_event(void) { run(0, 1, 0, 1); }
void ctx_flush_flush(void) { run(0, 0, 0, 1); }
void ctx_flush_write(void) { run(0, 2, 0, 1); }
void ctx_flush_notify(void) { run(0, 3, 0, 1); }
void ctx_event_event(void) { run(1, 1, 0, 1); }
void ctx_event_flush(void) { run(1, 0, 0, 1); }
void ctx_event_write(void) { run(1, 2, 0, 1); }
void ctx_event_notify(void) { run(1, 3, 0, 1); }
void ctx_write_notify(void) { run(2, 3, 0, 1); }
void ctx_notify_event(void) { run(3, 1, 0, 1); }
void ctx_callbacks(void) { run(1, 1, 1, 0); }

/* two TLS streams: what one does has no influence on the other */
static stream o;
static int otag;

static void other(reactor_event *e)
{
  if (e->type == STREAM_READ)
    stream_consume(&o, data_size(stream_read(&o)));
}

void ctx_two(void)
{
  __sa_config("menu", -1);
  __sa_config("half", 1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("sslreads", 2);
  __sa_config("sslwrites", 2 + MORE);
  begin(TLS, STREAM_READ);
  stream_construct(&o, other, &otag);
  stream_open(&o, __sa_sock(), STREAM_READ, tls);
  stream_write(&o, data_string("abc"));
  stream_flush(&o);
  put(40);
  flush();
  reactor_loop_once();
  stream_destruct(&o);
  __sa_mark("two");
  finish();
}
