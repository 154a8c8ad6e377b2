/* S08: what an edge triggered source reported is used to its end.  Every wait of the loop is checked by
   the environment: nothing may be left waiting behind an edge that was used up. */
#include "sa_stream.h"
#include <signal.h>

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

/* ---- streams */
static int acts, shut;

static void act(void)
{
  if (!acts)
    return;
  acts --;
  switch (__sa_choice(5, "action of the callback"))
  {
  case 1:
    put(100);
    flush();
    break;
  case 2:
    stream_notify(s);
    break;
  case 3:
    opened = 0;
    shut = 1;
    stream_close(s);
    break;
  case 4:
    put(100);
    break;
  }
}

static void on_read(void)
{
  size_t n = data_size(stream_read(s));

  __sa_check(n == __sa_inlen(fd) - consumed, "a notification brings everything there was");
  __sa_mark("input");
  switch (__sa_choice(3, "consumes"))
  {
  case 1:
    stream_consume(s, n);
    consumed += n;
    break;
  case 2:
    __sa_assume(n > 1);
    stream_consume(s, 1);
    consumed ++;
    break;
  }
  act();
}

static void on_write(void)
{
  act();
}

static void on_close(void)
{
  opened = 0;
  shut = 1;
  stream_close(s);
}

static void once(void)
{
  reactor_loop_once();
  __sa_nothing_left();
}

static void streams(int k, int first)
{
  int i;

  __sa_config("menu", MORE ? 1 : 0);
  __sa_config("inrounds", 2 + MORE);
  __sa_config("maxreads", 3 + MORE);
  __sa_config("sslreads", 3 + MORE);
  __sa_config("writes", 1 + MORE);
  __sa_config("sslwrites", 1 + MORE);
  __sa_config("truebits", 1);
  acts = 1 + MORE;
  begin(k, STREAM_READ);
  if (first)
  {
    put(100);
    flush();
  }
  for (i = 0; i < 2 + MORE && !shut; i ++)
    once();
  finish();
}

void ctx_streams_plain(void) { streams(PLAIN, 0); }
void ctx_streams_pipe(void) { streams(PIPE, 0); }
void ctx_streams_tls(void) { streams(TLS, 0); }
void ctx_output_plain(void) { streams(PLAIN, 1); }
void ctx_output_pipe(void) { streams(PIPE, 1); }
void ctx_output_tls(void) { streams(TLS, 1); }

/* input that takes many reads: whatever the number of full ones, the last is not one */
static void deep(int k)
{
  static const int many[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513};
  int n = sizeof many / sizeof *many;

  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 1);
  __sa_config("deep", many[__sa_choice(n, "full reads")]);
  begin(k, STREAM_READ);
  once();
  finish();
}

void ctx_deep_plain(void) { deep(PLAIN); }
void ctx_deep_pipe(void) { deep(PIPE); }
void ctx_deep_tls(void) { deep(TLS); }

/* ---- listening sockets */
static server v;
static int answers;

static void server_callback(reactor_event *e)
{
  server_request *r = (server_request *) e->data;

  __sa_mark("request");
  if (answers && __sa_choice(2, "answer"))
  {
    answers --;
    server_ok(r, data_string("t"), data_string("b"));
  }
  else
    server_release(r);
}

static void stop(void)
{
  server_shutdown(&v);
  server_destruct(&v);
  reactor_destruct();
}

static void serve(int t)
{
  __sa_config("menu", -1);
  __sa_config("truebits", 1);
  __sa_config("fixeddate", 1);
  reactor_construct();
  tls = __sa_sslctx();
  server_construct(&v, server_callback, &v);
  server_open(&v, __sa_listen(), t ? tls : NULL);
}

/* many connections behind one edge */
static void burst(int t)
{
  static const int many[] = {1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513};
  int n = sizeof many / sizeof *many, k = many[__sa_choice(MORE ? n : n - 9, "connections")];

  serve(t);
  __sa_config("inrounds", 0);
  __sa_config("accepts", k);
  __sa_config("acceptexact", k);
  once();
  if (__sa_ghost_int("accepted") == (uint64_t) k)
    __sa_mark("connections accepted");
  stop();
}

void ctx_burst_plain(void) { burst(0); }
void ctx_burst_tls(void) { burst(1); }

/* a few, over several events, with traffic */
static void traffic(int t)
{
  int i;

  serve(t);
  __sa_config("inrounds", 1);
  __sa_config("requests", 1);
  __sa_config("accepts", 2);
  __sa_config("acceptburst", 2);
  __sa_config("maxreads", 1 + MORE);
  __sa_config("sslreads", 1 + MORE);
  __sa_config("writes", 1);
  __sa_config("sslwrites", 1);
  __sa_config("nowriteerr", 1);
  answers = 1;
  for (i = 0; i < 2 + MORE; i ++)
    once();
  __sa_mark("traffic");
  stop();
}

void ctx_traffic_plain(void) { traffic(0); }
void ctx_traffic_tls(void) { traffic(1); }

/* ---- timers */
static timer *tm;
static int set;

static void timer_event(reactor_event *e)
{
  __sa_mark("timer expired");
  switch (__sa_choice(3, "action of the timer's callback"))
  {
  case 1:
    timer_set(tm, 1000, 0);
    break;
  case 2:
    timer_clear(tm);
    set = 0;
    break;
  }
}

void ctx_timer(void)
{
  int i;

  __sa_config("lateexp", 2 + MORE);
  reactor_construct();
  tm = malloc(sizeof *tm);
  timer_construct(tm, timer_event, NULL);
  timer_set(tm, 0, 1000);
  set = 1;
  for (i = 0; i < 3 && set; i ++)
    once();
  timer_destruct(tm);
  free(tm);
  reactor_destruct();
}

/* ---- watchers */
static notify *nt;
static int stopped;

static void notify_event_callback(reactor_event *e)
{
  __sa_mark("file system event");
  if (__sa_choice(2, "clear"))
  {
    notify_clear(nt);
    stopped = 1;
  }
}

void ctx_watcher(void)
{
  int i;

  __sa_config("records", 3 + MORE);
  __sa_config("oddwd", 0);
  __sa_config("watchfail", 0);
  reactor_construct();
  nt = malloc(sizeof *nt);
  notify_construct(nt, notify_event_callback, NULL);
  notify_watch(nt, "path", 1);
  for (i = 0; i < 2 && !stopped; i ++)
    once();
  notify_destruct(nt);
  free(nt);
  reactor_destruct();
}

/* ---- events */
static event *ev;
static int sent_signals, got_signals;

static void event_event(reactor_event *e)
{
  got_signals += e->data;
  __sa_mark("signal");
}

void ctx_event(void)
{
  int i, n = 1 + __sa_choice(4, "signals");

  reactor_construct();
  ev = malloc(sizeof *ev);
  event_construct(ev, event_event, NULL);
  event_open(ev);
  for (i = 0; i < n; i ++)
    event_signal(ev);
  __sa_config("noidle", 1);
  for (i = 0; i < n && got_signals < n; i ++)
    reactor_loop_once();
  __sa_check(got_signals == n, "every signal is delivered");
  event_destruct(ev);
  free(ev);
  reactor_destruct();
}
