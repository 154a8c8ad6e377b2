/* S07: nothing a peer does can abort the process.  Any outcome of reading, writing, accepting and of the
   TLS layer and any combination of event bits, for streams that echo and for servers; only failed
   assertions, fatal signals and wrong memory accesses are judged. */
#include "sa_stream.h"

static int simple, budget;

static void shut(void)
{
  opened = 0;
  if (simple || __sa_choice(2, "freed"))
  {
    stream_destruct(s);
    free(s);
    s = NULL;
  }
  else
    stream_close(s);
  __sa_mark("closed in callback");
}

static void echo(void)
{
  data d = stream_read(s);
  size_t n = data_size(d);

  if (!n)
    return;
  stream_write(s, d);
  stream_consume(s, !simple && __sa_choice(2, "partly") ? n / 2 : n);
  stream_flush(s);
  __sa_mark("echoed");
}

static void on_read(void)
{
  switch (__sa_choice(3, "on data"))
  {
  case 0: echo(); break;
  case 1: echo(); if (budget -- > 0) stream_notify(s); break;
  case 2: shut(); break;
  }
}

static void on_write(void)
{
  if (__sa_choice(2, "on room"))
    shut();
  else
  {
    stream_write(s, data_string("more"));
    stream_flush(s);
    __sa_mark("written on room");
  }
}

static void on_close(void)
{
  shut();
  __sa_mark("peer closed");
}

#ifdef THOROUGH
#define ROUNDS 3
#define MORE 0
#else
#define ROUNDS 2
#define MORE (k != PIPE)
#endif

static void run(int k, int menu, int rounds)
{
  int i;

  simple = menu == 2 || MORE;
  __sa_config("sigpipe", 1);
  __sa_config("menu", menu);
  __sa_config("half", 1);
  __sa_config("maxreads", rounds + 1);
  __sa_config("writes", 2);
  __sa_config("sslreads", 1);
  __sa_config("sslwrites", 2);
  __sa_config("inrounds", rounds);
  budget = !simple;
  begin(k, STREAM_READ);
  if (__sa_choice(2, "written first"))
  {
    stream_write(s, data_construct(want, 1000));
    if (__sa_choice(2, "flushed first"))
      stream_flush(s);
    else
      stream_notify(s);
  }
  for (i = 0; i < rounds && s && opened; i ++)
    reactor_loop_once();
  opened = 0;
  if (s)
  {
    stream_destruct(s);
    free(s);
  }
  reactor_destruct();
  __sa_mark("stream survived");
}

void ctx_plain_bits(void) { run(PLAIN, 2, 1); }
void ctx_pipe_bits(void) { run(PIPE, 2, 1); }
void ctx_tls_bits(void) { run(TLS, 2, 1); }
void ctx_plain(void) { run(PLAIN, 0, ROUNDS); }
void ctx_pipe(void) { run(PIPE, 0, ROUNDS); }
void ctx_tls(void) { run(TLS, 1, ROUNDS); }

/* servers */
static server v;
static server_request *held;

static void request(reactor_event *e)
{
  server_request *r = (server_request *) e->data;

  switch (__sa_choice(4, "request"))
  {
  case 0: server_ok(r, data_string("text/plain"), data_string("body")); break;
  case 1: if (held) server_not_found(r); else held = r; __sa_mark("held"); break;
  case 2: server_close(r); server_release(r); break;
  case 3: server_bad_request(r); break;
  }
  __sa_mark("requested");
}

static void serve(int t, int listening, int menu, int rounds)
{
  int i;

  __sa_config("sigpipe", 1);
  __sa_config("menu", menu);
  __sa_config("half", 1);
  __sa_config("maxreads", 2);
  __sa_config("writes", 2);
  __sa_config("sslreads", 1);
  __sa_config("sslwrites", 2);
  __sa_config("inrounds", rounds);
  __sa_config("requests", 2);
  __sa_config("badreq", 1);
  __sa_config("fixeddate", 1);
  __sa_config("accepts", listening ? 2 : 0);
  __sa_config("accepterr", 1);
  __sa_config("quiet", 1);
  reactor_construct();
  tls = __sa_sslctx();
  server_construct(&v, request, NULL);
  if (listening)
    server_open(&v, __sa_listen(), t ? tls : NULL);
  else
  {
    v.ssl_ctx = t ? tls : NULL;
    server_accept(&v, __sa_sock());
  }
  for (i = 0; i < rounds; i ++)
    reactor_loop_once();
  if (held)
    server_ok(held, data_null(), data_string("late"));
  server_destruct(&v);
  reactor_destruct();
  __sa_mark("server survived");
}

void ctx_server_bits(void) { serve(0, 0, 2, 1); }
void ctx_server_tls_bits(void) { serve(1, 0, 2, 1); }
void ctx_server(void) { serve(0, 0, 0, ROUNDS); }
void ctx_server_tls(void) { serve(1, 0, 0, ROUNDS); }
void ctx_accepting(void) { serve(0, 1, 0, ROUNDS); }
void ctx_accepting_tls(void) { serve(1, 1, 0, ROUNDS); }
