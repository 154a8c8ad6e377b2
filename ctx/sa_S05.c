/* S05: a TLS session lives exactly as long as the connection it was made for; a stream opened again,
   in either mode, is a fresh one; plain streams are not concerned. */
#include "sa_stream.h"

static stream o;                        /* another stream */
static int okind, ofd, oopened, otag, oreads;
static int act;                         /* what the next callback does */

static void sessions(void)
{
  __sa_check(__sa_ssl_live() == (opened && kind == TLS) + (oopened && okind == TLS), "every open TLS stream has a session and nobody else");
}

static void nothing_old(void)
{
  __sa_check(data_size(stream_read(s)) == __sa_inlen(fd) - consumed, "a stream opened again has no old input");
  __sa_check(sent() <= written, "a stream opened again sends no old output");
  __sa_same(__sa_outlog(fd), want, sent(), "a stream opened again sends what is written to it");
}

static void shut(void)
{
  opened = 0;
  stream_close(s);
  sessions();
}

static void act_now(void)
{
  int a = act;

  act = 0;
  switch (a)
  {
  case 1:
    shut();
    break;
  case 2:
    shut();
    start(__sa_choice(2, "opened again as") ? PLAIN : TLS, STREAM_READ);
    sessions();
    break;
  case 3:
    oopened = 0;
    stream_close(&o);
    sessions();
    break;
  }
}

static void on_read(void)
{
  nothing_old();
  if (!act)
  {
    stream_consume(s, data_size(stream_read(s)));
    consumed = __sa_inlen(fd);
  }
  act_now();
}

static void on_write(void)
{
  __sa_check(asked, "a stream opened again has no old request for a notification");
  asked = 0;
  act_now();
}

static void on_close(void)
{
  act_now();
}

static void other(reactor_event *e)
{
  __sa_check(e->state == &otag && oopened, "notifications of the other stream");
  if (e->type == STREAM_READ)
  {
    oreads ++;
    stream_consume(&o, data_size(stream_read(&o)));
  }
}

static void setup(int rounds, int writes)
{
  __sa_config("menu", 0);
  __sa_config("half", 1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", rounds);
  __sa_config("maxreads", 4);
  __sa_config("sslreads", 1);
  __sa_config("sslwrites", writes);
  __sa_config("writes", writes);
  __sa_config("nowriteerr", 1);
}

static void use(void)
{
  switch (__sa_choice(5, "use"))
  {
  case 0:
    break;
  case 1:
    put(40);
    flush();
    break;
  case 2:
    put(40);
    break;
  case 3:
    stream_notify(s);
    asked = 1;
    break;
  case 4:
    reactor_loop_once();
    break;
  }
  if (opened)
    nothing_old();
  sessions();
}

static int mode(void)
{
  return __sa_choice(2, "mode") ? PLAIN : TLS;
}

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

/* opened, used, closed or destroyed, and opened again */
static void again(int k, int l)
{
  setup(1, 1);
  __sa_config("menu", -1);
  begin(k, STREAM_READ);
  sessions();
  use();
  if (MORE)
    use();
  if (__sa_choice(2, "destroyed"))
  {
    opened = 0;
    stream_destruct(s);
    sessions();
    stream_construct(s, callback, &tag);
  }
  else
    shut();
  if (__sa_choice(2, "twice"))
    stream_close(s);
  sessions();
  start(l, STREAM_READ);
  sessions();
  nothing_old();
  use();
  reactor_loop_once();
  if (opened)
    nothing_old();
  sessions();
  shut();
  shut();
  __sa_mark("closed twice");
  finish();
}

void ctx_tls_tls(void) { again(TLS, TLS); }
void ctx_tls_plain(void) { again(TLS, PLAIN); }
void ctx_plain_tls(void) { again(PLAIN, TLS); }
void ctx_plain_plain(void) { again(PLAIN, PLAIN); }

/* closed, or opened again, from within its callbacks */
static void inside(int k, int what)
{
  setup(1, 1);
  act = what;
  begin(k, STREAM_READ);
  if (__sa_choice(2, "output"))
    put(40);
  if (__sa_choice(2, "notify"))
  {
    stream_notify(s);
    asked = 1;
  }
  reactor_loop_once();
  sessions();
  if (opened)
  {
    nothing_old();
    put(20);
    flush();
    nothing_old();
    shut();
  }
  __sa_mark("from inside");
  finish();
}

void ctx_inside_tls_close(void) { inside(TLS, 1); }
void ctx_inside_tls_again(void) { inside(TLS, 2); }
void ctx_inside_plain_again(void) { inside(PLAIN, 2); }

/* two streams */
static void pair(int k, int l)
{
  int i;

  setup(1, 1);
  begin(k, STREAM_READ);
  okind = l;
  ofd = __sa_sock();
  stream_construct(&o, other, &otag);
  oopened = 1;
  stream_open(&o, ofd, STREAM_READ, l == TLS ? tls : NULL);
  sessions();
  act = 3 * __sa_choice(2, "closes the other");
  for (i = 0; i < 1 + MORE; i ++)
    reactor_loop_once();
  sessions();
  if (__sa_choice(2, "order"))
  {
    oopened = 0;
    stream_destruct(&o);
    sessions();
    put(40);
    flush();
    nothing_old();
    shut();
  }
  else
  {
    shut();
    if (oopened)
    {
      stream_write(&o, data_string("abc"));
      stream_flush(&o);
      oopened = 0;
      stream_close(&o);
    }
    sessions();
    stream_destruct(&o);
  }
  __sa_mark("two streams");
  finish();
}

void ctx_pair_tls_plain(void) { pair(TLS, PLAIN); }
void ctx_pair_plain_tls(void) { pair(PLAIN, TLS); }
void ctx_pair_tls_tls(void) { pair(TLS, TLS); }
