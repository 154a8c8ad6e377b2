/* The server.  One set of operations, observed with respect to one property per build:
   R01 LIFE, R02 ORDER, R03 BYTES, R04 BAD, R05 CLOSED, R07 DOWN. */
#include <reactor.h>
#include <sys/epoll.h>
#include <string.h>
#include "sa.h"

enum { LIFE = 1, ORDER, BYTES, BAD, CLOSED, DOWN };
#define on(x) (RULE == (x))

static server v;
static int vtag, up, tlsmode;
static SSL_CTX *tls;

/* connections the application knows */
struct conn
{
  int fd, uid;
  server_request *r;
  int held;                            /* the application holds a request */
  int extra;                           /* additional holds */
  int count;                           /* requests handed over */
  int answered;
  int cut;                             /* closed by the application */
  size_t next;                         /* where the next request starts */
  int inside;
};
static struct conn c[2];
static int conns, policies, bads;

static int is_open(struct conn *k)
{
  return __sa_uid_open(k->uid);
}

static struct conn *find(int fd)
{
  int i, uid = __sa_fd_uid(fd);

  for (i = 0; i < conns; i ++)
    if (c[i].uid == uid)
      return &c[i];
  if (conns == sizeof c / sizeof *c)
    __sa_assume(0);
  c[conns].fd = fd;
  c[conns].uid = uid;
  conns ++;
  return &c[conns - 1];
}

static data letter(int i)
{
  return data_construct("ABCDEFGH" + i, 1);
}

/* the size of a response with a body of one letter */
static size_t reply_size(void)
{
  static size_t n;
  stream s;

  if (!n)
  {
    stream_construct(&s, NULL, NULL);
    http_write_response(&s, data_string("200 OK"), data_construct("xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 29), data_null(), letter(0));
    n = buffer_size(&s.output);
    stream_destruct(&s);
  }
  return n;
}

/* every response so far is there, in the order of the requests */
static void replies(struct conn *k)
{
  size_t n = reply_size();
  int i;

  if (!on(ORDER) || !is_open(k))
    return;
  __sa_check(__sa_uid_outlen(k->uid) <= n * k->answered, "nothing but the responses is sent");
  for (i = 0; i < k->answered; i ++)
    if (__sa_uid_outlen(k->uid) >= n * (i + 1))
      __sa_same((char *) __sa_uid_outlog(k->uid) + n * (i + 1) - 1, data_base(letter(i)), 1, "responses are sent in the order of the requests");
}

static void answer(struct conn *k, int how)
{
  server_request *r = k->r;
  int open = is_open(k), ctl = __sa_ghost_int("epseq");
  size_t out = __sa_uid_outlen(k->uid);

  if (on(LIFE))
    __sa_live(r, "a held request is valid memory");
  k->held = 0;
  k->answered ++;
  if (how)
    k->cut = 1;
  switch (how)
  {
  case 0:
    server_ok(r, data_null(), letter(k->answered - 1));
    break;
  case 1:
    server_bad_request(r);
    break;
  case 2:
    k->answered --;
    server_close(r);
    if (on(CLOSED))
      server_close(r);
    __sa_check(!is_open(k), "a request closed by the application loses its connection");
    server_release(r);
    break;
  case 3:
    server_not_found(r);
    break;
  case 4:
    server_respond(r, data_string("302 Found"), data_string("text/plain"), data_string("body"));
    break;
  case 5:
    k->answered --;
    server_release(r);
    break;
  }
  if (on(CLOSED) && !open)
  {
    __sa_check(!is_open(k) && __sa_uid_outlen(k->uid) == out && (int) __sa_ghost_int("epseq") == ctl, "responding to a closed request sends nothing and touches no descriptor");
    if (!k->extra)
      __sa_check(!__sa_is_live(r), "the last hold on a closed request ends by responding and frees it");
    __sa_mark("R05: answered when closed");
  }
  if (on(CLOSED) && open && how != 2)
    __sa_mark("R05: answered when open");
}

static void down(void)
{
  up = 0;
  server_shutdown(&v);
  if (on(DOWN))
  {
    int i;
    for (i = 0; i < conns; i ++)
      __sa_check(!is_open(&c[i]), "shutting down closes every connection");
    __sa_check(__sa_find_fd("sock", 0) == -1, "shutting down closes every connection");
    __sa_check(__sa_find_fd("listen", 0) == -1, "shutting down closes the listening descriptor");
    __sa_check(__sa_find_fd("timerfd", 0) == -1, "shutting down closes the timer");
    __sa_mark("R07: shut down");
  }
}

static int downs;

static void callback(reactor_event *e)
{
  server_request *r = (server_request *) e->data;
  int fd = __sa_ghost_int("parse.fd"), how;
  struct conn *k;

  __sa_check(e->state == &vtag, "the callback gets its own state");
  if (on(BYTES))
    __sa_check(fd != -1 && __sa_ghost_int("parse.one"), "requests are parsed from the connection's input");
  __sa_assume(fd != -1);
  k = find(fd);
  if (on(LIFE))
    __sa_live(r, "a request handed over is valid memory");
  if (on(DOWN))
    __sa_check(up, "a server shut down hands over no requests");
  if (on(BAD))
    __sa_check((int64_t) __sa_ghost_int("parse.res") > 0, "only complete and well formed requests are handed over");
  if (on(ORDER))
    __sa_check(!k->held, "the next request is handed over after the response to the previous one");
  if (on(BYTES))
  {
    __sa_check(__sa_ghost_int("parse.pos") == k->next, "a request is parsed from the bytes following the previous one");
    __sa_check(__sa_ghost_int("parse.whole"), "all the bytes received are given to the parser");
  }
  k->next += __sa_ghost_int("parse.res");
  k->r = r;
  k->held = 1;
  k->count ++;
  switch (policies == 1 ? __sa_choice(2, "policy") : policies == 2 ? 1 : policies == 3 ? __sa_choice(6, "policy") : 0)
  {
  case 0:
    answer(k, 0);
    break;
  case 1:
    __sa_mark("held");
    break;
  case 2:
    answer(k, 1);
    break;
  case 3:
    answer(k, 2);
    break;
  case 4:
    server_hold(r);
    k->extra ++;
    answer(k, 0);
    break;
  case 5:
    if (!downs ++)
      down();
    break;
  }
}

/* what must be true when nothing is going on */
static void settled(struct conn *k)
{
  size_t rest;

  replies(k);
  if (on(LIFE) && (k->held || k->extra))
    __sa_live(k->r, "a held request is valid memory");
  if (!is_open(k))
    return;
  rest = __sa_inlen(k->fd) - k->next;
  if (on(BYTES) && !k->held && rest)
  {
    __sa_check((size_t) __sa_parsed(k->uid, 0) == k->next && (size_t) __sa_parsed(k->uid, 1) == rest && __sa_parsed(k->uid, 2) == -2, "bytes that may hold a complete request have been parsed");
    __sa_mark("R03: incomplete request kept");
  }
  if (on(ORDER) && !k->held)
    __sa_check(__sa_uid_outlen(k->uid) == reply_size() * k->answered, "every response is sent");
}

static size_t bad_size(void)
{
  static size_t n;
  stream s;

  if (!n)
  {
    stream_construct(&s, NULL, NULL);
    http_write_response(&s, data_string("400 Bad Request"), data_construct("xxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 29), data_null(), data_null());
    n = buffer_size(&s.output);
    stream_destruct(&s);
  }
  return n;
}

/* the connections there are, and what was known of them before the operation */
static void sync(void)
{
  int i, fd;

  for (i = 0; (fd = __sa_find_fd("sock", i)) != -1; i ++)
    (void) find(fd);
}

static struct { size_t out; int parses, answered, count; } before[2];

static void begin(void)
{
  int i;

  sync();
  for (i = 0; i < conns; i ++)
  {
    before[i].out = __sa_uid_outlen(c[i].uid);
    before[i].parses = __sa_parsed(c[i].uid, 3);
    before[i].answered = c[i].answered;
    before[i].count = c[i].count;
  }
}

static void end(void)
{
  static const char start[] = "HTTP/1.1 400 ";
  int i;
  size_t out;

  sync();
  for (i = 0; i < conns; i ++)
  {
    settled(&c[i]);
    if (!on(BAD) || __sa_parsed(c[i].uid, 3) == before[i].parses)
      continue;
    out = before[i].out + (c[i].answered - before[i].answered) * reply_size();
    if (__sa_parsed(c[i].uid, 2) == -1)
    {
      __sa_check(!is_open(&c[i]), "a connection with a malformed request is closed");
      __sa_check(__sa_uid_outlen(c[i].uid) == out + bad_size(), "a malformed request is answered with exactly one response");
      __sa_same((char *) __sa_uid_outlog(c[i].uid) + __sa_uid_outlen(c[i].uid) - bad_size(), start, sizeof start - 1, "a malformed request is answered with a response with status 400");
      __sa_mark("R04: malformed");
    }
    else if (__sa_parsed(c[i].uid, 2) == -2)
    {
      __sa_check(is_open(&c[i]), "a connection with an incomplete request stays open");
      __sa_check(__sa_uid_outlen(c[i].uid) == out, "an incomplete request is not answered");
      __sa_mark("R04: incomplete");
    }
  }
}

static void once(void)
{
  begin();
  reactor_loop_once();
  end();
}

static int op(int o)
{
  struct conn *k = conns ? &c[conns > 1 ? __sa_choice(conns, "connection") : 0] : NULL;

  begin();
  switch (o)
  {
  case 0:
    reactor_loop_once();
    break;
  case 1:
    if (!k || !k->held)
      return 0;
    answer(k, on(CLOSED) ? __sa_choice(6, "response") : on(LIFE) ? __sa_choice(3, "response") : 0);
    break;
  case 2:
    if (!up)
      return 0;
    down();
    break;
  case 3:
    if (!k || !k->held || !is_open(k))
      return 0;
    server_close(k->r);
    k->cut = 1;
    __sa_check(!is_open(k), "closing a request closes its connection");
    break;
  case 4:
    if (!k || !k->extra)
      return 0;
    k->extra --;
    server_release(k->r);
    break;
  }
  end();
  return 1;
}

static void setup(int t)
{
  tlsmode = t;
  __sa_config("menu", on(LIFE) || on(CLOSED) || on(DOWN) ? 0 : -1);
  __sa_config("fixeddate", 1);
  __sa_config("truebits", 1);
  __sa_config("inrounds", 2);
  __sa_config("maxreads", 3);
  __sa_config("sslreads", 1);
  __sa_config("fullwrites", 1);
  __sa_config("requests", 3);
  __sa_config("badreq", on(BAD));
  __sa_config("accepts", 1);
  reactor_construct();
  tls = __sa_sslctx();
  server_construct(&v, callback, &vtag);
}

static void finish(void)
{
  int i;

  up = 0;
  if ((on(LIFE) || on(DOWN)) && __sa_choice(2, "shut down first"))
    down();
  server_destruct(&v);
  for (i = 0; i < conns; i ++)
  {
    __sa_check(!is_open(&c[i]), "a destroyed server has no connections");
    if (c[i].held)
      answer(&c[i], 0);
    while (c[i].extra)
    {
      c[i].extra --;
      server_release(c[i].r);
    }
    if (c[i].r && (on(LIFE) || on(CLOSED) || on(DOWN)))
      __sa_check(!__sa_is_live(c[i].r), "a request without holds and connection is freed");
  }
  if (on(DOWN))
  {
    int w = __sa_waits();
    reactor_loop();
    __sa_check(__sa_waits() == w, "nothing of a server shut down keeps the loop waiting");
  }
  reactor_destruct();
  __sa_no_leaks("server");
  __sa_mark("finished");
}

static void attach(void)
{
  server_accept(&v, __sa_sock());
  up = 1;
}

static void open_server(void)
{
  server_open(&v, __sa_listen(), tlsmode ? tls : NULL);
  up = 1;
}

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

/* one connection; requests and operations in any order */
static void one(int t, int p, int half, int n)
{
  int i;

  setup(t);
  policies = p;
  __sa_config("half", half);
  __sa_config("oneread", half);
  __sa_config("quiet", 1);
  __sa_config("inrounds", n);
  __sa_config("maxreads", n + 1);
  if (t)
  {
    open_server();
    once();                            /* a connection is accepted */
  }
  else
    attach();
  once();
  for (i = 0; i < n + MORE; i ++)
    if (!op(__sa_choice(policies == 3 ? 5 : 4, "operation")))
      break;
  finish();
}

#if RULE == 3
void ctx_any_size(void) { one(0, 0, 0, 1); }
void ctx_any_size_held(void) { one(0, 2, 0, 2); }
#endif
void ctx_prompt(void) { one(0, 0, 1, 5); }
void ctx_held(void) { one(0, 2, 1, on(CLOSED) ? 4 : 5); }
void ctx_mixed(void) { one(0, 1, 1, 3); }
#if RULE == 1 || RULE == 6
void ctx_wild(void) { one(0, 3, 1, 2); }
#endif
void ctx_tls(void) { one(1, 1, 1, 1); }

/* accepted connections next to each other */
void ctx_accepted(void)
{
  int i;

  setup(0);
  policies = 1;
  __sa_config("half", 1);
  __sa_config("oneread", 1);
  __sa_config("inrounds", 1);
  __sa_config("accepts", 2);
  __sa_config("requests", 2);
  open_server();
  for (i = 0; i < 3 + MORE; i ++)
    once();
  op(__sa_choice(on(LIFE) || on(DOWN) ? 4 : 2, "operation"));
  finish();
}

#if RULE == 6
/* shut down twice, before opening, opened again */
void ctx_idle(void)
{
  setup(0);
  switch (__sa_choice(3, "idle"))
  {
  case 0:
    down();
    down();
    break;
  case 1:
    open_server();
    down();
    down();
    break;
  case 2:
    open_server();
    down();
    open_server();
    break;
  }
  finish();
}
#endif
