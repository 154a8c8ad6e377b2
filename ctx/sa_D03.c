/* D03: objects may be destroyed from inside their own (and each other's) callbacks. */
#include "sa_obj.h"

static int budget, cross;
static server_request *held[2];
static int nheld;

static void act(object *o)
{
  int kind = o->kind, again = 0;

  switch (__sa_choice(7, "action"))
  {
  case 0: return;
  case 1: __sa_assume(opened[o->slot]); obj_close(o); __sa_mark("closed in callback"); return;
  case 2: obj_close(o); obj_open(o); __sa_mark("opened again in callback"); return;
  case 3: obj_destruct(o); __sa_mark("destroyed in callback"); return;
  case 4: obj_free(o); __sa_mark("freed in callback"); return;
  case 5: obj_free(o); again = 1; break;
  case 6:
    obj_destruct(o);
    obj[o->slot] = NULL;
    o = obj_new(kind, o);
    obj_open(o);
    __sa_mark("replaced in place in callback");
    return;
  }
  if (again)
    obj_open(obj_new(kind, NULL));
}

static void callback(reactor_event *e)
{
  int i = (int *) e->state - tag, t = i, when = 0, k, server;
  server_request *r = (server_request *) e->data;

  if (__sa_in_thread())
    return;
  __sa_check(i >= 0 && i < nslots && alive[i] && opened[i], "only open objects notify");
  k = obj[i]->kind;
  server = k == K_SERVER || k == K_TLSSERVER;
  if (k == K_ASYNC || k == K_RESOLVER)
    opened[i] = 0;
  if (server)
  {
    when = __sa_choice(cross ? 2 : 3, "request is released");
    if (when == 0)
      server_release(r);
    if (when == 1)
      held[nheld ++] = r;
    if (when == 2)
      server_ok(r, data_null(), data_null());
  }
  else if (e->type == DESCRIPTOR_READ)
    serve(obj[i], e);
  if (!budget)
    return;
  budget --;
  if (cross)
    t = !i;
  if (t >= nslots || !obj[t] || !alive[t])
    return;
  act(obj[t]);
}

static void finish(void)
{
  int i;

  if (nheld && __sa_choice(2, "requests are released before the objects"))
    while (nheld)
      server_release(held[-- nheld]);
  for (i = 0; i < nslots; i ++)
    if (obj[i])
    {
      if (alive[i])
        obj_free(obj[i]);
      else
        free(obj[i]);
    }
  while (nheld)
    server_release(held[-- nheld]);
  reactor_destruct();
  __sa_no_leaks("objects");
}

static void start(int kind)
{
  object *o = obj_new(kind, NULL);

  obj_open(o);
  if (kind == K_SERVER || kind == K_TLSSERVER)
  {
    __sa_config("accepts", 0);
    server_accept(&o->u.v, __sa_sock());
  }
  if (kind == K_STREAM || kind == K_TLS)
    stream_notify(&o->u.s);
}

static void self(int kind, int rounds)
{
  setup();
  __sa_config("badreq", 0);
  __sa_config("requests", kind == K_SERVER ? 2 : 1);
  if (kind == K_SERVER)
    __sa_config("maxreads", 1);
  budget = 2;
  if (kind == K_DESCRIPTOR || kind == K_STREAM || kind == K_TLS)
    __sa_config("menu", 1);
  if (kind == K_TLS)
  {
    __sa_config("sslreads", 1);
    __sa_config("sslwrites", 0);
  }
  start(kind);
  while (rounds --)
    if (__sa_open_fds() > 1)
      reactor_loop_once();
  __sa_mark("end");
  finish();
}

void ctx_self_descriptor(void) { self(K_DESCRIPTOR, 2); }
void ctx_self_event(void) { self(K_EVENT, 2); }
void ctx_self_timer(void) { self(K_TIMER, 2); }
void ctx_self_notify(void) { self(K_NOTIFY, 2); }
void ctx_self_async(void) { self(K_ASYNC, 2); }
void ctx_self_resolver(void) { self(K_RESOLVER, 2); }
void ctx_self_stream(void) { self(K_STREAM, 2); }
void ctx_self_tls(void) { self(K_TLS, 2); }
void ctx_self_server(void) { self(K_SERVER, 2); }
void ctx_self_tlsserver(void) { self(K_TLSSERVER, 1); }

static void pair(int a, int b)
{
  setup();
  __sa_config("badreq", 0);
  __sa_config("requests", 1);
  __sa_config("menu", -1);
  __sa_config("nev", 2);
  __sa_config("maxreads", 1);
  __sa_config("sslreads", 0);
  __sa_config("inrounds", 1);
  budget = 1;
  cross = 1;
  start(a);
  start(b);
  reactor_loop_once();
  __sa_mark("end of batch");
  finish();
}

void ctx_pair_descriptor(void) { pair(K_DESCRIPTOR, __sa_choice(K_COUNT, "kind")); }
void ctx_pair_event(void) { pair(K_EVENT, __sa_choice(K_COUNT, "kind")); }
void ctx_pair_timer(void) { pair(K_TIMER, __sa_choice(K_COUNT, "kind")); }
void ctx_pair_notify(void) { pair(K_NOTIFY, __sa_choice(K_COUNT, "kind")); }
void ctx_pair_async(void) { pair(K_ASYNC, __sa_choice(K_COUNT, "kind")); }
void ctx_pair_stream(void) { pair(K_STREAM, __sa_choice(K_COUNT, "kind")); }
void ctx_pair_server(void) { pair(K_SERVER, __sa_choice(K_COUNT, "kind")); }
