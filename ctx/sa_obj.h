/* One of each kind of library object behind a common interface. */
#include <reactor.h>
#include <sys/epoll.h>
#include <unistd.h>
#include "sa.h"

enum { K_DESCRIPTOR, K_EVENT, K_TIMER, K_NOTIFY, K_ASYNC, K_RESOLVER, K_STREAM, K_TLS, K_SERVER, K_TLSSERVER, K_COUNT };

typedef struct object object;
struct object
{
  int kind, slot;
  union
  {
    descriptor d; event e; timer t; notify n; async a; resolver r; stream s; server v;
  } u;
};

#define SLOTS 4
static int tag[SLOTS];                    /* the state pointers of the callbacks */
static int alive[SLOTS], opened[SLOTS];   /* by slot: the object exists, may notify */
static object *obj[SLOTS];
static int nslots;
static SSL_CTX *tls;
static char *host, *service;

static void callback(reactor_event *);

static object *obj_new(int kind, void *mem)
{
  object *o = mem ? mem : malloc(sizeof *o);
  int i = nslots ++;

  o->kind = kind;
  o->slot = i;
  obj[i] = o;
  alive[i] = 1;
  opened[i] = 0;
  switch (kind)
  {
  case K_DESCRIPTOR: descriptor_construct(&o->u.d, callback, &tag[i]); break;
  case K_EVENT: event_construct(&o->u.e, callback, &tag[i]); break;
  case K_TIMER: timer_construct(&o->u.t, callback, &tag[i]); break;
  case K_NOTIFY: notify_construct(&o->u.n, callback, &tag[i]); break;
  case K_ASYNC: async_construct(&o->u.a, callback, &tag[i]); break;
  case K_RESOLVER: resolver_construct(&o->u.r, callback, &tag[i]); break;
  case K_STREAM: case K_TLS: stream_construct(&o->u.s, callback, &tag[i]); break;
  case K_SERVER: case K_TLSSERVER: server_construct(&o->u.v, callback, &tag[i]); break;
  }
  return o;
}

static void obj_open(object *o)
{
  opened[o->slot] = 1;
  switch (o->kind)
  {
  case K_DESCRIPTOR: descriptor_open(&o->u.d, __sa_pipe(), DESCRIPTOR_READ); break;
  case K_EVENT: event_open(&o->u.e); event_signal(&o->u.e); break;
  case K_TIMER: timer_set(&o->u.t, 1000000, 1000000); break;
  case K_NOTIFY: (void) notify_watch(&o->u.n, "/tmp", 2); break;
  case K_ASYNC: async_call(&o->u.a); break;
  case K_RESOLVER: resolver_lookup(&o->u.r, "localhost", "80", 0, 1, 0, 0); break;
  case K_STREAM: stream_open(&o->u.s, __sa_sock(), STREAM_READ, NULL); break;
  case K_TLS: stream_open(&o->u.s, __sa_sock(), STREAM_READ, tls); break;
  case K_SERVER: server_open(&o->u.v, __sa_listen(), NULL); break;
  case K_TLSSERVER: server_open(&o->u.v, __sa_listen(), tls); break;
  }
}

static void obj_close(object *o)
{
  opened[o->slot] = 0;
  switch (o->kind)
  {
  case K_DESCRIPTOR: descriptor_close(&o->u.d); break;
  case K_EVENT: event_close(&o->u.e); break;
  case K_TIMER: timer_clear(&o->u.t); break;
  case K_NOTIFY: notify_clear(&o->u.n); break;
  case K_ASYNC: async_cancel(&o->u.a); break;
  case K_RESOLVER: resolver_cancel(&o->u.r); break;
  case K_STREAM: case K_TLS: stream_close(&o->u.s); break;
  case K_SERVER: case K_TLSSERVER: server_shutdown(&o->u.v); break;
  }
}

static void obj_destruct(object *o)
{
  alive[o->slot] = 0;
  opened[o->slot] = 0;
  switch (o->kind)
  {
  case K_DESCRIPTOR: descriptor_destruct(&o->u.d); break;
  case K_EVENT: event_destruct(&o->u.e); break;
  case K_TIMER: timer_destruct(&o->u.t); break;
  case K_NOTIFY: notify_destruct(&o->u.n); break;
  case K_ASYNC: async_destruct(&o->u.a); break;
  case K_RESOLVER: resolver_destruct(&o->u.r); break;
  case K_STREAM: case K_TLS: stream_destruct(&o->u.s); break;
  case K_SERVER: case K_TLSSERVER: server_destruct(&o->u.v); break;
  }
}

static void obj_free(object *o)
{
  int i = o->slot;

  obj_destruct(o);
  obj[i] = NULL;
  free(o);
}

static void setup(void)
{
  tls = __sa_sslctx();
  __sa_config("menu", 0);
  __sa_config("fixeddate", 1);
  __sa_config("inrounds", 1);
  __sa_config("records", 2);
  __sa_config("oddwd", 0);
  __sa_config("watchfail", 0);
  __sa_config("lateexp", 0);
  __sa_config("accepts", 1);
  __sa_config("maxreads", 2);
  __sa_config("writes", 1);
  __sa_config("sslreads", 2);
  __sa_config("sslwrites", 1);
  reactor_construct();
  __sa_config("fd0", 1);                /* descriptor 0 is as good as any */
}

/* what the callbacks of any kind of object have to do to make progress */
static void serve(object *o, reactor_event *e)
{
  char b[16];
  server_request *r;

  switch (o->kind)
  {
  case K_DESCRIPTOR:
    if (e->type == DESCRIPTOR_READ)
      while (read(descriptor_fd(&o->u.d), b, sizeof b) == sizeof b);
    break;
  case K_SERVER: case K_TLSSERVER:
    r = (server_request *) e->data;
    server_close(r);
    server_release(r);
    break;
  }
}
