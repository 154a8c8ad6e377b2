/* D02: every descriptor is deregistered, then closed, exactly once.  Each kind of object is opened,
   closed, opened again and destroyed in any order; the environment's descriptor automaton objects to a
   descriptor closed while registered or closed twice. */
#include "sa_obj.h"

#ifdef THOROUGH
#define MORE 1
#else
#define MORE 0
#endif

static void callback(reactor_event *e)
{
  int i = (int *) e->state - tag;

  __sa_check(i >= 0 && i < nslots && (alive[i] && opened[i] || __sa_in_thread()), "only open objects notify");
  serve(obj[i], e);
}

static void run(int kind, int ops)
{
  int i, base, is_open = 0;
  object *o;

  ops += MORE;
  setup();
  __sa_config("badreq", 0);
  __sa_config("requests", 1);
  base = __sa_open_fds();
  o = obj_new(kind, NULL);
  for (i = 0; i < ops; i ++)
    switch (__sa_choice(4, "operation"))
    {
    case 0:
      __sa_assume(!is_open);
      obj_open(o);
      is_open = 1;
      __sa_check(__sa_open_fds() > base, "opening opens");
      break;
    case 1:
      obj_close(o);
      __sa_check(__sa_open_fds() == base, "closing closes every descriptor");
      if (!is_open)
        __sa_mark("closed when closed");
      is_open = 0;
      break;
    case 2:
      if (kind == K_ASYNC || kind == K_RESOLVER)
        __sa_assume(is_open);
      reactor_loop_once();
      if (kind == K_ASYNC || kind == K_RESOLVER)
      {
        is_open = 0;
        __sa_check(__sa_open_fds() == base, "a completed task leaves no descriptor");
      }
      __sa_mark("loop");
      break;
    case 3:
      if (kind == K_TIMER)
        timer_set(&o->u.t, __sa_choice(2, "delay"), 0), is_open = opened[o->slot] = 1;
      if (kind == K_NOTIFY)
        (void) notify_watch(&o->u.n, "/var", 1), is_open = opened[o->slot] = 1;
      if (kind == K_RESOLVER)
        resolver_lookup(&o->u.r, "localhost", NULL, 0, 1, 0, 0), is_open = opened[o->slot] = 1;
      i = ops;
      break;
    }
  if (is_open)
    __sa_mark("destroyed when open");
  else
    __sa_mark("destroyed when closed");
  obj_free(o);
  __sa_check(__sa_open_fds() == base, "destroying closes every descriptor");
  reactor_destruct();
  __sa_no_leaks("object");
}

void ctx_descriptor(void) { run(K_DESCRIPTOR, 4); }
void ctx_event(void) { run(K_EVENT, 4); }
void ctx_timer(void) { run(K_TIMER, 4); }
void ctx_notify(void) { run(K_NOTIFY, 4); }
void ctx_async(void) { run(K_ASYNC, 4); }
void ctx_resolver(void) { run(K_RESOLVER, 4); }
void ctx_stream(void) { run(K_STREAM, 4); }
void ctx_tls(void) { run(K_TLS, 3); }
void ctx_server(void) { run(K_SERVER, 7); }
void ctx_tlsserver(void) { run(K_TLSSERVER, 5); }
