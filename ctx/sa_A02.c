/* A02: the resolver reports every outcome once and owns its results. */
#include <reactor.h>
#include <netdb.h>
#include "sa.h"

static resolver *rs;
static int lookups, reports, active, tag, budget;
static char *host, *service;

static void lookup(void)
{
  size_t n = __sa_range("host length", 1, 300), m = __sa_range("service length", 1, 300);
  char *h = NULL, *s = NULL;
  int k;

  /* the caller's copies go away at once */
  k = lookups ? 3 : __sa_choice(4, "host and service given");
  if (k & 1)
  {
    h = malloc(n + 1);
    __sa_copy(h, __sa_cstr("host", n), n + 1);
  }
  if (k & 2)
  {
    s = malloc(m + 1);
    __sa_copy(s, __sa_cstr("service", m), m + 1);
  }
  lookups ++;
  active = 1;
  resolver_lookup(rs, h, s, 2, 1, 6, 1);
  free(h);
  free(s);
}

static void callback(reactor_event *e)
{
  struct addrinfo *a = (struct addrinfo *) e->data;

  __sa_check(e->state == &tag, "the callback gets its own state");
  __sa_check(rs != NULL && active, "a cancelled lookup is not reported");
  __sa_check(!__sa_in_thread(), "lookups are reported in the loop's thread");
  active = 0;
  reports ++;
  if (e->type == RESOLVER_SUCCESS)
  {
    __sa_check(a != NULL, "a success carries an address list");
    __sa_live(a, "the address list reported is live");
    __sa_check(a->ai_addrlen > 0, "the address list can be read");
    __sa_mark("success");
  }
  else
  {
    __sa_check(e->type == RESOLVER_FAILURE, "lookups succeed or fail");
    __sa_check(a == NULL, "a failure carries no address list");
    __sa_mark("failure");
  }
  if (!budget)
    return;
  switch (__sa_choice(5, "action of the callback"))
  {
  case 1: budget --; lookup(); __sa_mark("looked up again in callback"); break;
  case 2: budget --; resolver_cancel(rs); __sa_mark("cancelled in callback"); break;
  case 3: budget --; resolver_destruct(rs); free(rs); rs = NULL; __sa_mark("destroyed in callback"); break;
  case 4: budget --; resolver_clear(rs); break;
  }
}

void ctx_lookup(void)
{
  int i, r;

  __sa_config("noidle", 1);
  reactor_construct();
  rs = malloc(sizeof *rs);
  resolver_construct(rs, callback, &tag);
  budget = 1;
  for (i = 0; i < 3 && rs; i ++)
    switch (__sa_choice(4, "operation"))
    {
    case 0:
      if (active)
        __sa_mark("restarted");
      lookup();
      break;
    case 1:
      resolver_cancel(rs);
      __sa_check(!__sa_threads_running() && !__sa_threads_unreaped(), "when cancel returns the lookup has ended");
      active = 0;
      __sa_mark("cancelled");
      break;
    case 2:
      __sa_assume(active);
      r = reports;
      reactor_loop_once();
      __sa_check(reports == r + 1, "a lookup is reported once");
      break;
    case 3:
      i = 4;
      break;
    }
  if (rs)
  {
    resolver_destruct(rs);
    free(rs);
    rs = NULL;
  }
  __sa_check(__sa_ghost_int("gai.ok") == __sa_ghost_int("gaifreed"), "every address list is freed once");
  reactor_destruct();
  __sa_no_leaks("resolver");
}
