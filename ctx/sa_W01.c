/* W01: file watch notifications name the right watch and are all delivered. */
#include <reactor.h>
#include "sa.h"

static notify *nt;
static char *path[3];
static size_t plen[3];
static int wd[3], watches, next, stopped, budget, tag;

static int known(int id)
{
  int i;

  for (i = 0; i < watches; i ++)
    if (wd[i] == id)
      return i;
  return -1;
}

static void watch(void)
{
  char *p;
  int i = watches;

  plen[i] = __sa_range("path length", 1, 1000);
  path[i] = __sa_cstr("path", plen[i]);
  /* the caller's copy of the path goes away */
  p = malloc(plen[i] + 1);
  __sa_copy(p, path[i], plen[i] + 1);
  wd[i] = notify_watch(nt, p, 0xfff);
  free(p);
  if (wd[i] >= 0)
    watches ++;
  else
    __sa_mark("watch fails");
}

static void forget(void)
{
  watches = 0;
  next = __sa_ghost_int("nrecs");       /* what was read so far will not be delivered */
}

static void callback(reactor_event *e)
{
  notify_event *n = (notify_event *) e->data;
  int w;

  __sa_check(e->state == &tag, "the callback gets its own state");
  __sa_check(e->type == NOTIFY_EVENT, "watchers notify file system events");
  while (next < (int) __sa_ghost_int("nrecs") && known(__sa_rec_wd(next)) < 0)
    next ++;
  __sa_check(next < (int) __sa_ghost_int("nrecs"), "every notification is for an event that was read");
  w = known(n->id);
  __sa_check(w >= 0, "the id is one of a current watch");
  __sa_check(n->id == __sa_rec_wd(next), "notifications come in order, with the id of the watch they belong to");
  __sa_check(n->mask == __sa_rec_mask(next), "the mask is the one reported");
  __sa_same(n->path, path[w], plen[w] + 1, "the path is the one watched");
  if (__sa_rec_name(next))
  {
    __sa_same(n->name, __sa_rec_name(next), __sa_rec_namelen(next), "the name is the one reported");
    __sa_check(n->name[__sa_rec_namelen(next)] == 0, "the name is terminated");
  }
  else
    __sa_check(*n->name == 0, "without a name the name is empty");
  next ++;
  if (!budget)
    return;
  switch (__sa_choice(4, "action of the callback"))
  {
  case 1: budget --; notify_clear(nt); forget(); __sa_mark("cleared in callback"); break;
  case 2: budget --; notify_clear(nt); forget(); watch(); __sa_mark("cleared and watched again in callback"); break;
  case 3: budget --; watch(); __sa_mark("watched in callback"); break;
  }
}

static void complete(void)
{
  while (next < (int) __sa_ghost_int("nrecs") && known(__sa_rec_wd(next)) < 0)
    next ++;
  __sa_check(next == (int) __sa_ghost_int("nrecs"), "every event of a watch is delivered");
}

static void start(void)
{
  reactor_construct();
  nt = malloc(sizeof *nt);
  notify_construct(nt, callback, &tag);
}

static void finish(void)
{
  notify_destruct(nt);
  free(nt);
  reactor_destruct();
  __sa_no_leaks("watcher");
}

/* any records, in any grouping into reads */
void ctx_records(void)
{
  start();
  __sa_config("watchfail", 0);
  watch();
  if (__sa_choice(2, "second watch"))
    watch();
  __sa_config("records", 3);
  __sa_config("inrounds", 1);
  reactor_loop_once();
  complete();
  __sa_mark("delivered");
  if (__sa_choice(2, "waits again"))
  {
    __sa_config("quiet", 1);
    reactor_loop_once();                /* must not wait with notifications unread */
  }
  finish();
}

/* clearing and watching from the callback */
void ctx_actions(void)
{
  start();
  __sa_config("watchfail", 0);
  watch();
  __sa_config("oddwd", 0);
  __sa_config("records", 2);
  __sa_config("inrounds", 1);
  budget = 1;
  reactor_loop_once();
  complete();
  if (watches && __sa_choice(2, "again"))
  {
    __sa_config("inrounds", 2);
    reactor_loop_once();
    complete();
  }
  finish();
}

/* cleared and watched again outside, failing watches */
void ctx_again(void)
{
  int i;

  start();
  __sa_config("oddwd", 0);
  __sa_config("records", 1);
  for (i = 0; i < 2; i ++)
  {
    watch();
    if (__sa_choice(2, "cleared"))
    {
      notify_clear(nt);
      forget();
      __sa_mark("cleared");
    }
  }
  __sa_assume(watches > 0);
  reactor_loop_once();
  complete();
  finish();
}
