/* E02: every collected event reaches its own handler exactly once. */
#include "sa_core.h"

static int adding, aborting;
static void act(int self)
{
  if (aborting && __sa_choice(2, "aborts"))
  {
    aborting = 0;
    reactor_abort();
    __sa_mark("aborted in callback");
  }
  if (adding && __sa_choice(2, "adds a source"))
  {
    adding = 0;
    add();
    __sa_mark("added in callback");
  }
}

static void finish(void)
{
  int i;

  for (i = 0; i < nsrc; i ++)
    if (registered[i])
      drop(i, 1);
  reactor_destruct();
  __sa_no_leaks("core");
}

void ctx_small(void)
{
  int i;

  __sa_config("nev", 3);
  __sa_config("menu", 1);
  __sa_config("fixedorder", 1);
  adding = 1;
  reactor_construct();
  for (i = 0; i < 3; i ++)
    add();
  once();
  __sa_config("menu", -1);
  __sa_config("nev", 2);
  __sa_config("fixedorder", 0);
  once();
  __sa_mark("small batches");
  finish();
}

/* an abort ends the loop after the batch, not within it */
void ctx_abort(void)
{
  int i;

  __sa_config("nev", 3);
  __sa_config("menu", -1);
  aborting = 1;
  reactor_construct();
  for (i = 0; i < 3; i ++)
    add();
  once();
  finish();
}

/* full batches of every size around the capacity */
static source many[40];
static int mfd[40], seen[40], count;
static void many_callback(reactor_event *e)
{
  int id = (source *) e->state - many, i;

  __sa_check(id >= 0 && id < 40 && !seen[id], "an event is delivered once to its source");
  __sa_check(count < __sa_batch() && __sa_batch_fd(count) == mfd[id], "events are delivered in the order reported, each to its own handler");
  __sa_check((int) ((struct epoll_event *) e->data)->events == __sa_batch_bits(count), "the event bits are those reported");
  seen[id] = 1;
  count ++;
}
void ctx_full(void)
{
  int i, n = 1 + __sa_choice(36, "sources");

  __sa_config("nev", 1000);
  __sa_config("fullbatch", 1);
  __sa_config("menu", -1);
  reactor_construct();
  for (i = 0; i < n; i ++)
  {
    mfd[i] = __sa_pipe();
    reactor_handler_construct(&many[i].h, many_callback, &many[i]);
    reactor_add(&many[i].h, mfd[i], EPOLLIN);
  }
  reactor_loop_once();
  __sa_check(count == __sa_batch(), "every reported event is delivered before the iteration ends");
  for (i = 0; i < n; i ++)
  {
    reactor_delete(&many[i].h, mfd[i]);
    close(mfd[i]);
  }
  reactor_destruct();
  __sa_no_leaks("core");
  __sa_mark("full batch");
}

/* a handler without a callback swallows its events; an interrupted wait delivers nothing */
void ctx_default(void)
{
  reactor_handler h;
  int p = __sa_pipe();

  __sa_config("menu", -1);
  __sa_config("eintr", 1);
  reactor_construct();
  reactor_handler_construct(&h, NULL, NULL);
  reactor_add(&h, p, EPOLLIN);
  reactor_loop_once();
  reactor_loop_once();
  reactor_delete(&h, p);
  close(p);
  reactor_destruct();
  __sa_no_leaks("core");
  __sa_mark("default handler");
}
