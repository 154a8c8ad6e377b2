/* E03: the loop runs exactly while it is active and has event sources. */
#include "sa_core.h"

static int budget, stopwaits;

static int aborted;
static void act(int self)
{
  int k;

  __sa_check(!(aborted && __sa_waits() != stopwaits), "the loop does not wait again after an abort");
  if (!budget || !__sa_choice(2, "callback acts"))
    return;
  budget --;
  switch (__sa_choice(4, "action"))
  {
  case 0: drop(self, 1); __sa_mark("source removed"); break;
  case 1: add(); __sa_mark("source added"); break;
  case 2:
    if (!aborted)
      stopwaits = __sa_waits();
    aborted = 1;
    reactor_abort();
    __sa_mark("aborted in callback");
    break;
  case 3:
    for (k = 0; k < nsrc; k ++)
      if (registered[k])
        drop(k, 1);
    stopwaits = __sa_waits();
    __sa_mark("all sources removed");
    break;
  }
}

static void reset(void)
{
  int i;

  for (i = 0; i < nsrc; i ++)
    if (registered[i])
      drop(i, 1);
  reactor_destruct();
}

static void run(int n)
{
  int i, w = __sa_waits();

  for (i = 0; i < n; i ++)
    add();
  if (__sa_choice(2, "aborted before the loop"))
  {
    reactor_abort();
    aborted = 1;
    stopwaits = w;
    __sa_mark("aborted before");
  }
  reactor_loop();
  if (__sa_ghost_int("raised"))
    __sa_mark("terminated by signal");
  __sa_check(aborted || __sa_ghost_int("raised") || nreg == 0, "the loop does not return while it is active and has sources");
  if (aborted)
    __sa_check(__sa_waits() == stopwaits, "the loop does not wait again after an abort");
  if (__sa_ghost_int("raised"))
    __sa_check(__sa_waits() == __sa_ghost_int("raised.waits"), "the loop does not wait again after a termination signal");
  if (n == 0)
    __sa_check(__sa_waits() == w, "the loop does not wait without sources");
  if (__sa_waits() > w + 1)
    __sa_mark("several iterations");
}

static void life(int n, int eintr)
{
  __sa_config("nev", 2);
  __sa_config("menu", -1);
  __sa_config("maxwaits", 3);
  __sa_config("eintr", eintr);
  __sa_config("sigs", 1);
  reactor_construct();
  run(n);
  reset();
  __sa_no_leaks("core");
}

void ctx_empty(void) { life(0, 0); }
void ctx_one(void) { budget = 3; life(1, 0); }
void ctx_two(void) { budget = 2; life(2, 0); }
void ctx_interrupted(void) { budget = 1; life(1, 2); }

/* a later life of the loop is not affected by an earlier one */
void ctx_again(void)
{
  __sa_config("menu", -1);
  __sa_config("maxwaits", 3);
  budget = 1;
  reactor_construct();
  run(1);
  reset();
  aborted = 0;
  budget = 1;
  reactor_construct();
  run(1);
  reset();
  __sa_no_leaks("core");
  __sa_mark("second life");
}
