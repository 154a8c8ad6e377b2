/* E01: a removed event source gets no more events. */
#include "sa_core.h"

static int budget;

static void act(int self)
{
  int i, k;

  for (k = 0; k < 2; k ++)
  {
    if (!budget || !__sa_choice(2, "callback acts"))
      return;
    budget --;
    i = __sa_choice(nsrc, "source");
    __sa_assume(registered[i]);
    switch (__sa_choice(3, "action"))
    {
    case 0:
      drop(i, 1);
      if (i == self)
        __sa_mark("removes itself");
      else
        __sa_mark("removes another source");
      break;
    case 1: drop(i, 0); __sa_mark("removes without freeing"); break;
    case 2: replace(i); __sa_mark("replaces"); break;
    }
  }
}

static void run(int n, int rounds)
{
  int i;

  __sa_config("nev", n);
  __sa_config("menu", -1);
  reactor_construct();
  for (i = 0; i < n; i ++)
    add();
  for (i = 0; i < rounds; i ++)
    once();
  for (i = 0; i < nsrc; i ++)
  {
    if (registered[i])
      drop(i, 1);
    else
      free(src[i]);
  }
  reactor_destruct();
  __sa_no_leaks("core");
}

void ctx_one_batch(void) { budget = 2; run(3, 1); }
void ctx_two_batches(void) { budget = 1; run(2, 2); }

/* the source is removed outside any callback, after or before a batch */
void ctx_outside(void)
{
  __sa_config("nev", 2);
  __sa_config("menu", -1);
  reactor_construct();
  add();
  add();
  if (__sa_choice(2, "loop before"))
    once();
  drop(__sa_choice(2, "source"), 1);
  once();
  __sa_mark("removed outside");
  drop(registered[0] ? 0 : 1, 1);
  reactor_destruct();
  __sa_no_leaks("core");
}

/* the same through descriptors, whose events may carry several notifications */
static descriptor *d[2];
static int opened[2], dtag[2], dbudget;
static void descriptor_event(reactor_event *e)
{
  int i = (int *) e->state - dtag, k;

  __sa_check(opened[i], "no notification is given after the descriptor was closed");
  if (!dbudget || !__sa_choice(2, "callback acts"))
    return;
  dbudget --;
  k = __sa_choice(2, "descriptor");
  __sa_assume(opened[k]);
  opened[k] = 0;
  descriptor_close(d[k]);
  if (__sa_choice(2, "released"))
  {
    descriptor_destruct(d[k]);
    free(d[k]);
    d[k] = NULL;
    __sa_mark("descriptor released in callback");
  }
}

void ctx_descriptors(void)
{
  int i;

  __sa_config("nev", 2);
  __sa_config("menu", 1);
  reactor_construct();
  for (i = 0; i < 2; i ++)
  {
    d[i] = malloc(sizeof *d[i]);
    descriptor_construct(d[i], descriptor_event, &dtag[i]);
    descriptor_open(d[i], __sa_pipe(), DESCRIPTOR_READ | DESCRIPTOR_WRITE | (i ? DESCRIPTOR_LEVEL : 0));
    opened[i] = 1;
  }
  dbudget = 2;
  reactor_loop_once();
  for (i = 0; i < 2; i ++)
    if (d[i])
    {
      descriptor_destruct(d[i]);
      free(d[i]);
    }
  reactor_destruct();
  __sa_no_leaks("descriptors");
}
