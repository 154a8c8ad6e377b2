/* V01: no event signal is lost or duplicated. */
#include <reactor.h>
#include "sa.h"

static event *ev[2];
static int sent[2], got[2], tag[2], budget, is_open[2];

static void sig(int i)
{
  event_signal(ev[i]);
  sent[i] ++;
}

static void callback(reactor_event *e)
{
  int i = (int *) e->state - tag, k;

  __sa_check(i == 0 || i == 1, "the callback gets its own state");
  __sa_check(is_open[i], "closed events do not notify");
  __sa_check(e->type == EVENT_SIGNAL, "events notify signals");
  got[i] ++;
  __sa_check(got[i] <= sent[i], "no notification is given without a signal");
  if (!budget)
    return;
  budget --;
  k = __sa_choice(2, "event");
  switch (__sa_choice(3, "action of the callback"))
  {
  case 1:
    if (is_open[k])
    {
      sig(k);
      __sa_mark("signalled in callback");
    }
    break;
  case 2:
    event_close(ev[k]);
    is_open[k] = 0;
    break;
  }
}

static void settle(void)
{
  int n = 0;

  __sa_config("noidle", 1);
  while ((is_open[0] && got[0] < sent[0]) || (is_open[1] && got[1] < sent[1]))
  {
    __sa_check(n ++ < 20, "signals are delivered in the end");
    reactor_loop_once();
  }
  /* nothing is left over */
  __sa_config("noidle", 0);
}

static void extra(void)
{
  int a = got[0], b = got[1];

  if (__sa_choice(2, "more iterations"))
  {
    reactor_loop_once();
    __sa_check(got[0] <= sent[0] && got[1] <= sent[1] && got[0] >= a && got[1] >= b, "no signal is delivered twice");
  }
}

void ctx_signals(void)
{
  int i, k;

  __sa_config("nev", 2);
  reactor_construct();
  for (i = 0; i < 2; i ++)
  {
    ev[i] = malloc(sizeof *ev[i]);
    event_construct(ev[i], callback, &tag[i]);
    event_open(ev[i]);
    __sa_check(event_is_open(ev[i]), "an opened event is open");
    is_open[i] = 1;
  }
#ifdef THOROUGH
  budget = 2;
#else
  budget = 1;
#endif
  for (i = 0; i < 4; i ++)
  {
    k = __sa_choice(4, "operation");
    if (k < 2)
    {
      __sa_assume(is_open[k]);
      sig(k);
    }
    else if (k == 2)
      reactor_loop_once();
    else
      break;
  }
  settle();
  __sa_mark("all delivered");
  extra();
  for (i = 0; i < 2; i ++)
  {
    event_destruct(ev[i]);
    free(ev[i]);
  }
  reactor_destruct();
  __sa_no_leaks("event");
}

/* an event closed with signals outstanding and opened again starts afresh; several signals at once */
void ctx_again(void)
{
  int i, n = 1 + __sa_choice(5, "signals");

  reactor_construct();
  ev[0] = malloc(sizeof *ev[0]);
  event_construct(ev[0], callback, &tag[0]);
  event_open(ev[0]);
  is_open[0] = 1;
  for (i = 0; i < n; i ++)
    sig(0);
  if (__sa_choice(2, "closed with signals outstanding"))
  {
    event_close(ev[0]);
    __sa_check(!event_is_open(ev[0]), "a closed event is not open");
    is_open[0] = sent[0] = got[0] = 0;
    event_open(ev[0]);
    is_open[0] = 1;
    if (__sa_choice(2, "signalled again"))
      sig(0);
    __sa_mark("opened again");
  }
  settle();
  __sa_check(got[0] == sent[0], "every signal is delivered once");
  extra();
  event_destruct(ev[0]);
  free(ev[0]);
  reactor_destruct();
  __sa_no_leaks("event");
}
