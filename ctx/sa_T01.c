/* T01: timers are armed exactly and all expirations are accounted for. */
#include <reactor.h>
#include "sa.h"

static timer *tm[2];
static int tag[2], isset[2], budget;
static uint64_t got;

static void armed(int i, uint64_t t0, uint64_t ti)
{
  int fd = descriptor_fd(&tm[i]->descriptor);
  uint64_t s = __sa_armed(fd, 1), n = __sa_armed(fd, 2);

  __sa_check(__sa_armed(fd, 0) == 0, "a set timer is armed, relative to now");
  if (t0 == 0)
    __sa_check(s == 0 && n >= 1 && n <= 1000, "a timer without a delay fires at once");
  else
    __sa_check(n < 1000000000 && s * 1000000000 + n == t0, "a timer is armed with exactly the requested delay");
  s = __sa_armed(fd, 3);
  n = __sa_armed(fd, 4);
  __sa_check(n < 1000000000 && s * 1000000000 + n == ti, "a timer is armed with exactly the requested interval");
}

static void set(int i, uint64_t t0, uint64_t ti)
{
  timer_set(tm[i], t0, ti);
  isset[i] = 1;
  armed(i, t0, ti);
}

static void callback(reactor_event *e)
{
  int i = (int *) e->state - tag, k;

  __sa_check(i == 0 || i == 1, "the callback gets its own state");
  __sa_check(isset[i], "cleared timers do not notify");
  __sa_check(e->type == TIMER_EXPIRATION, "timers notify expirations");
  __sa_check(e->data > 0, "no notification without an expiration");
  got += e->data;
  __sa_check(got == __sa_ghost_int("expread"), "the notification carries the total of all expirations since the previous one");
  if (!budget)
    return;
  budget --;
  k = __sa_choice(2, "timer");
  if (!tm[k])
    return;
  switch (__sa_choice(3, "action of the callback"))
  {
  case 1: set(k, 1000000, 0); __sa_mark("set in callback"); break;
  case 2: timer_clear(tm[k]); isset[k] = 0; __sa_mark("cleared in callback"); break;
  }
}

static void make(int i)
{
  tm[i] = malloc(sizeof *tm[i]);
  timer_construct(tm[i], callback, &tag[i]);
}

static void finish(void)
{
  int i;

  for (i = 0; i < 2; i ++)
    if (tm[i])
    {
      timer_destruct(tm[i]);
      free(tm[i]);
    }
  reactor_destruct();
  __sa_check(got == __sa_ghost_int("expread"), "every expiration read is part of a notification");
  __sa_no_leaks("timer");
}

/* any delay and interval, set anew when armed or cleared */
void ctx_arm(void)
{
  uint64_t t0 = __sa_range("delay", 0, 1ULL << 63), ti = __sa_range("interval", 0, 1ULL << 63);

  reactor_construct();
  make(0);
  switch (__sa_choice(3, "before"))
  {
  case 1: set(0, 5, 7); break;
  case 2: set(0, 5, 7); timer_clear(tm[0]); break;
  }
  set(0, t0, ti);
  __sa_mark("armed");
  finish();
}

void ctx_expire(void)
{
  int i;

  __sa_config("nev", 2);
  __sa_config("lateexp", 1);
  budget = 2;
  reactor_construct();
  make(0);
  make(1);
  set(0, 0, 0);
  set(1, 10, 20);
  for (i = 0; i < 3; i ++)
    reactor_loop_once();
  __sa_mark("expired");
  finish();
}
