/* E04: time is constant within a loop iteration and refreshed for the next. */
#include "sa_core.h"

static int readings;

static void now(void)
{
  uint64_t t = reactor_now();

  __sa_check(__sa_ghost_int("clock") > 0 && __sa_ghost_int("clock.realtime"), "time comes from the real-time clock");
  __sa_check(__sa_ghost_int("clock.first"), "a time taken in an earlier iteration is not reused");
  __sa_check(t == __sa_ghost_int("clock.firsttime"), "time is that of the first reading of the iteration");
  readings ++;
}

static void act(int self)
{
  int i;

  for (i = 0; i < 2 && __sa_choice(2, "reads the time"); i ++)
    now();
}

void ctx_loop(void)
{
  __sa_config("nev", 2);
  __sa_config("menu", -1);
  __sa_config("eintr", 1);
  reactor_construct();
  if (__sa_choice(2, "time before the loop"))
  {
    now();
    now();
    __sa_mark("time before the loop");
  }
  add();
  add();
  __sa_config("fixedorder", 1);
  reactor_loop_once();
  if (__sa_choice(2, "time after the iteration"))
    now();
  reactor_loop_once();
  if (__sa_choice(2, "time after the iteration"))
    now();
  __sa_config("nev", 1);
  reactor_loop_once();
  if (readings > 3)
    __sa_mark("several readings");
}
