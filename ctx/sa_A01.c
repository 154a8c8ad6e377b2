/* A01: background tasks are synchronised with cancellation and completion.  The thread's body runs at any
   point at which the loop's thread waits for it or for events; the environment's thread automaton objects to
   handles used after the thread was reaped, to threads never reaped and to the event of a running task being
   closed. */
#include <reactor.h>
#include "sa.h"

static async *task;
static int calls, dones, started, active, tag, budget;

static void start(void)
{
  calls = started ++;
  active = 1;
  async_call(task);
}

static void callback(reactor_event *e)
{
  __sa_check(e->state == &tag, "the callback gets its own state");
  __sa_check(task != NULL, "a destroyed task makes no callbacks");
  if (e->type == ASYNC_CALL)
  {
    __sa_check(__sa_in_thread(), "the call callback runs in a thread of its own");
    calls ++;
    __sa_check(calls <= started, "the call callback runs at most once");
    __sa_mark("called");
    return;
  }
  __sa_check(e->type == ASYNC_DONE, "tasks notify call and done");
  __sa_check(!__sa_in_thread(), "the done callback runs in the loop's thread");
  __sa_check(active, "a cancelled task is not reported as done");
  __sa_check(calls == started, "the done callback comes after the call callback");
  __sa_check(!__sa_threads_running() && !__sa_threads_unreaped(), "the thread has ended and is reaped when the done callback begins");
  dones ++;
  active = 0;
  __sa_mark("done");
  if (budget)
    switch (__sa_choice(4, "action of the callback"))
    {
    case 1: budget --; start(); __sa_mark("called again in callback"); break;
    case 2: budget --; async_cancel(task); __sa_mark("cancelled in callback"); break;
    case 3: budget --; async_destruct(task); free(task); task = NULL; __sa_mark("destroyed in callback"); break;
    }
}

static void gone(void)
{
  __sa_check(!__sa_threads_running() && !__sa_threads_unreaped(), "when cancel or destroy returns the thread has ended and is reaped");
  calls = started;              /* whether it ran or not */
}

void ctx_task(void)
{
  int i, d;

  reactor_construct();
  task = malloc(sizeof *task);
  async_construct(task, callback, &tag);
  budget = 2;
  for (i = 0; i < 5 && task; i ++)
    switch (__sa_choice(4, "operation"))
    {
    case 0:
      __sa_assume(!active);
      start();
      break;
    case 1:
      async_cancel(task);
      gone();
      if (active)
        __sa_mark("cancelled while running");
      else
        __sa_mark("cancelled when not running");
      active = 0;
      break;
    case 2:
      __sa_assume(active);
      d = dones;
      __sa_config("noidle", 1);
      reactor_loop_once();
      __sa_check(dones == d + 1, "a completed task is reported as done once");
      break;
    case 3:
      i = 5;
      break;
    }
  if (task)
  {
    async_destruct(task);
    gone();
    free(task);
    task = NULL;
    __sa_mark("destroyed");
  }
  reactor_destruct();
  __sa_no_leaks("task");
}

/* two tasks at once, one acting on the other */
static async *two[2];
static int tags[2], act2[2];
static void callback2(reactor_event *e)
{
  int i = (int *) e->state - tags;

  if (e->type == ASYNC_CALL)
  {
    __sa_check(__sa_in_thread(), "the call callback runs in a thread of its own");
    return;
  }
  __sa_check(act2[i], "a cancelled task is not reported as done");
  act2[i] = 0;
  if (two[!i] && __sa_choice(2, "destroys the other"))
  {
    async_destruct(two[!i]);
    free(two[!i]);
    two[!i] = NULL;
    act2[!i] = 0;
    __sa_mark("destroyed by another task");
  }
}

void ctx_two(void)
{
  int i;

  __sa_config("nev", 2);
  reactor_construct();
  for (i = 0; i < 2; i ++)
  {
    two[i] = malloc(sizeof *two[i]);
    async_construct(two[i], callback2, &tags[i]);
    async_call(two[i]);
    act2[i] = 1;
  }
  reactor_loop_once();
  for (i = 0; i < 2; i ++)
    if (two[i])
    {
      async_destruct(two[i]);
      free(two[i]);
    }
  reactor_destruct();
  __sa_no_leaks("tasks");
}
