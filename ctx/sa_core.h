/* Most general client of the event loop core: sources live in memory of their own, callbacks
   add, remove, replace and free sources as they like; ghost state follows the batch. */
#include <reactor.h>
#include <sys/epoll.h>
#include <unistd.h>
#include "sa.h"

#define NS 8
typedef struct source source;
struct source { reactor_handler h; int id; };

static source *src[NS];                 /* live sources by identity */
static int fd[NS], uid[NS], registered[NS], state[NS];
static int nsrc, nreg;
static int pos, done[32], calls;         /* position within the batch, entries dealt with */
static void *last_event;

static void act(int self);

static void callback(reactor_event *e)
{
  struct epoll_event *ev = (struct epoll_event *) e->data;
  int id = (int *) e->state - state, i, n = __sa_batch();
  static int lastwait;

  if (__sa_waits() != lastwait)
  {
    lastwait = __sa_waits();
    for (i = 0; i < 32; i ++)
      done[i] = 0;
  }

  __sa_check(id >= 0 && id < nsrc, "the callback gets the state registered with it");
  __sa_check(registered[id], "no event is delivered to a removed source");
  __sa_check(e->type == REACTOR_EPOLL_EVENT, "events of the loop are kernel events");
  for (i = 0; i < n && !(__sa_batch_fd(i) == fd[id] && __sa_batch_uid(i) == uid[id]); i ++);
  __sa_check(i < n, "an event is delivered only to the source it was reported for");
  __sa_check(!done[i], "an event is delivered once");
  for (n = 0; n < i; n ++)
    __sa_check(done[n], "events are delivered in the order reported");
  done[i] = 1;
  __sa_check((int) ev->events == __sa_batch_bits(i), "the event bits are those reported");
  calls ++;
  act(id);
}

static int add(void)
{
  int i = nsrc ++;

  src[i] = malloc(sizeof *src[i]);
  fd[i] = __sa_pipe();
  uid[i] = __sa_fd_uid(fd[i]);
  reactor_handler_construct(&src[i]->h, callback, &state[i]);
  reactor_add(&src[i]->h, fd[i], EPOLLIN);
  registered[i] = 1;
  nreg ++;
  return i;
}

/* the entries of the batch that belong to a removed source need no delivery any more */
static void skip(int i)
{
  int k;

  for (k = 0; k < __sa_batch(); k ++)
    if (__sa_batch_fd(k) == fd[i] && __sa_batch_uid(k) == uid[i])
      done[k] = 1;
}

static void drop(int i, int release)
{
  reactor_delete(&src[i]->h, fd[i]);
  skip(i);
  registered[i] = 0;
  nreg --;
  close(fd[i]);
  if (release)
  {
    free(src[i]);
    src[i] = NULL;
  }
}

/* the memory of a removed source is put to use as another source at once */
static void replace(int i)
{
  int k = nsrc;

  drop(i, 0);
  nsrc ++;
  src[k] = src[i];
  src[i] = NULL;
  fd[k] = __sa_pipe();
  uid[k] = __sa_fd_uid(fd[k]);
  reactor_handler_construct(&src[k]->h, callback, &state[k]);
  reactor_add(&src[k]->h, fd[k], EPOLLIN);
  registered[k] = 1;
  nreg ++;
}

static void once(void)
{
  int i, w = __sa_waits();

  for (i = 0; i < 32; i ++)
    done[i] = 0;
  reactor_loop_once();
  __sa_check(__sa_waits() == w + 1, "an iteration waits once");
  for (i = 0; i < __sa_batch(); i ++)
    __sa_check(done[i], "every reported event of a registered source is delivered before the iteration ends");
}
