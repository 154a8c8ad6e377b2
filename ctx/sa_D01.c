/* D01: interest mask and event translation are exact. */
#include <reactor.h>
#include <sys/epoll.h>
#include <unistd.h>
#include "sa.h"

static descriptor *d;
static int fd, bits, calls, seen[4], order[4];
static int action, tag;

static void expect(int mask)
{
  int e = __sa_ep_events(fd);

  __sa_check(e != -1, "an open descriptor is registered");
  __sa_check(!(e & EPOLLIN) == !(mask & DESCRIPTOR_READ), "read readiness is asked for exactly if there is read interest");
  __sa_check(!(e & EPOLLOUT) == !(mask & DESCRIPTOR_WRITE), "write readiness is asked for exactly if there is write interest");
  __sa_check(__sa_ep_et(fd) == !(mask & DESCRIPTOR_LEVEL), "edge triggered exactly unless level mode was asked for");
  __sa_check((e & EPOLLRDHUP) != 0, "hang-up conditions are always asked for");
  __sa_check((e & ~(EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP | EPOLLERR)) == 0, "nothing else is asked for");
}

static void callback(reactor_event *e)
{
  __sa_check(e->state == &tag, "the callback gets its own state");
  __sa_check(calls < 3, "at most one notification of each kind per event");
  order[calls ++] = e->type;
  switch (action)
  {
  case 1:
    descriptor_mask(d, DESCRIPTOR_READ);
    expect(DESCRIPTOR_READ);
    break;
  case 2:
    descriptor_mask(d, 0);
    expect(0);
    break;
  case 3:
    descriptor_close(d);
    __sa_mark("closed in callback");
    break;
  }
}

/* sequences of masks */
void ctx_masks(void)
{
  int m, i;

  reactor_construct();
  d = malloc(sizeof *d);
  descriptor_construct(d, callback, &tag);
  fd = __sa_choice(2, "kind") ? __sa_sock() : __sa_pipe();
  m = __sa_choice(8, "mask");
  descriptor_open(d, fd, m);
  __sa_check(descriptor_fd(d) == fd && descriptor_is_open(d), "an opened descriptor knows its number");
  expect(m);
  for (i = 0; i < 2; i ++)
  {
    m = __sa_choice(8, "mask");
    descriptor_mask(d, m);
    expect(m);
  }
  __sa_mark("masks");
  descriptor_close(d);
  __sa_check(!descriptor_is_open(d) && descriptor_fd(d) == -1 && !__sa_fd_open(fd), "closing closes");
  free(d);
  reactor_destruct();
  __sa_no_leaks("descriptor");
}

/* opened again, with a mask equal to or different from the former one */
void ctx_masks_again(void)
{
  int m;

  reactor_construct();
  d = malloc(sizeof *d);
  descriptor_construct(d, callback, &tag);
  fd = __sa_pipe();
  descriptor_open(d, fd, __sa_choice(8, "mask"));
  descriptor_close(d);
  fd = __sa_pipe();
  m = __sa_choice(8, "mask");
  descriptor_open(d, fd, m);
  expect(m);
  m = __sa_choice(8, "mask");
  descriptor_mask(d, m);
  expect(m);
  __sa_mark("masks after opening again");
  descriptor_destruct(d);
  free(d);
  reactor_destruct();
  __sa_no_leaks("descriptor");
}

/* every combination of bits under every mask */
static void run(int masks)
{
  int m, i, n = 0;

  __sa_config("menu", 2);
  reactor_construct();
  d = malloc(sizeof *d);
  descriptor_construct(d, callback, &tag);
  fd = __sa_pipe();
  m = __sa_choice(8, "mask");
  descriptor_open(d, fd, m);
  reactor_loop_once();
  bits = __sa_batch_bits(0);
  if (bits & EPOLLIN)
    __sa_check(calls > n && order[n] == DESCRIPTOR_READ, "a readable event gives a read notification first"), n ++;
  if (action != 3 || n == 0)
  {
    if (bits & EPOLLOUT)
      __sa_check(calls > n && order[n] == DESCRIPTOR_WRITE, "a writable event gives a write notification after any read notification"), n ++;
    if (action != 3 || n == 0)
      if (bits & ~(EPOLLIN | EPOLLOUT))
        __sa_check(calls > n && order[n] == DESCRIPTOR_CLOSE, "a hang-up or error event gives a close notification last"), n ++;
  }
  __sa_check(calls == n, "no other notification is given");
  __sa_mark("translated");
  descriptor_destruct(d);
  free(d);
  reactor_destruct();
  __sa_no_leaks("descriptor");
}

void ctx_translate(void) { run(8); }
void ctx_translate_action(void) { action = 1 + __sa_choice(3, "action of the callback"); run(8); }
