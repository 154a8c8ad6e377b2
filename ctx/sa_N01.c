/* N01: socket creation reports failure and never leaks. */
#include <reactor.h>
#include <netdb.h>
#include <unistd.h>
#include <sys/socket.h>
#include "sa.h"

static void passive(int fd)
{
  __sa_check(__sa_sock_state(fd, "bound") && __sa_sock_state(fd, "listening"), "a passive socket is bound and listening");
  __sa_check(!__sa_sock_state(fd, "connected"), "a passive socket is not connecting");
  __sa_check(__sa_sock_reuse(fd) & 1, "address reuse is enabled");
  __sa_check(__sa_sock_reuse(fd) & 2, "address reuse is enabled before binding");
}

void ctx_socket(void)
{
  struct addrinfo *a = NULL;
  int fd, flags = 0, none;

  none = __sa_choice(5, "address list");
  if (none == 0)
    a = NULL;
  else
  {
    flags = (int[]) {0, 0, AI_PASSIVE, AI_PASSIVE | AI_NUMERICHOST, AI_CANONNAME | AI_ADDRCONFIG}[none];
    a = __sa_addrinfo(flags);
  }
  fd = net_socket(a);
  __sa_check(fd == -1 || fd >= 0, "a descriptor or -1 is returned");
  if (!a)
    __sa_check(fd == -1, "without an address no socket is created");
  else
    __sa_check(!__sa_is_live(a), "the address list is released");
  if (fd == -1)
  {
    __sa_check(__sa_open_fds() == 0, "a failure leaves no descriptor open");
    __sa_mark("failure");
  }
  else
  {
    __sa_check(__sa_open_fds() == 1 && __sa_fd_open(fd), "the descriptor returned is open, and the only one");
    __sa_check(__sa_nonblocking(fd), "the socket is non-blocking");
    if (flags & AI_PASSIVE)
    {
      passive(fd);
      __sa_mark("passive");
    }
    else
    {
      __sa_check(__sa_sock_state(fd, "connected"), "an active socket is connecting");
      __sa_check(!__sa_sock_state(fd, "bound") && !__sa_sock_state(fd, "listening"), "an active socket is not listening");
      __sa_mark("active");
    }
  }
}

void ctx_resolve(void)
{
  size_t n = __sa_range("host length", 0, 300), m = __sa_range("service length", 0, 300);
  struct addrinfo *a;
  char *h = __sa_choice(2, "host") ? __sa_cstr("host", n) : NULL, *s = __sa_choice(2, "service") ? __sa_cstr("service", m) : NULL;

  a = net_resolve(h, s, 2, 1, 1);
  __sa_check((a != NULL) == __sa_ghost_int("gai.ok"), "a list is returned exactly if the lookup succeeds");
  if (a)
  {
    __sa_live(a, "the list returned is live");
    __sa_mark("resolved");
    if (__sa_choice(2, "socket"))
    {
      int fd = net_socket(a);
      __sa_check(fd == -1 ? __sa_open_fds() == 0 : __sa_open_fds() == 1, "a failure leaves no descriptor open");
      if (fd >= 0)
        close(fd);
    }
    else
      freeaddrinfo(a);
  }
  else
    __sa_mark("not resolved");
  __sa_no_leaks("addresses");
}

void ctx_context(void)
{
  size_t n = __sa_range("path length", 0, 300);
  SSL_CTX *c = net_ssl_server_context(__sa_cstr("certificate", n), __sa_cstr("key", n));

  if (c)
  {
    __sa_live(c, "the context returned is live");
    __sa_check(__sa_ctx_loaded() == 2, "a context is returned only with certificate and key loaded");
    __sa_mark("context");
    SSL_CTX_free(c);
  }
  else
    __sa_mark("no context");
  __sa_check(__sa_ctxs() == 0, "the context is released on failure");
}
