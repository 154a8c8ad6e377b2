/* A stream next to a ghost of everything written to and received from it. */
#include <reactor.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <string.h>
#include "sa.h"

#define MAX (1UL << 30)

enum { PLAIN, PIPE, TLS };

static stream *s;
static int kind, fd, tag, mask, opened;
static SSL_CTX *tls;

/* output */
static char *want;                     /* everything written, one piece after another */
static size_t written;
static int flushed;                    /* nothing was written after the last flush or write event */

/* input */
static size_t consumed, delivered;

/* notifications */
static int asked, told, reads, closes;

static void on_read(void);
static void on_write(void);
static void on_close(void);

static size_t sent(void)
{
  return __sa_outlen(fd);
}

static void callback(reactor_event *e)
{
  __sa_check(e->state == &tag, "the callback gets its own state");
  __sa_check(opened, "a closed stream notifies nothing");
  switch (e->type)
  {
  case STREAM_READ:
    reads ++;
    on_read();
    break;
  case STREAM_WRITE:
    told ++;
    on_write();
    break;
  case STREAM_CLOSE:
    closes ++;
    on_close();
    break;
  default:
    __sa_fail("only the stream's own kinds of notification are made");
  }
}

static void create(void)
{
  s = malloc(sizeof *s);
  stream_construct(s, callback, &tag);
}

static void fresh_ghost(void)
{
  want = __sa_bytes("written", 1UL << 40);
  written = 0;
  flushed = 1;
  consumed = delivered = 0;
  asked = told = reads = closes = 0;
}

static void start(int k, int m)
{
  kind = k;
  mask = m;
  fd = k == PIPE ? __sa_pipe() : __sa_sock();
  fresh_ghost();
  opened = 1;
  stream_open(s, fd, m, k == TLS ? tls : NULL);
}

static void begin(int k, int m)
{
  reactor_construct();
  tls = __sa_sslctx();
  create();
  start(k, m);
}

static void put(size_t n)
{
  stream_write(s, data_construct(want + written, n));
  written += n;
  flushed = n == 0 && flushed;
}

static void allocate(size_t n)
{
  memcpy(stream_allocate(s, n), want + written, n);
  written += n;
  flushed = n == 0 && flushed;
}

static void flush(void)
{
  stream_flush(s);
  flushed = 1;
}

static void finish(void)
{
  opened = 0;
  stream_destruct(s);
  free(s);
  reactor_destruct();
  __sa_no_leaks("stream");
}
