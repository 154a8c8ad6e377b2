/* One concrete demonstration per repaired defect: defects N exits 0 if libreactor behaves. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <assert.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/inotify.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <openssl/err.h>
#include <reactor.h>
#include <reactor/data.h>
#include <reactor/string.h>
#include "picohttpparser/picohttpparser.h"

static char dir[] = "/tmp/defectsXXXXXX", path[64];
static int result;

/* 1: string_write through a pipe with partial writes (a signal interrupts the blocked writer) */
static void alarm_handler(int s) { (void) s; }
static int string_write_partial(void)
{
  int fd[2], n, total = 0, status;
  static char b[65536];
  string s = string_resize(string_null(), 1 << 20);
  pid_t pid;
  memset(s, 'x', 1 << 20);
  assert(pipe(fd) == 0);
  if ((pid = fork()) == 0)
  {
    struct sigaction sa = {.sa_handler = alarm_handler};
    close(fd[0]);
    sigaction(SIGALRM, &sa, NULL);
    ualarm(50000, 0);
    string_write(s, fd[1]);
    _exit(0);
  }
  close(fd[1]);
  usleep(200000);
  while ((n = read(fd[0], b, sizeof b)) > 0)
    total += n;
  waitpid(pid, &status, 0);
  return total != 1 << 20 || status;
}

/* 2 */
static int string_leak(void)
{
  int i;
  struct rusage a, b;
  getrusage(RUSAGE_SELF, &a);
  for (i = 0; i < 2000; i ++)
  {
    string s = string_resize(string_null(), 100000);
    memset(s, 1, 100000);
    string_free(string_resize(s, 0));
  }
  getrusage(RUSAGE_SELF, &b);
  return b.ru_maxrss - a.ru_maxrss > 50000;
}

/* 3 */
static int string_tail(void)
{
  int fd = open(path, O_CREAT | O_RDWR, 0600);
  string s = string_append_data(string_null(), data_string("new")), t;
  assert(write(fd, "something old", 13) == 13);
  assert(string_save(s, path) == 0);
  t = string_load(path);
  return !string_equal(s, t);
}

/* 4 */
static void ignore(reactor_event *e) { (void) e; }
static int stream_reset(void)
{
  int fd[2];
  stream s;
  reactor_construct();
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0);
  stream_construct(&s, ignore, NULL);
  stream_open(&s, fd[0], STREAM_READ, NULL);
  close(fd[1]);
  stream_write(&s, data_string("x"));
  stream_flush(&s);
  stream_destruct(&s);
  reactor_destruct();
  return 0;
}

/* 5: a keep-alive connection must survive a large response */
static char *big;
#define BIG 30000000
static void respond(reactor_event *e)
{
  server_ok((server_request *) e->data, data_null(), data_construct(big, BIG));
}
static int stream_notify_spurious(void)
{
  int fd[2], i;
  server s;
  size_t total = 0;
  ssize_t n;
  static char b[65536];
  big = calloc(1, BIG);
  reactor_construct();
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0);
  server_construct(&s, respond, NULL);
  server_accept(&s, fd[0]);
  assert(write(fd[1], "GET / HTTP/1.1\r\n\r\n", 18) == 18);
  for (i = 0; i < 100000 && total < BIG; i ++)
  {
    reactor_loop_once();
    while ((n = read(fd[1], b, sizeof b)) > 0)
      total += n;
    if (n == 0)
      break;
  }
  while ((n = read(fd[1], b, sizeof b)) > 0);
  return total < BIG || n == 0;
}

/* 6: more than one record, then silence */
static int finished;
static size_t received, wanted = 5000000;
static void tls_reader(reactor_event *e)
{
  stream *s = e->state;
  data d = stream_read(s);
  received += data_size(d);
  stream_consume(s, data_size(d));
  if (received >= wanted)
    finished = 1;
}
static void tcp_pair(int *fd)
{
  struct sockaddr_in sa = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
  socklen_t n = sizeof sa;
  int l = socket(AF_INET, SOCK_STREAM, 0);
  assert(bind(l, (void *) &sa, n) == 0 && listen(l, 1) == 0 && getsockname(l, (void *) &sa, &n) == 0);
  fd[0] = socket(AF_INET, SOCK_STREAM, 0);
  assert(connect(fd[0], (void *) &sa, n) == 0);
  fd[1] = accept(l, NULL, NULL);
  fcntl(fd[0], F_SETFL, O_NONBLOCK);
  fcntl(fd[1], F_SETFL, O_NONBLOCK);
  close(l);
}
static int tls_stall(void)
{
  int fd[2], i;
  stream a, b;
  SSL_CTX *cc, *sc;
  char *x = calloc(1, wanted);
  cc = SSL_CTX_new(TLS_client_method());
  sc = net_ssl_server_context("test/files/cert.pem", "test/files/key.pem");
  assert(cc && sc);
  reactor_construct();
  tcp_pair(fd);
  stream_construct(&a, tls_reader, &a);
  stream_open(&a, fd[0], STREAM_READ, cc);
  stream_construct(&b, ignore, NULL);
  stream_open(&b, fd[1], STREAM_READ, sc);
  stream_write(&a, data_string("x"));
  stream_flush(&a);
  alarm(10);
  for (i = 0; i < 20; i ++) /* handshake */
  {
    reactor_loop_once();
    if (SSL_is_init_finished(b.ssl))
      break;
  }
  stream_write(&b, data_construct(x, wanted));
  stream_flush(&b);
  while (!finished)
    reactor_loop_once();
  return 0;
}

/* 7 */
static int tls_reopen(void)
{
  int fd[2], fe[2];
  stream a;
  char c = 0;
  SSL_CTX *cc = SSL_CTX_new(TLS_client_method());
  reactor_construct();
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0);
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fe) == 0);
  stream_construct(&a, ignore, &a);
  stream_open(&a, fd[0], STREAM_READ, cc);
  stream_close(&a);
  stream_open(&a, fe[0], STREAM_READ, NULL);
  stream_write(&a, data_string("x"));
  stream_flush(&a);
  return read(fe[1], &c, 1) != 1 || c != 'x';
}

/* 8 */
static int date_size(void)
{
  stream s;
  char *d = calloc(1, 100000);
  memset(d, 'd', 100000);
  stream_construct(&s, ignore, NULL);
  http_write_response(&s, data_string("200 OK"), data_construct(d, 100000), data_null(), data_null());
  return buffer_size(&s.output) < 100000;
}

/* 9 */
static int parser_overread(void)
{
  char *p = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  const char *m, *t;
  size_t ml, tl, n = 4;
  int v;
  struct phr_header h[4];
  memcpy(p + 4096 - 4, "GET ", 4);
  mprotect(p + 4096, 4096, PROT_NONE);
  return phr_parse_request(p + 4096 - 4, 4, &m, &ml, &t, &tl, &v, h, &n, 0) != -2;
}

/* 10 */
static int signals;
static void count(reactor_event *e) { (void) e; signals ++; }
static int event_lost(void)
{
  event e;
  int i;
  timer t;
  reactor_construct();
  event_construct(&e, count, NULL);
  event_open(&e);
  timer_construct(&t, ignore, NULL);
  timer_set(&t, 1, 1000000);
  for (i = 0; i < 3; i ++)
    event_signal(&e);
  for (i = 0; i < 20; i ++)
    reactor_loop_once();
  return signals != 3;
}

/* 11 */
static timer ta, tb;
static void rearm(reactor_event *e) { timer_set(e->state, 1000000000, 0); }
static int timer_abort(void)
{
  reactor_construct();
  timer_construct(&ta, rearm, &tb);
  timer_construct(&tb, rearm, &ta);
  timer_set(&ta, 1, 0);
  timer_set(&tb, 1, 0);
  usleep(10000);
  reactor_loop_once();
  return 0;
}

/* 12 */
static notify nt;
static void clear_it(reactor_event *e) { (void) e; notify_clear(&nt); }
static int notify_abort(void)
{
  reactor_construct();
  notify_construct(&nt, clear_it, NULL);
  notify_watch(&nt, dir, IN_CREATE);
  close(open(path, O_CREAT | O_RDWR, 0600));
  reactor_loop_once();
  notify_destruct(&nt);
  return 0;
}

/* 13: events for a path no longer watched */
static char seen[100];
static void see(reactor_event *e) { strcpy(seen, ((notify_event *) e->data)->path); }
static int notify_stale(void)
{
  reactor_construct();
  notify_construct(&nt, see, NULL);
  notify_watch(&nt, "/", IN_CREATE);
  notify_clear(&nt);
  notify_watch(&nt, dir, IN_CREATE);
  close(open(path, O_CREAT | O_RDWR, 0600));
  reactor_loop_once();
  return strcmp(seen, dir) != 0;
}

/* 14: queue overflow (replayed as the record the kernel queues) */
static int notify_overflow(void)
{
  int fd[2];
  struct inotify_event r = {.wd = -1, .mask = IN_Q_OVERFLOW};
  reactor_construct();
  notify_construct(&nt, ignore, NULL);
  notify_watch(&nt, dir, IN_CREATE);
  assert(pipe2(fd, O_NONBLOCK) == 0);
  assert(write(fd[1], &r, sizeof r) == sizeof r);
  descriptor_close(&nt.descriptor);
  descriptor_open(&nt.descriptor, fd[0], DESCRIPTOR_READ);
  reactor_loop_once();
  return 0;
}

/* 15: the task is freed while its thread runs */
static async *task;
static volatile int started, late;
static void work(reactor_event *e)
{
  volatile int i;
  if (e->type != ASYNC_CALL)
    return;
  started = 1;
  for (i = 0; i < 300000000; i ++);
  late = 1;
}
static int async_race(void)
{
  reactor_construct();
  task = malloc(sizeof *task);
  async_construct(task, work, NULL);
  async_call(task);
  while (!started);
  async_destruct(task);
  if (late)
    return 0;
  memset(task, 0xff, sizeof *task);
  usleep(2000000);
  return late;
}

/* 16 */
static int socket_failure(void)
{
  struct rlimit r = {3, 3};
  struct addrinfo *a = net_resolve("127.0.0.1", "0", AF_INET, SOCK_STREAM, AI_PASSIVE);
  assert(a);
  setrlimit(RLIMIT_NOFILE, &r);
  return net_socket(a) != -1;
}

/* 17 */
static server_request *held;
static void hold(reactor_event *e) { held = (server_request *) e->data; }
static int shutdown_held(void)
{
  int fd[2];
  char c;
  server s;
  reactor_construct();
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0);
  server_construct(&s, hold, NULL);
  server_accept(&s, fd[0]);
  assert(write(fd[1], "GET / HTTP/1.1\r\n\r\n", 18) == 18);
  reactor_loop_once();
  server_shutdown(&s);
  return read(fd[1], &c, 1) != 0; /* the connection has to be closed now */
}

/* 18: the server is destroyed and its memory reused before a held request is released */
static int server_freed(void)
{
  int fd[2], i;
  server *s = malloc(sizeof *s);
  unsigned char *m;
  reactor_construct();
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0);
  server_construct(s, hold, NULL);
  server_accept(s, fd[0]);
  assert(write(fd[1], "GET / HTTP/1.1\r\n\r\n", 18) == 18);
  reactor_loop_once();
  server_destruct(s);
  m = memset(s, 0x55, sizeof *s);
  server_release(held);
  for (i = 0; i < (int) sizeof *s; i ++)
    if (m[i] != 0x55)
      return 1;
  return 0;
}

/* 19: two gigabytes and more in the queue of a TLS stream; the handshake is the first thing to be sent */
static int tls_huge(void)
{
  int fd[2];
  char c;
  size_t n = 1UL << 31;
  stream a;
  SSL_CTX *cc = SSL_CTX_new(TLS_client_method());
  char *x = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  assert(x != MAP_FAILED);
  reactor_construct();
  tcp_pair(fd);
  stream_construct(&a, ignore, &a);
  stream_open(&a, fd[0], STREAM_READ, cc);
  stream_write(&a, data_construct(x, n));
  stream_flush(&a);
  return read(fd[1], &c, 1) != 1;
}

/* 20: a response is sent before the server's timer has ticked for the first time */
static void say_ok(reactor_event *e)
{
  server_ok((server_request *) e->data, data_null(), data_null());
}

static int early_date(void)
{
  int fd[2];
  char b[256] = {0}, *d;
  server s;
  reactor_construct();
  assert(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0);
  server_construct(&s, say_ok, NULL);
  server_accept(&s, fd[0]);
  assert(write(fd[1], "GET / HTTP/1.1\r\n\r\n", 18) == 18);
  reactor_loop_once();
  assert(read(fd[1], b, sizeof b - 1) > 0);
  d = strstr(b, "Date: ");
  return !d || strlen(d) < 35 || memcmp(d + 6 + 25, " GMT", 4);
}

static int huge_body(void)
{
  size_t n = (4UL << 30) + 5;
  char *b = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *x;
  stream s;
  assert(b != MAP_FAILED);
  stream_construct(&s, NULL, NULL);
  http_write_response(&s, data_string("200 OK"), data_string("xxxxxxxxxxxxxxxxxxxxxxxxxxxxx"), data_null(), data_construct(b, n));
  x = memmem(buffer_data(&s.output), 200, "Content-Length: ", 16);
  return !x || strtoul(x + 16, NULL, 10) != n;
}

int main(int argc, char **argv)
{
  int (*f[])(void) = {NULL, string_write_partial, string_leak, string_tail, stream_reset, stream_notify_spurious, tls_stall, tls_reopen, date_size,
    parser_overread, event_lost, timer_abort, notify_abort, notify_stale, notify_overflow, async_race, socket_failure, shutdown_held, server_freed, tls_huge, early_date, huge_body};
  int n = sizeof f / sizeof *f;
  if (argc < 2)
    return printf("%d\n", n), 0;
  assert(mkdtemp(dir));
  snprintf(path, sizeof path, "%s/f", dir);
  pid_t pid = fork();
  if (!pid)
    _exit(f[atoi(argv[1])]());
  waitpid(pid, &result, 0);
  unlink(path);
  rmdir(dir);
  printf("%s\n", WIFSIGNALED(result) ? strsignal(WTERMSIG(result)) : WEXITSTATUS(result) ? "wrong" : "ok");
  return result != 0;
}
