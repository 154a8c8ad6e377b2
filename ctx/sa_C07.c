/* C07: saving and loading strings transfers every byte. */
#include <reactor.h>
#include <reactor/data.h>
#include <reactor/string.h>
#include <fcntl.h>
#include <unistd.h>
#include "sa.h"

#define MAX (1UL << 32)

static string any(size_t *n, char **x)
{
  *n = __sa_range("length", 0, MAX);
  *x = __sa_bytes("s", *n);
  return string_append_data(string_null(), data_construct(*x, *n));
}

void ctx_write(void)
{
  size_t n;
  char *x;
  string s = any(&n, &x);
  int fd = __sa_file();

  string_write(s, fd);
  __sa_check(__sa_outlen(fd) == n, "every byte of the string is written");
  __sa_same(__sa_outlog(fd), x, n, "the bytes are written in order");
  __sa_check(string_size(s) == n && __sa_fd_open(fd), "writing leaves string and descriptor alone");
  __sa_mark("write");
  close(fd);
  string_free(s);
  __sa_no_leaks("string");
}

void ctx_save(void)
{
  size_t n;
  char *x;
  string s = any(&n, &x);
  int r = string_save(s, __sa_cstr("path", 10)), flags = __sa_ghost_int("open.flags");

  if (r == 0)
  {
    __sa_check((flags & O_ACCMODE) != O_RDONLY, "the file is opened for writing");
    __sa_check(__sa_ghost_int("file.replaced"), "saving replaces the previous contents of the file");
    __sa_check(__sa_ghost_int("file.outlen") == n, "every byte of the string is saved");
    __sa_mark("saved");
  }
  else
  {
    __sa_check(r == -1, "failure to open is reported");
    __sa_mark("not saved");
  }
  __sa_check(__sa_open_fds() == 0, "the descriptor is closed on every path");
  string_free(s);
  __sa_no_leaks("string");
}

static void loaded(string s, size_t n, void *in)
{
  __sa_check(string_size(s) == n, "every byte up to the end of the file is read");
  __sa_same(s, in, n, "the bytes are collected in order");
  __sa_check(s[n] == 0, "the string read is terminated");
}

void ctx_read(void)
{
  int fd = __sa_file();
  string s = string_read(fd);

  loaded(s, __sa_inlen(fd), __sa_inlog(fd));
  __sa_check(__sa_ghost_int("eofs"), "reading goes on until the end of the file");
  __sa_check(__sa_fd_open(fd), "reading leaves the descriptor open");
  close(fd);
  string_free(s);
  __sa_no_leaks("string");
  __sa_mark("read");
}

void ctx_load(void)
{
  string s = string_load(__sa_cstr("path", 10));

  if (__sa_ghost_int("opens") == 0)
  {
    __sa_check(string_empty(s), "a file that cannot be opened yields the empty string");
    __sa_mark("not loaded");
  }
  else
  {
    __sa_check(__sa_ghost_int("eofs"), "reading goes on until the end of the file");
    __sa_check(string_size(s) == __sa_ghost_int("file.inlen"), "every byte up to the end of the file is loaded");
    __sa_mark("loaded");
  }
  __sa_check(__sa_open_fds() == 0, "the descriptor is closed on every path");
  string_free(s);
  __sa_no_leaks("string");
}
