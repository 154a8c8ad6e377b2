/* R06: responses always carry a well-formed date. */
#include <reactor.h>
#include <string.h>
#include "sa.h"

static server v;
static server_request *held;
static int all, how, hold, fd, ticks;

static int tm[8], answered;

/* the time known when the response was made */
static void remember(void)
{
  int i;

  for (i = -1; i < 7; i ++)
    tm[i + 1] = __sa_tm(i);
}

static int number(const char *p, int digits)
{
  int i, n = 0;

  for (i = 0; i < digits; i ++)
  {
    __sa_check(p[i] >= '0' && p[i] <= '9', "the numbers of a date are decimal");
    n = n * 10 + (p[i] - '0');
  }
  return n;
}

/* the date of the response that begins at p */
static void dated(const char *p, size_t n)
{
  static const char days[] = "SunMonTueWedThuFriSat", months[] = "JanFebMarAprMayJunJulAugSepOctNovDec", field[] = "\r\nDate: ";
  size_t i, k = sizeof field - 1;

  for (i = 0; i + k <= n && memcmp(p + i, field, k); i ++);
  __sa_check(i + k + 31 <= n, "a response carries a date");
  p += i + k;
  if (!answered)
    remember();
  __sa_check(p[29] == '\r' && p[30] == '\n', "a date has 29 characters");
  __sa_check(tm[0] == 1, "a date is that of a time in GMT");
  __sa_check(!memcmp(p, days + 3 * tm[7], 3) && p[3] == ',' && p[4] == ' ', "a date begins with the English name of the day");
  __sa_check(number(p + 5, 2) == tm[4] && p[7] == ' ', "the day of the month is in two digits");
  __sa_check(!memcmp(p + 8, months + 3 * tm[5], 3) && p[11] == ' ', "the month is its English name");
  __sa_check(number(p + 12, 4) == 1900 + tm[6] && p[16] == ' ', "the year is in four digits");
  __sa_check(number(p + 17, 2) == tm[3] && p[19] == ':', "the hour is in two digits");
  __sa_check(number(p + 20, 2) == tm[2] && p[22] == ':', "the minute is in two digits");
  __sa_check(number(p + 23, 2) == tm[1] && !memcmp(p + 25, " GMT", 4), "the second is in two digits, followed by the zone");
  __sa_mark("dated");
}

static void answer(server_request *r)
{
  switch (how)
  {
  case 0: server_ok(r, data_string("text/plain"), data_string("body")); break;
  case 1: server_not_found(r); break;
  case 2: server_respond(r, data_string("302 Found"), data_null(), data_null()); break;
  case 3: server_bad_request(r); break;
  }
  remember();
  answered = 1;
}

static void callback(reactor_event *e)
{
  if (hold)
    held = (server_request *) e->data;
  else
    answer((server_request *) e->data);
}

static void run(int listening, int iterations, int h, int later)
{
  int i, uid;

  how = h;
  hold = later;
  __sa_config("truebits", 1);
  __sa_config("fullwrites", 1);
  __sa_config("requests", 1);
  __sa_config("inrounds", 1);
  __sa_config("quiet", 1);
  __sa_config("badreq", how == 4);
  __sa_config("accepts", 0);
  __sa_config("menu", -1);
  __sa_config("oneread", 1);
  __sa_config("maxreads", 2);
  __sa_config("tmpick", !all);
  reactor_construct();
  server_construct(&v, callback, NULL);
  if (listening)
    server_open(&v, __sa_listen(), NULL);
  fd = __sa_sock();
  uid = __sa_fd_uid(fd);
  server_accept(&v, fd);
  for (i = 0; i < iterations; i ++)
    reactor_loop_once();
  if (held)
    answer(held);
  if (__sa_uid_outlen(uid))
    dated(__sa_uid_outlog(uid), __sa_uid_outlen(uid));
  server_destruct(&v);
  reactor_destruct();
}

/* every day and month */
void ctx_names(void) { all = 1; run(0, 1, 0, 0); }
/* connections handed to a server that listens nowhere: its timer never runs */
void ctx_accepted(void) { run(0, 1, __sa_choice(5, "response"), 0); }
/* responses before, at and after ticks of the timer */
void ctx_ticking(void) { run(1, 2, 0, 0); }
void ctx_later(void) { run(1, 2, 1, 1); }
