From aa3515b9621b2278807650a9875ed80c54daa04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 01/20] fix: string_write advances after a partial write

The offset was decreased by the number of bytes written, so that a partial
write was followed by an out of bounds write or an early end.
---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..b204333 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From e648b38e39de11167c49f8901f983999e53179bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 02/20] fix: string_free frees allocated strings that are empty

The contents were compared with those of the shared empty string, leaking
every allocated string of size zero.
---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index b204333..0fb3bea 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From 5daa405dbc82bb6d52a8a901b14691e4e1b54cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 03/20] fix: string_save replaces the contents of the file

Without O_TRUNC the tail of a longer previous file was kept.
---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 0fb3bea..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From f285513d5d079f49b1a4d66c43316129dbc639b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 04/20] fix: a failing write on a stream does not abort the
 process

A connection reset by the peer makes write fail with EPIPE or ECONNRESET.  The
reactor reports the hang-up, which surfaces as a close notification.
---
 src/reactor/stream.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..e11e714 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -55,10 +55,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From f5555447dc767bb4dce1207f47f1d52fed33087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 05/20] fix: plain streams notify once all output is sent and
 only on request

Write notifications were delivered without a request once the output was sent,
(closing server connections), or before it was sent if one was requested.
---
 src/reactor/stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index e11e714..1f3151e 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -75,7 +75,7 @@ static void stream_socket_callback(reactor_event *event)
     break;
   case DESCRIPTOR_WRITE:
     stream_socket_write(stream);
-    if (buffer_size(&stream->output) == 0 || stream->notify)
+    if (buffer_size(&stream->output) == 0 && stream->notify)
     {
       stream->notify = 0;
       stream_socket_update(stream);
-- 
2.43.0


From 219f1486a12559ea8709ff92c83788dfd75a0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 06/20] fix: flushing a TLS stream goes on until the output is
 sent or blocked

With partial writes enabled a single SSL_write sends one record only.  As the
descriptor is edge triggered, no further write event follows for the rest.
---
 src/reactor/stream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 1f3151e..747d42b 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,9 +135,12 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  do
+  {
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    if (n > 0)
+      buffer_erase(&stream->output, 0, n);
+  } while (n > 0 && buffer_size(&stream->output));
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From e842bd5a64de6c712f7e90d9373d0f0c0a58f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 07/20] fix: closing a TLS stream forgets the released session

A stream closed and opened again without TLS used the released session.
---
 src/reactor/stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 747d42b..6f8f95c 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -246,6 +246,8 @@ void stream_close(stream *stream)
   if (stream_ssl_activated)
     SSL_free(stream->ssl);
 
+  stream->ssl = NULL;
+  stream->ssl_state = 0;
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
   buffer_clear(&stream->input);
-- 
2.43.0


From 12f6f8388679e30f25c26ec39af9d79a7baefaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 08/20] fix: reserve room for the actual date of a response

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..b955851 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + (8 + data_size(date)) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 089e705f2508268ce84f5746447ed42e1c59c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 09/20] fix: stop at the end of the input when skipping spaces

The parser read beyond its input when it ended right after a token.
---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From 5f3fad4a1a664b842d7d1a026aa7b272eff53365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 10/20] fix: deliver every signal of an event

The event descriptor counts signals like a semaphore, but was edge triggered and
read once, losing all but one of several signals.
---
 src/reactor/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/event.c b/src/reactor/event.c
index c66e6e1..f9785cb 100644
--- a/src/reactor/event.c
+++ b/src/reactor/event.c
@@ -33,7 +33,7 @@ void event_open(event *event)
 
   fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
   assert(fd != -1);
-  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 int event_is_open(event *event)
-- 
2.43.0


From 2042917e75f7c65d599f05a97ecfe99dddba1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 11/20] fix: a timer set again after it expired does not abort

Setting a timer from a callback called earlier in the same iteration resets its
expirations, there is nothing to read then.
---
 src/reactor/timer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..2f3f70c 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,8 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
-  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
+  if (total)
+    reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
 void timer_construct(timer *timer, reactor_callback *callback, void *state)
-- 
2.43.0


From c9e3e679681e18ba6b9ecedbfc0cd322af7abc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 12/20] fix: a watcher can be cleared from its callback and
 forgets its watches

Clearing from the callback continued reading a closed descriptor and aborted;
entries of a previous life were matched with the watches of the next.
---
 src/reactor/notify.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..a9d0899 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -69,6 +69,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -97,9 +103,4 @@ void notify_destruct(notify *notify)
 {
   notify_clear(notify);
   list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From c9b3b26ec6e7851ced280803789818bc2e038b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 13/20] fix: ignore file system events without a watch

A queue overflow is reported with watch descriptor -1.
---
 src/reactor/notify.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index a9d0899..9404484 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -42,11 +42,10 @@ static void notify_callback(reactor_event *event)
     {
       inotify_event = (struct inotify_event *) p;
       e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
+      while (e != list_end(&notify->entries) && e->id != inotify_event->wd)
         e = list_next(e);
-        assert(e != list_end(&notify->entries));
-      }
+      if (e == list_end(&notify->entries))
+        continue;
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
       reactor_dispatch(&notify->handler, NOTIFY_EVENT, (uintptr_t) &notify_event);
-- 
2.43.0


From 28aafc12c2d42ffe2712124ec404dc8bc25b617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 14/20] fix: join the thread of a task before its event goes
 away

A detached thread may still use the task when it has been cancelled, and its
handle was cancelled after it had ended.
---
 src/reactor/async.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/reactor/async.c b/src/reactor/async.c
index 0ee4cb7..0c0f152 100644
--- a/src/reactor/async.c
+++ b/src/reactor/async.c
@@ -18,6 +18,7 @@ static void async_callback(reactor_event *event)
   async *async = event->state;
 
   assert(event->type == EVENT_SIGNAL);
+  (void) pthread_join(async->thread, NULL);
   async->thread = 0;
   async_cancel(async);
   reactor_dispatch(&async->handler, ASYNC_DONE, 0);
@@ -39,12 +40,9 @@ void async_destruct(async *async)
 void async_call(async *async)
 {
   int e;
-  pthread_attr_t attr;
 
   event_open(&async->event);
-  pthread_attr_init(&attr);
-  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
-  e = pthread_create(&async->thread, &attr, async_thread, async);
+  e = pthread_create(&async->thread, NULL, async_thread, async);
   assert(e == 0);
 }
 
@@ -52,11 +50,12 @@ void async_cancel(async *async)
 {
   if (event_is_open(&async->event))
   {
-    event_close(&async->event);
     if (async->thread)
     {
       (void) pthread_cancel(async->thread);
+      (void) pthread_join(async->thread, NULL);
       async->thread = 0;
     }
+    event_close(&async->event);
   }
 }
-- 
2.43.0


From e99f15c0e03d197af2659af5adb9f116a91cdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 15/20] fix: failing to create or listen on a socket does not
 abort

---
 src/reactor/net.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..3339903 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,22 +27,24 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
+  if (fd == -1)
+  {
+    freeaddrinfo(addrinfo);
+    return -1;
+  }
   if (addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (int[]) {1}, sizeof(int));
     e = bind(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
+    if (e == 0)
+      e = listen(fd, INT_MAX);
     if (e == -1)
     {
       e = close(fd);
       assert(e == 0);
       fd = -1;
     }
-    else
-    {
-      e = listen(fd, INT_MAX);
-      assert(e == 0);
-    }
   }
   else
     (void) connect(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
-- 
2.43.0


From ce5549df070106b239371187580739d6d440f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 16/20] fix: shutting down a server closes connections with
 held requests

Releasing took the hold of the application away, leaving the connection open and
the request to be freed while still in use.
---
 src/reactor/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..64c86a5 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -223,7 +223,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    server_close(request);
     request = next;
   }
 
-- 
2.43.0


From f70aba9ee241f1103c01619a562c11d0d3b5ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 17/20] fix: requests that outlive their server leave its list
 of requests

---
 src/reactor/list.c   | 9 +++++++++
 src/reactor/list.h   | 1 +
 src/reactor/server.c | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/reactor/list.c b/src/reactor/list.c
index aca9d41..a2b9f6c 100644
--- a/src/reactor/list.c
+++ b/src/reactor/list.c
@@ -119,6 +119,15 @@ void list_splice(void *object1, void *object2)
   from->list.next->list.previous = from;
 }
 
+void list_detach(void *object)
+{
+  list_item *item = list_object_item(object);
+
+  item->list.previous->list.next = item->list.next;
+  item->list.next->list.previous = item->list.previous;
+  list_construct(&item->list);
+}
+
 void list_erase(void *object, list_release *release)
 {
   list_item *item = list_object_item(object);
diff --git a/src/reactor/list.h b/src/reactor/list.h
index 925abfa..688cbc9 100644
--- a/src/reactor/list.h
+++ b/src/reactor/list.h
@@ -42,6 +42,7 @@ void *list_push_front(list *, void *, size_t);
 void *list_push_back(list *, void *, size_t);
 void *list_insert(void *, void *, size_t);
 void  list_splice(void *, void *);
+void  list_detach(void *);
 void  list_erase(void *, list_release *);
 void  list_clear(list *, list_release *);
 
diff --git a/src/reactor/server.c b/src/reactor/server.c
index 64c86a5..0363d5b 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -223,6 +223,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
+    list_detach(request);
     server_close(request);
     request = next;
   }
-- 
2.43.0


From f50601857ef3a741a48e7102b8245f97aa47d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 18/20] fix: send a TLS stream's output of two gigabytes and
 more in pieces

---
 src/reactor/stream.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 6f8f95c..8e3e9e8 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <unistd.h>
 #include <errno.h>
+#include <limits.h>
 #include <assert.h>
 #include <sys/socket.h>
 #include <sys/stat.h>
@@ -133,11 +134,13 @@ static size_t stream_ssl_read(stream *stream)
 static void stream_ssl_flush(stream *stream)
 {
   ssize_t n;
+  size_t size;
 
   assert(stream_ssl_activated);
   do
   {
-    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    size = buffer_size(&stream->output);
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), size > INT_MAX ? INT_MAX : size);
     if (n > 0)
       buffer_erase(&stream->output, 0, n);
   } while (n > 0 && buffer_size(&stream->output));
-- 
2.43.0


From 830e33a5282c946eaf88ad00d015ac13c8133272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 19/20] fix: responses carry a date before the server's timer
 has ticked

---
 src/reactor/server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 0363d5b..5530b4b 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -24,8 +24,12 @@ static __thread int server_ssl_activated = 0;
 
 static __thread char server_date_string[30];
 
+static void server_date_update(void);
+
 static data server_date(void)
 {
+  if (!server_date_string[0])
+    server_date_update();
   return data_construct(server_date_string, 29);
 }
 
-- 
2.43.0


From 326367a90b4286cb1bbe51945943f0c6b0392c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 20/20] fix: Content-Length of bodies of four gigabytes and
 more

---
 src/reactor/http.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index b955851..8227ed5 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -4,6 +4,18 @@
 #include "picohttpparser/picohttpparser.h"
 #include "reactor.h"
 
+/* http length */
+
+static data http_length(char *end, size_t n)
+{
+  char *p = end;
+
+  do
+    *--p = '0' + n % 10;
+  while (n /= 10);
+  return data_construct(p, end - p);
+}
+
 /* http field */
 
 http_field http_field_construct(data name, data value)
@@ -56,14 +68,11 @@ ssize_t http_read_request_data(data buffer, data *method, data *target, http_fie
 
 void http_write_request(stream *stream, data method, data target, data host, data type, data body)
 {
-  char storage[16];
-  size_t size;
+  char storage[20];
   data length;
   pointer p;
 
-  size = utility_u32_len(data_size(body));
-  utility_u32_sprint(data_size(body), storage + size);
-  length = data_construct(storage, size);
+  length = http_length(storage + sizeof storage, data_size(body));
 
   p = stream_allocate(stream,
                       data_size(method) + 1 + data_size(target) + 11 +
@@ -102,14 +111,11 @@ ssize_t http_read_response(stream *stream, int *status_code, data *status, http_
 
 void http_write_response(stream *stream, data status, data date, data type, data body)
 {
-  char storage[16];
-  size_t size;
+  char storage[20];
   data length;
   pointer p;
 
-  size = utility_u32_len(data_size(body));
-  utility_u32_sprint(data_size(body), storage + size);
-  length = data_construct(storage, size);
+  length = http_length(storage + sizeof storage, data_size(body));
 
   p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + (8 + data_size(date)) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
-- 
2.43.0

