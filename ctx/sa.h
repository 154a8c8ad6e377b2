/* Intrinsics of the analysis contexts.  These functions have no bodies: the contexts are
   analysed by the abstract interpreter, which gives each intrinsic its meaning, and never run. */
#ifndef SA_H
#define SA_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* nondeterminism */
int      __sa_choice(int n, const char *label);                  /* every value 0..n-1 */
uint64_t __sa_range(const char *name, uint64_t lo, uint64_t hi);   /* any value of the range, symbolically */
void     __sa_assume(int);                                     /* restrict to states where it holds */

/* obligations */
void     __sa_check(int, const char *msg);
void     __sa_fail(const char *msg);
void     __sa_mark(const char *name);                           /* must be reached on some completed path */
void     __sa_same(const void *p, const void *q, size_t n, const char *msg);  /* equal contents */
void     __sa_no_leaks(const char *msg);
void     __sa_live(const void *p, const char *msg);            /* p points to live memory */
int      __sa_is_live(const void *p);

/* contents */
void     __sa_forget(void *p);                               /* accesses stay checked, contents are not followed */
void    *__sa_bytes(const char *name, size_t n);                /* constant object of n unknown bytes */
char    *__sa_cstr(const char *name, size_t n);                 /* n unknown non-zero characters and a terminator */
void     __sa_fill(void *p, size_t n, const char *name);         /* n unknown bytes */
void    *__sa_ghost(const char *name);                           /* unbounded ghost memory */
void     __sa_copy(void *p, const void *q, size_t n);
size_t   __sa_objsize(const void *p);                            /* bytes from p to the end of its object */

/* environment */
void     __sa_config(const char *key, int value);
int      __sa_sock(void);
int      __sa_pipe(void);
int      __sa_file(void);
int      __sa_listen(void);
int      __sa_fd_open(int fd);
int      __sa_fd_uid(int fd);
int      __sa_open_fds(void);
int      __sa_ep_events(int fd);                                 /* registered events or -1 */
int      __sa_ep_et(int fd);                                     /* edge triggered? or -1 */
int      __sa_wakes_out(int fd);
int      __sa_wakes_in(int fd);
int      __sa_broken(int fd);
void    *__sa_outlog(int fd);
size_t   __sa_outlen(int fd);
void    *__sa_uid_outlog(int uid);                               /* also when closed */
size_t   __sa_uid_outlen(int uid);
int      __sa_uid_open(int uid);
int64_t  __sa_parsed(int uid, int what);
void    *__sa_inlog(int fd);
size_t   __sa_inlen(int fd);
int      __sa_batch(void);                                       /* events in the batch reported last */
int      __sa_batch_fd(int i);
int      __sa_batch_bits(int i);
int      __sa_batch_uid(int i);
int      __sa_waits(void);
void     __sa_nothing_left(void);                               /* no source whose edge was used has anything left */
uint64_t __sa_ghost_int(const char *key);                         /* counter kept by the environment model */
void     __sa_ghost_set(const char *key, uint64_t v);
int      __sa_find_fd(const char *kind, int i);                  /* number of the i-th open descriptor of that kind, or -1 */
int64_t  __sa_armed(int fd, int what);                             /* timer: flags, value s, ns, interval s, ns; -1 if not armed */
int      __sa_rec_wd(int i);                                     /* i-th file system notification read */
uint32_t __sa_rec_mask(int i);
size_t   __sa_rec_namelen(int i);
void    *__sa_rec_name(int i);
int      __sa_in_thread(void);
int      __sa_threads_running(void);
int      __sa_threads_unreaped(void);                             /* joinable threads not joined yet */
int      __sa_ssl_live(void);                                    /* live TLS sessions */
void    *__sa_sslctx(void);
int      __sa_ctx_loaded(void);                                  /* files loaded into TLS contexts, 0 if one failed */
int      __sa_ctxs(void);                                        /* live TLS contexts */
int      __sa_sock_state(int fd, const char *what);
int      __sa_sock_reuse(int fd);
int      __sa_nonblocking(int fd);
int      __sa_tm(int what);                                        /* last calendar time computed: sec min hour mday mon year wday; -1: in GMT */
void    *__sa_addrinfo(int flags);

#endif
