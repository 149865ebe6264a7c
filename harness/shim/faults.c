/* Fault injection for the compiler process (LD_PRELOAD): the VPF_AT-th call of a system interface
   fails with errno VPF_ERR, or - VPF_ERR=short - transfers a single byte. When the fault is
   injected, the name of the interface is written to the file VPF_LOG. Children are not affected. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
static int at = -1, err, shrt, n, ready;
static char log_[4096];
__attribute__((constructor)) static void init(void) {
  char *a = getenv("VPF_AT"), *e = getenv("VPF_ERR"), *l = getenv("VPF_LOG");
  if (a && e && l && strlen(l) < sizeof log_) { at = atoi(a); shrt = !strcmp(e, "short"); err = shrt ? 0 : atoi(e); strcpy(log_, l); ready = 1; }
  unsetenv("LD_PRELOAD"); unsetenv("VPF_AT"); unsetenv("VPF_ERR"); unsetenv("VPF_LOG");
}
/* 1: this call fails */
static int hit(const char *name, int can_short) {
  if (!ready || (shrt && !can_short)) return 0;
  if (__atomic_fetch_add(&n, 1, __ATOMIC_SEQ_CST) != at) return 0;
  int f = syscall(SYS_open, log_, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (f >= 0) { syscall(SYS_write, f, name, strlen(name)); syscall(SYS_close, f); }
  errno = err;
  return 1;
}
#define REAL(f) static __typeof__(f) *real; if (!real) real = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)
#define OPEN(name) int name(const char *p, int fl, ...) { va_list v; va_start(v, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(v, int) : 0; va_end(v); REAL(name); \
  if (hit(#name, 0)) return -1; return real(p, fl, m); }
OPEN(open) OPEN(open64)
ssize_t read(int f, void *b, size_t k) { REAL(read); if (hit("read", 1)) { if (!shrt) return -1; if (k > 1) k = 1; } return real(f, b, k); }
ssize_t write(int f, const void *b, size_t k) { REAL(write); if (hit(f == 2 ? "write2" : "write", 1)) { if (!shrt) return -1; if (k > 1) k = 1; } return real(f, b, k); }
ssize_t writev(int f, const struct iovec *b, int k) { REAL(writev); if (hit("writev", 0)) return -1; return real(f, b, k); }
int pipe2(int p[2], int fl) { REAL(pipe2); if (hit("pipe2", 0)) return -1; return real(p, fl); }
int socketpair(int d, int t, int q, int p[2]) { REAL(socketpair); if (hit("socketpair", 0)) return -1; return real(d, t, q, p); }
int poll(struct pollfd *p, nfds_t k, int t) { REAL(poll); if (hit("poll", 0)) return -1; return real(p, k, t); }
pid_t fork(void) { REAL(fork); if (hit("fork", 0)) return -1; return real(); }
pid_t waitpid(pid_t p, int *s, int o) { REAL(waitpid); if (hit("waitpid", 0)) return -1; return real(p, s, o); }
int waitid(idtype_t t, id_t i, siginfo_t *s, int o) { REAL(waitid); if (hit("waitid", 0)) return -1; return real(t, i, s, o); }
off64_t lseek64(int f, off64_t o, int w) { REAL(lseek64); if (hit("lseek64", 0)) return -1; return real(f, o, w); }
int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) { REAL(posix_spawnp); if (hit("posix_spawnp", 0)) return err; return real(p, f, a, t, v, e); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { REAL(pthread_create); if (hit("pthread_create", 0)) return err; return real(t, a, f, x); }
int close(int f) { REAL(close); int r = real(f); if (hit("close", 0)) return -1; return r; }
#include <sys/stat.h>
int fstat64(int f, struct stat64 *s) { REAL(fstat64); if (hit("fstat64", 0)) return -1; return real(f, s); }
