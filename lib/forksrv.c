/* LD_PRELOAD fork server: turns any dynamically linked program into a server that runs its own main() once per
 * request, each time in a freshly forked child, so that exhaustive enumerations can run tens of thousands of
 * executions of the *unmodified* program per second.  No hook in the program is needed.
 * Request : u32 timeout_ms, u32 argc, {u32 len, bytes}*argc, u32 len, bytes   (last = stdin)
 * Reply   : u32 wait status (0xffffffff: timed out), u32 len, stdout, u32 len, stderr */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>

static int (*real_main)(int, char **, char **);
static int in_fd, out_fd;

static int rd(void *p, size_t n) {
  char *c = p;
  while (n) {
    ssize_t k = read(in_fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return -1;
    c += k; n -= k;
  }
  return 0;
}
static void wr(const void *p, size_t n) {
  const char *c = p;
  while (n) {
    ssize_t k = write(out_fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) _exit(99);
    c += k; n -= k;
  }
}
/* buffered request input, so that a batch costs few system calls */
static char ibuf[1 << 16]; static size_t ib, ie;
static int get(void *p, size_t n) {
  char *c = p;
  while (n) {
    if (ib == ie) {
      ssize_t k = read(in_fd, ibuf, sizeof ibuf);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) return -1;
      ib = 0; ie = k;
    }
    size_t m = ie - ib; if (m > n) m = n;
    memcpy(c, ibuf + ib, m); ib += m; c += m; n -= m;
  }
  return 0;
}
static char *slurp(int fd, uint32_t *len) {
  off_t e = lseek(fd, 0, SEEK_END);
  if (e > (64 << 20)) e = 64 << 20;
  static char *buf[2]; static size_t cap[2]; static int which;
  which ^= 1;
  if (cap[which] < (size_t)e + 1) { free(buf[which]); cap[which] = e + 65536; buf[which] = calloc(cap[which], 1); }
  off_t o = 0;
  while (o < e) { ssize_t k = pread(fd, buf[which] + o, e - o, o); if (k <= 0) break; o += k; }
  *len = o;
  return buf[which];
}
static int serve(int argc, char **argv, char **envp) {
  int fi = memfd_create("i", MFD_CLOEXEC), fo = memfd_create("o", MFD_CLOEXEC), fe = memfd_create("e", MFD_CLOEXEC);
  const char *mem = getenv("FORKSRV_AS");
  (void) argc;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPIPE, SIG_DFL);
  sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, NULL);
  for (;;) {
    uint32_t tmo, n, len;
    if (get(&tmo, 4) || get(&n, 4)) _exit(0);
    char **av = calloc(n + 2, sizeof *av);
    av[0] = argv[0];
    for (uint32_t i = 0; i < n; i++) {
      if (get(&len, 4)) _exit(0);
      av[i + 1] = calloc(len + 1, 1);
      if (get(av[i + 1], len)) _exit(0);
      av[i + 1][len] = 0;
    }
    if (get(&len, 4)) _exit(0);
    char *text = calloc(len + 1, 1);
    if (get(text, len)) _exit(0);
    if (ftruncate(fi, 0) || ftruncate(fo, 0) || ftruncate(fe, 0)) _exit(98);
    lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    if (len && pwrite(fi, text, len, 0) != (ssize_t)len) _exit(97);
    lseek(fi, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid < 0) _exit(96);
    if (pid == 0) {
      sigprocmask(SIG_UNBLOCK, &chld, NULL);
      dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
      close(in_fd); close(out_fd);
      struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z);
      struct rlimit fz = {64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &fz);
      if (mem) { struct rlimit m; m.rlim_cur = m.rlim_max = strtoull(mem, 0, 10); setrlimit(RLIMIT_AS, &m); }
      unsetenv("LD_PRELOAD");
      exit(real_main(n + 1, av, envp));
    }
    uint32_t st = 0; int status = 0, done = 0;
    struct timespec start, now; clock_gettime(CLOCK_MONOTONIC, &start);
    for (;;) {
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) { done = 1; break; }
      clock_gettime(CLOCK_MONOTONIC, &now);
      long el = (now.tv_sec - start.tv_sec) * 1000 + (now.tv_nsec - start.tv_nsec) / 1000000;
      if (el >= (long)tmo) break;
      long left = tmo - el;
      struct timespec ts = { left / 1000, (left % 1000) * 1000000L };
      sigtimedwait(&chld, NULL, &ts);
    }
    if (!done) { kill(pid, SIGKILL); waitpid(pid, &status, 0); st = 0xffffffffu; } else st = (uint32_t) status;
    uint32_t lo, le; char *bo = slurp(fo, &lo), *be = slurp(fe, &le);
    static char *rep; static size_t rcap; size_t need = 12 + (size_t)lo + le;
    if (rcap < need) { free(rep); rcap = need + 65536; rep = calloc(rcap, 1); }
    memcpy(rep, &st, 4); memcpy(rep + 4, &lo, 4); memcpy(rep + 8, bo, lo);
    memcpy(rep + 8 + lo, &le, 4); memcpy(rep + 12 + lo, be, le);
    wr(rep, need);
    for (uint32_t i = 1; i <= n; i++) free(av[i]);
    free(av); free(text);
  }
}

int __libc_start_main(int (*main)(int, char **, char **), int argc, char **argv, void (*init)(void), void (*fini)(void),
                      void (*rtld_fini)(void), void *stack_end) {
  int (*orig)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) =
      (void *) dlsym(RTLD_NEXT, "__libc_start_main");
  const char *c = getenv("FORKSRV");
  if (!c || sscanf(c, "%d,%d", &in_fd, &out_fd) != 2) return orig(main, argc, argv, init, fini, rtld_fini, stack_end);
  unsetenv("FORKSRV");
  real_main = main;
  (void) rd;
  return orig(serve, argc, argv, init, fini, rtld_fini, stack_end);
}
