// Stands in for the serial device of a process: preloaded, it answers every call on the port named by
// MC_PORT from a script, without time passing, and records what the process did.
//   MC_SCRIPT  events: D<hex>; a chunk arrives   T; nothing arrives until the caller's timeout   W<n>; from here
//              on one write takes at most n bytes.  At the end of the script the process ends with status 0.
//   MC_LOG     descriptor for the record: O opened, S<cflag> <iflag> <ispeed> <ospeed> settings, W<hex> written,
//              R<n> read, T timed out, E end of script
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <asm/termbits.h>

static int log_fd = -1, max_write = 1 << 30;
static unsigned char ports[1024];   // descriptors of the port
static int opened;
static int is_port(int fd) { return fd >= 0 && fd < 1024 && ports[fd]; }
static const char *script;
static unsigned char *cur;
static size_t cur_len, cur_at;
static struct termios2 tio = {.c_cflag = CS8 | CREAD | B38400, .c_ispeed = 38400, .c_ospeed = 38400};

// a tool that never stops running, asking for memory or printing is stopped
__attribute__((constructor)) static void limit(void) {
  struct rlimit mem = {2ull << 30, 2ull << 30}, cpu = {4, 5}, file = {64 << 20, 64 << 20}, core = {0, 0};
  setrlimit(RLIMIT_AS, &mem);
  setrlimit(RLIMIT_CPU, &cpu);
  setrlimit(RLIMIT_FSIZE, &file);
  setrlimit(RLIMIT_CORE, &core);
}

static void out(const char *s, size_t n) {
  while (n > 0) {
    ssize_t k = syscall(SYS_write, log_fd, s, n);
    if (k <= 0) _exit(99);
    s += k; n -= k;
  }
}
static void logf_(const char *f, ...) {
  char b[256];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  out(b, n);
}
static int hex(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

// Makes a chunk current, if the next event is one: 1 data, 0 timeout; ends the process at the script's end.
static int advance(void) {
  if (cur_at < cur_len) return 1;
  for (;;) {
    while (*script == ';') script++;
    if (!*script) { logf_("E\n"); _exit(0); }
    char k = *script++;
    const char *e = strchr(script, ';');
    if (!e) e = script + strlen(script);
    if (k == 'D') {
      cur_len = (e - script) / 2; cur_at = 0;
      cur = realloc(cur, cur_len + 1);
      for (size_t i = 0; i < cur_len; i++) cur[i] = hex(script[2 * i]) << 4 | hex(script[2 * i + 1]);
      script = e;
      if (cur_len) return 1;
    } else if (k == 'T') {
      script = e;
      logf_("T\n");
      return 0;
    } else if (k == 'W') {
      max_write = atoi(script);
      script = e;
    } else _exit(98);
  }
}

static int do_open(const char *path, int flags, va_list a) {
  const char *p = getenv("MC_PORT");
  if (p && !strcmp(path, p)) {
    if (opened) { errno = EBUSY; return -1; }
    log_fd = atoi(getenv("MC_LOG"));
    script = getenv("MC_SCRIPT");
    int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
    if (fd < 0 || fd >= 1024) _exit(97);
    ports[fd] = opened = 1;
    logf_("O\n");
    while (*script == 'W') { max_write = atoi(script + 1); script = strchr(script, ';') + 1; }
    return fd;
  }
  int mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) mode = va_arg(a, int);
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char *path, int flags, ...) { va_list a; va_start(a, flags); int r = do_open(path, flags, a); va_end(a); return r; }
int open64(const char *path, int flags, ...) { va_list a; va_start(a, flags); int r = do_open(path, flags, a); va_end(a); return r; }

static void settings(void) { logf_("S%x %x %u %u\n", tio.c_cflag, tio.c_iflag, tio.c_ispeed, tio.c_ospeed); }

int ioctl(int fd, unsigned long req, ...) {
  va_list a;
  va_start(a, req);
  void *p = va_arg(a, void *);
  va_end(a);
  if (!is_port(fd)) return syscall(SYS_ioctl, fd, req, p);
  switch (req) {
  case TCGETS2: memcpy(p, &tio, sizeof tio); return 0;
  case TCSETS2: case TCSETSW2: case TCSETSF2: memcpy(&tio, p, sizeof tio); settings(); return 0;
  case FIONREAD: *(int *)p = cur_len - cur_at; return 0;
  case TIOCOUTQ: *(int *)p = 0; return 0;
  case TIOCMGET: *(int *)p = 0; return 0;
  case TIOCEXCL: case TIOCNXCL: case TIOCMBIS: case TIOCMBIC: case TIOCMSET: case TCFLSH: return 0;
  }
  errno = ENOTTY;
  return -1;
}
// the C library's struct termios: same leading members, c_cc longer
struct lc { tcflag_t i, o, c, l; cc_t line; cc_t cc[32]; speed_t is, os; };
int tcgetattr(int fd, void *t) {
  if (!is_port(fd)) { int (*f)(int, void *) = dlsym(RTLD_NEXT, "tcgetattr"); return f(fd, t); }
  struct lc *q = t;
  memset(q, 0, sizeof *q);
  q->i = tio.c_iflag; q->o = tio.c_oflag; q->c = tio.c_cflag; q->l = tio.c_lflag; q->line = tio.c_line;
  memcpy(q->cc, tio.c_cc, sizeof tio.c_cc);
  q->is = q->os = tio.c_cflag & CBAUD;
  return 0;
}
static unsigned speed(unsigned b) {
  static const unsigned t[][2] = {{B1200, 1200}, {B2400, 2400}, {B4800, 4800}, {B9600, 9600}, {B19200, 19200}, {B38400, 38400}, {B57600, 57600}, {B115200, 115200}, {B230400, 230400}, {B460800, 460800}, {B921600, 921600}};
  for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (t[i][0] == b) return t[i][1];
  return 0;
}
int tcsetattr(int fd, int act, const void *t) {
  if (!is_port(fd)) { int (*f)(int, int, const void *) = dlsym(RTLD_NEXT, "tcsetattr"); return f(fd, act, t); }
  const struct lc *q = t;
  tio.c_iflag = q->i; tio.c_oflag = q->o; tio.c_cflag = q->c; tio.c_lflag = q->l;
  if (speed(q->c & CBAUD)) tio.c_ispeed = tio.c_ospeed = speed(q->c & CBAUD);
  settings();
  return 0;
}
int tcflush(int fd, int q) { return 0; }
int tcdrain(int fd) { return 0; }
int flock(int fd, int op) { return is_port(fd) ? 0 : syscall(SYS_flock, fd, op); }

static int polled(struct pollfd *f, nfds_t n) {
  for (nfds_t i = 0; i < n; i++) if (is_port(f[i].fd)) {
    f[i].revents = 0;
    if (f[i].events & POLLOUT) f[i].revents |= POLLOUT;
    if (f[i].events & POLLIN && !(f[i].events & POLLOUT)) { if (advance()) f[i].revents |= POLLIN; }
    return f[i].revents != 0;
  }
  return -1;
}
int poll(struct pollfd *f, nfds_t n, int t) {
  int r = polled(f, n);
  return r >= 0 ? r : syscall(SYS_poll, f, n, t);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const __sigset_t *s) {
  int r = polled(f, n);
  if (r >= 0) return r;
  int (*p)(struct pollfd *, nfds_t, const struct timespec *, const void *) = dlsym(RTLD_NEXT, "ppoll");
  return p(f, n, t, s);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!is_port(fd)) return syscall(SYS_read, fd, b, n);
  if (!n) return 0;
  if (!advance()) { errno = EAGAIN; return -1; }
  size_t k = cur_len - cur_at < n ? cur_len - cur_at : n;
  memcpy(b, cur + cur_at, k);
  cur_at += k;
  logf_("R%zu\n", k);
  return k;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!is_port(fd)) return syscall(SYS_write, fd, b, n);
  if (n > (size_t)max_write) n = max_write;
  char *h = malloc(2 * n + 2);
  h[0] = 'W';
  for (size_t i = 0; i < n; i++) sprintf(h + 1 + 2 * i, "%02x", ((const unsigned char *)b)[i]);
  h[2 * n + 1] = '\n';
  out(h, 2 * n + 2);
  free(h);
  return n;
}

// copies of the descriptor are the same port
static int do_fcntl(int fd, int cmd, long arg) {
  int r = syscall(SYS_fcntl, fd, cmd, arg);
  if (is_port(fd) && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) {
    if (r >= 1024) _exit(97);
    ports[r] = 1;
  }
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int close(int fd) {
  if (is_port(fd)) ports[fd] = 0;
  return syscall(SYS_close, fd);
}
