/* Linked into every harness with -Wl,--wrap=...: the code under test names a
 * few fixed paths (/var/log/..., /tmp/wayuu, /etc/wayuu); they are mapped below
 * $WV_SCRATCH so that no check touches the real ones. The perturbation wrappers
 * add scheduling noise at library calls; they change no result. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "wrap.h"

static const char *scratch(void)
{
  static const char *s;
  if (!s)
  {
    s = getenv("WV_SCRATCH");
    if (!s || !*s) { static const char m[] = "WV_SCRATCH is not set\n"; if (write(2, m, sizeof m - 1)) {} _exit(97); }
  }
  return s;
}

/* Nothing is left behind when the driver goes away */
__attribute__((constructor)) static void tie(void) { prctl(PR_SET_PDEATHSIG, SIGKILL); }

static int under(const char *path, const char *dir)
{
  size_t n = strlen(dir);
  return !strncmp(path, dir, n) && (path[n] == 0 || path[n] == '/');
}

const char *wv_redirect(const char *path, char *buf, size_t size)
{
  static const char *map[][2] = {{"/var/log", "log"}, {"/tmp/wayuu", "up"}, {"/etc/wayuu", "etcwayuu"}};
  if (!path) return path;
  for (unsigned i = 0; i < sizeof map / sizeof *map; i++)
    if (under(path, map[i][0]))
    {
      snprintf(buf, size, "%s/%s%s", scratch(), map[i][1], path + strlen(map[i][0]));
      return buf;
    }
  return path;
}
#define R(p) char _b[4096]; p = wv_redirect(p, _b, sizeof _b)

/* ---- injected faults ---- */
static char f_part[512];
void wv_fault(const char *spec)
{
  struct rlimit rl;
  char *end;
  rlim_t n = strtoul(spec, &end, 10);
  signal(SIGXFSZ, SIG_IGN);
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = n ? n : rl.rlim_max;
  setrlimit(RLIMIT_FSIZE, &rl);
  f_part[0] = 0;
  if (*end == ' ') snprintf(f_part, sizeof f_part, "%s", end + 1);
}
#define FAULT(p, r) if (f_part[0] && (p) && strstr(p, f_part)) { errno = EMFILE; return r; }

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { wv_perturb(); R(p); FAULT(p, NULL) return __real_fopen(p, m); }
FILE *__real_freopen(const char *, const char *, FILE *);
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { R(p); FAULT(p, NULL) return __real_freopen(p, m, f); }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int f, ...)
{
  mode_t m = 0;
  if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
  R(p);
  FAULT(p, -1)
  return __real_open(p, f, m);
}
int __real_creat(const char *, mode_t);
int __wrap_creat(const char *p, mode_t m) { R(p); FAULT(p, -1) return __real_creat(p, m); }
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { R(p); return __real_mkdir(p, m); }
int __real_rmdir(const char *);
int __wrap_rmdir(const char *p) { R(p); return __real_rmdir(p); }
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { wv_perturb(); R(p); return __real_stat(p, s); }
int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *p, struct stat *s) { R(p); return __real_lstat(p, s); }
int __real_access(const char *, int);
int __wrap_access(const char *p, int m) { R(p); return __real_access(p, m); }
int __real_remove(const char *);
int __wrap_remove(const char *p) { wv_perturb(); R(p); return __real_remove(p); }
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { wv_perturb(); R(p); return __real_unlink(p); }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *p, const char *q)
{
  char a[4096], b[4096];
  return __real_rename(wv_redirect(p, a, sizeof a), wv_redirect(q, b, sizeof b));
}
DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *p) { R(p); return __real_opendir(p); }
int __real_chmod(const char *, mode_t);
int __wrap_chmod(const char *p, mode_t m) { R(p); return __real_chmod(p, m); }

/* ---- perturbation ---- */
static volatile uint32_t p_seed, p_mille;
static volatile uint32_t p_next, p_epoch;
static __thread uint64_t p_state;
void wv_perturb_set(uint32_t seed, uint32_t per_mille) { p_seed = seed; p_mille = per_mille; p_epoch++; }
void wv_perturb(void)
{
  if (!p_mille) return;
  int e = errno;
  if (!p_state) p_state = (uint64_t)p_seed * 0x9E3779B97F4A7C15ull + __sync_add_and_fetch(&p_next, 1) * 0xBF58476D1CE4E5B9ull + 1;
  p_state ^= p_state << 13; p_state ^= p_state >> 7; p_state ^= p_state << 17;
  uint32_t r = (uint32_t)(p_state >> 20) % 1000;
  if (r < p_mille)
  {
    if (p_state & 1) sched_yield();
    else
    {
      struct timespec t = {0, (long)((p_state >> 33) % 200) * 1000};
      nanosleep(&t, NULL);
    }
  }
  errno = e;
}

#ifdef WV_PERTURB
/* Called before every load, store and block of the code under test (-fsanitize-coverage).
 * Each seed makes a few places slow ones: there, threads often stop for a moment. */
static __thread uint32_t s_epoch, s_count;
static __thread uint64_t s_state;
static __attribute__((noinline)) void slow_place(uint64_t h)
{
  if (s_epoch != p_epoch) { s_epoch = p_epoch; s_count = 0; s_state = h ^ (uint64_t)(uintptr_t)&s_state; }
  s_state = s_state * 6364136223846793005ull + 1442695040888963407ull;
  uint32_t r = (uint32_t)(s_state >> 40);
  if (r & 7 || s_count > 150) return;
  s_count++;
  int e = errno;
  struct timespec t = {0, (long)(20 + (r >> 3) % 200) * 1000};
  if (r & 8) sched_yield();
  else nanosleep(&t, NULL);
  errno = e;
}
static inline void place(void *pc)
{
  if (!p_mille) return;
  uint64_t h = ((uint64_t)((uintptr_t)pc - (uintptr_t)&wv_perturb) ^ (uint64_t)p_seed << 32) * 0x9E3779B97F4A7C15ull;
  h = (h ^ h >> 29) * 0xBF58476D1CE4E5B9ull;
  if (h >> 32 & 127) return;
  slow_place(h);
}
#define PC __builtin_return_address(0)
void __sanitizer_cov_trace_pc(void) { place(PC); }
#define ACCESS(k, n, t) void __sanitizer_cov_##k##n(t *p) { (void)p; place(PC); }
ACCESS(load, 1, uint8_t) ACCESS(load, 2, uint16_t) ACCESS(load, 4, uint32_t) ACCESS(load, 8, uint64_t) ACCESS(load, 16, __int128)
ACCESS(store, 1, uint8_t) ACCESS(store, 2, uint16_t) ACCESS(store, 4, uint32_t) ACCESS(store, 8, uint64_t) ACCESS(store, 16, __int128)

/* A call is two places, before and after it */
#define BEFORE place(PC); wv_perturb()
#define AFTER place((char *)PC - 1); wv_perturb()
char *__real_strcpy(char *a, const char *b);
char *__wrap_strcpy(char *a, const char *b) { BEFORE; char *r = __real_strcpy(a, b); AFTER; return r; }
char *__real_strncpy(char *a, const char *b, size_t c);
char *__wrap_strncpy(char *a, const char *b, size_t c) { BEFORE; char *r = __real_strncpy(a, b, c); AFTER; return r; }
char *__real_strcat(char *a, const char *b);
char *__wrap_strcat(char *a, const char *b) { BEFORE; char *r = __real_strcat(a, b); AFTER; return r; }
char *__real_strncat(char *a, const char *b, size_t c);
char *__wrap_strncat(char *a, const char *b, size_t c) { BEFORE; char *r = __real_strncat(a, b, c); AFTER; return r; }
char *__real_strdup(const char *a);
char *__wrap_strdup(const char *a) { BEFORE; char *r = __real_strdup(a); AFTER; return r; }
size_t __real_strlen(const char *a);
size_t __wrap_strlen(const char *a) { BEFORE; size_t r = __real_strlen(a); AFTER; return r; }
int __real_strcmp(const char *a, const char *b);
int __wrap_strcmp(const char *a, const char *b) { BEFORE; int r = __real_strcmp(a, b); AFTER; return r; }
int __real_strncmp(const char *a, const char *b, size_t c);
int __wrap_strncmp(const char *a, const char *b, size_t c) { BEFORE; int r = __real_strncmp(a, b, c); AFTER; return r; }
int __real_strcasecmp(const char *a, const char *b);
int __wrap_strcasecmp(const char *a, const char *b) { BEFORE; int r = __real_strcasecmp(a, b); AFTER; return r; }
int __real_strncasecmp(const char *a, const char *b, size_t c);
int __wrap_strncasecmp(const char *a, const char *b, size_t c) { BEFORE; int r = __real_strncasecmp(a, b, c); AFTER; return r; }
char *__real_strchr(const char *a, int b);
char *__wrap_strchr(const char *a, int b) { BEFORE; char *r = __real_strchr(a, b); AFTER; return r; }
char *__real_strrchr(const char *a, int b);
char *__wrap_strrchr(const char *a, int b) { BEFORE; char *r = __real_strrchr(a, b); AFTER; return r; }
char *__real_strstr(const char *a, const char *b);
char *__wrap_strstr(const char *a, const char *b) { BEFORE; char *r = __real_strstr(a, b); AFTER; return r; }
char *__real_strtok(char *a, const char *b);
char *__wrap_strtok(char *a, const char *b) { BEFORE; char *r = __real_strtok(a, b); AFTER; return r; }
void *__real_memcpy(void *a, const void *b, size_t c);
void *__wrap_memcpy(void *a, const void *b, size_t c) { BEFORE; void *r = __real_memcpy(a, b, c); AFTER; return r; }
void *__real_memmove(void *a, const void *b, size_t c);
void *__wrap_memmove(void *a, const void *b, size_t c) { BEFORE; void *r = __real_memmove(a, b, c); AFTER; return r; }
void *__real_memset(void *a, int b, size_t c);
void *__wrap_memset(void *a, int b, size_t c) { BEFORE; void *r = __real_memset(a, b, c); AFTER; return r; }
struct tm *__real_gmtime(const time_t *a);
struct tm *__wrap_gmtime(const time_t *a) { BEFORE; struct tm *r = __real_gmtime(a); AFTER; return r; }
struct tm *__real_localtime(const time_t *a);
struct tm *__wrap_localtime(const time_t *a) { BEFORE; struct tm *r = __real_localtime(a); AFTER; return r; }
char *__real_ctime(const time_t *a);
char *__wrap_ctime(const time_t *a) { BEFORE; char *r = __real_ctime(a); AFTER; return r; }
int __real_close(int a);
int __wrap_close(int a) { BEFORE; int r = __real_close(a); AFTER; return r; }
ssize_t __real_send(int a, const void *b, size_t c, int d);
ssize_t __wrap_send(int a, const void *b, size_t c, int d) { BEFORE; ssize_t r = __real_send(a, b, c, d); AFTER; return r; }
int __real_vfprintf(FILE *a, const char *b, va_list c);
int __wrap_vfprintf(FILE *a, const char *b, va_list c) { BEFORE; int r = __real_vfprintf(a, b, c); AFTER; return r; }
int __real_vsprintf(char *a, const char *b, va_list c);
int __wrap_vsprintf(char *a, const char *b, va_list c) { BEFORE; int r = __real_vsprintf(a, b, c); AFTER; return r; }
int __real_vsnprintf(char *a, size_t b, const char *c, va_list d);
int __wrap_vsnprintf(char *a, size_t b, const char *c, va_list d) { BEFORE; int r = __real_vsnprintf(a, b, c, d); AFTER; return r; }
int __real_fputs(const char *a, FILE *b);
int __wrap_fputs(const char *a, FILE *b) { BEFORE; int r = __real_fputs(a, b); AFTER; return r; }
int __real_fputc(int a, FILE *b);
int __wrap_fputc(int a, FILE *b) { BEFORE; int r = __real_fputc(a, b); AFTER; return r; }
int __real_fclose(FILE *a);
int __wrap_fclose(FILE *a) { BEFORE; int r = __real_fclose(a); AFTER; return r; }
int __real_fflush(FILE *a);
int __wrap_fflush(FILE *a) { BEFORE; int r = __real_fflush(a); AFTER; return r; }
size_t __real_fwrite(const void *a, size_t b, size_t c, FILE *d);
size_t __wrap_fwrite(const void *a, size_t b, size_t c, FILE *d) { BEFORE; size_t r = __real_fwrite(a, b, c, d); AFTER; return r; }
size_t __real_fread(void *a, size_t b, size_t c, FILE *d);
size_t __wrap_fread(void *a, size_t b, size_t c, FILE *d) { BEFORE; size_t r = __real_fread(a, b, c, d); AFTER; return r; }
char *__real_fgets(char *a, int b, FILE *c);
char *__wrap_fgets(char *a, int b, FILE *c) { BEFORE; char *r = __real_fgets(a, b, c); AFTER; return r; }
ssize_t __real_getline(char **a, size_t *b, FILE *c);
ssize_t __wrap_getline(char **a, size_t *b, FILE *c) { BEFORE; ssize_t r = __real_getline(a, b, c); AFTER; return r; }
int __real_fseek(FILE *a, long b, int c);
int __wrap_fseek(FILE *a, long b, int c) { BEFORE; int r = __real_fseek(a, b, c); AFTER; return r; }
long __real_ftell(FILE *a);
long __wrap_ftell(FILE *a) { BEFORE; long r = __real_ftell(a); AFTER; return r; }
int __real_pthread_mutex_lock(pthread_mutex_t *a);
int __wrap_pthread_mutex_lock(pthread_mutex_t *a) { BEFORE; int r = __real_pthread_mutex_lock(a); AFTER; return r; }
int __real_pthread_mutex_unlock(pthread_mutex_t *a);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *a) { BEFORE; int r = __real_pthread_mutex_unlock(a); AFTER; return r; }
int __real_pthread_cond_signal(pthread_cond_t *a);
int __wrap_pthread_cond_signal(pthread_cond_t *a) { BEFORE; int r = __real_pthread_cond_signal(a); AFTER; return r; }
char *__real_inet_ntoa(struct in_addr);
char *__wrap_inet_ntoa(struct in_addr a) { BEFORE; char *r = __real_inet_ntoa(a); AFTER; return r; }
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int f, void *b, size_t n, int g) { ssize_t r = __real_recv(f, b, n, g); static __thread unsigned k; place(PC); if (!(++k & 15)) wv_perturb(); return r; }
#define VARIADIC(last, call) va_list a; va_start(a, last); BEFORE; int r = call; AFTER; va_end(a); return r
int __wrap_fprintf(FILE *f, const char *fmt, ...) { VARIADIC(fmt, __real_vfprintf(f, fmt, a)); }
int __wrap_sprintf(char *d, const char *fmt, ...) { VARIADIC(fmt, __real_vsprintf(d, fmt, a)); }
int __wrap_snprintf(char *d, size_t n, const char *fmt, ...) { VARIADIC(fmt, __real_vsnprintf(d, n, fmt, a)); }
#endif

/* ---- a clock that runs faster ---- */
static pthread_mutex_t k_mutex = PTHREAD_MUTEX_INITIALIZER;
static volatile long k_speed = 1;
static long long k_real, k_virt; /* where the speed was set last, in ns */
#ifdef WV_CLOCK
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
int __real_nanosleep(const struct timespec *, struct timespec *);
static long long real_ns(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static long long virt_ns(void) /* nanoseconds the fast clock is ahead of CLOCK_MONOTONIC, plus it */
{
  pthread_mutex_lock(&k_mutex);
  long long n = real_ns(), v = k_real ? k_virt + (n - k_real) * k_speed : n;
  pthread_mutex_unlock(&k_mutex);
  return v;
}
void wv_clock_set(long speed)
{
  long long v = virt_ns();
  pthread_mutex_lock(&k_mutex);
  k_real = real_ns();
  k_virt = v;
  k_speed = speed;
  pthread_mutex_unlock(&k_mutex);
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
  int r = __real_clock_gettime(c, t);
  if (r) return r;
  long long n = t->tv_sec * 1000000000ll + t->tv_nsec + (virt_ns() - real_ns());
  t->tv_sec = n / 1000000000ll;
  t->tv_nsec = n % 1000000000ll;
  return 0;
}
time_t __wrap_time(time_t *p) { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int __wrap_gettimeofday(struct timeval *v, void *z)
{
  struct timespec t;
  __wrap_clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}
static void nap(long long ns)
{
  ns /= k_speed;
  struct timespec t = {ns / 1000000000ll, ns % 1000000000ll};
  while (__real_nanosleep(&t, &t) && errno == EINTR) ;
}
unsigned __wrap_sleep(unsigned s) { nap(s * 1000000000ll); return 0; }
int __wrap_usleep(useconds_t u) { nap(u * 1000ll); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { nap(t->tv_sec * 1000000000ll + t->tv_nsec); if (r) r->tv_sec = r->tv_nsec = 0; return 0; }
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *a)
{
  struct timespec v, n;
  __wrap_clock_gettime(CLOCK_REALTIME, &v);
  __real_clock_gettime(CLOCK_REALTIME, &n);
  long long d = ((a->tv_sec - v.tv_sec) * 1000000000ll + a->tv_nsec - v.tv_nsec) / k_speed;
  if (d < 0) d = 0;
  d += n.tv_sec * 1000000000ll + n.tv_nsec;
  struct timespec t = {d / 1000000000ll, d % 1000000000ll};
  return __real_pthread_cond_timedwait(c, m, &t);
}
/* Times the kernel keeps */
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int s, int l, int o, const void *v, socklen_t n)
{
  if (l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && n == sizeof(struct timeval))
  {
    long long u = (((const struct timeval *)v)->tv_sec * 1000000ll + ((const struct timeval *)v)->tv_usec);
    if (u && (u /= k_speed) < 1000) u = 1000;
    struct timeval t = {u / 1000000, u % 1000000};
    return __real_setsockopt(s, l, o, &t, n);
  }
  return __real_setsockopt(s, l, o, v, n);
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { return __real_poll(f, n, ms > 0 ? (ms + k_speed - 1) / k_speed : ms); }
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
  if (!t) return __real_select(n, r, w, e, t);
  long long u = (t->tv_sec * 1000000ll + t->tv_usec) / k_speed;
  struct timeval s = {u / 1000000, u % 1000000};
  return __real_select(n, r, w, e, &s);
}
#else
void wv_clock_set(long speed) { (void)speed; }
#endif

/* ---- worker cap ---- */
int wv_thread_cap; /* threads really created per start routine (0 = all) */
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *p)
{
  static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  static struct { void *(*f)(void *); int n; } seen[16];
  if (wv_thread_cap > 0)
  {
    int skip = 0;
    pthread_mutex_lock(&m);
    for (int i = 0; i < 16; i++)
      if (!seen[i].f || seen[i].f == f)
      {
        seen[i].f = f;
        skip = seen[i].n++ >= wv_thread_cap;
        break;
      }
    pthread_mutex_unlock(&m);
    if (skip) { if (t) *t = pthread_self(); return 0; }
  }
  return __real_pthread_create(t, a, f, p);
}
