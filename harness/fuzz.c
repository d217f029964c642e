/* libFuzzer target: every input is the bytes of one client connection to the
 * real server (ws_launch), which runs in a thread of this process. The first
 * byte selects how the client behaves. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include "ws.h"
#include "router.h"
#include "log.h"
#include "wayuu_log.h"
#include "wrap.h"

static int ctl[2];
static char scratch[2048];

static void fail(const char *m, const void *p, size_t n)
{
  fprintf(stderr, "WRONG: %s\n", m);
  fwrite(p, 1, n < 2000 ? n : 2000, stderr);
  fprintf(stderr, "\n");
  abort();
}

int __wrap_accept(int s, struct sockaddr *addr, socklen_t *len)
{
  int fd;
  while (read(ctl[0], &fd, sizeof fd) != sizeof fd) ;
  struct sockaddr_in a = {0};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(0x0a000001);
  if (addr && len) { memcpy(addr, &a, *len < sizeof a ? *len : sizeof a); *len = sizeof a; }
  return fd;
}
int __wrap_accept4(int s, struct sockaddr *addr, socklen_t *len, int flags) { return __wrap_accept(s, addr, len); }
int __wrap_getpeername(int s, struct sockaddr *addr, socklen_t *len)
{
  struct sockaddr_in a = {0};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(0x0a000001);
  memcpy(addr, &a, *len < sizeof a ? *len : sizeof a);
  *len = sizeof a;
  return 0;
}

static volatile size_t sink;
static void touch(api_request *r)
{
  char *s[] = {r->method, r->path, r->query_string, r->request_line, r->url, r->form, r->IP, r->session};
  for (unsigned i = 0; i < sizeof s / sizeof *s; i++) sink += strlen(s[i]);
  if (r->content_type) sink += strlen(r->content_type);
  if (r->n_headers < 0 || r->n_headers > HTTP_MAX_HEADERS) fail("number of headers", "", 0);
  char *names[] = {"Host", "X-A", "", "content-length", "Cookie"};
  for (unsigned i = 0; i < 5; i++) { char *v = http_get_header(r, names[i]); sink += strlen(v); if (*v) free(v); }
}
static void h_json(api_request *r)
{
  touch(r);
  char *v[] = {r->path, r->query_string, r->session, r->IP, r->url, r->method};
  char *j = json_array_of_strings(v, 6);
  return_json(r, j);
  free(j);
}
static void h_kv(api_request *r)
{
  touch(r);
  char *k = json_key_value("form", r->form);
  char *j = malloc(strlen(k) + 3);
  sprintf(j, "{%s}", k);
  return_json_with_status(r, 201, j);
  free(j);
  free(k);
}
static void h_err(api_request *r)
{
  touch(r);
  wayuu_error_t *e = new_error_with_values(r->query_string, r->form);
  bad_request_with_error(r, e);
  free(e);
}
static void h_file(api_request *r) { touch(r); char p[3000]; snprintf(p, sizeof p, "%s/root/www/index.html", scratch); if (direct_file(r, p) < 0) not_found(r); }
static void h_status(api_request *r) { touch(r); send_http_status(r, 200, r->query_string); }
static bool f_session(api_request *r) { touch(r); if (*r->session) return true; not_authenticated(r); return false; }

static void *serve(void *x)
{
  ws_launch(0, "127.0.0.1", NULL);
  return NULL;
}

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
  signal(SIGPIPE, SIG_IGN);
  snprintf(scratch, sizeof scratch, "%s", getenv("WV_SCRATCH") ? getenv("WV_SCRATCH") : "");
  snprintf(WAYUU_WS_ROOT, ROOT_PATH_MAX, "%s/root", scratch);
  snprintf(WAYUU_STATIC_ROOT, 2 * ROOT_PATH_MAX, "%s/root/www", scratch);
  strcpy(WWW_INDEX, "/index.html");
  strcpy(FAVICON_URL, "/favicon.ico");
  WAYUU_SSL_ON = false;
  wv_thread_cap = 1;
  log_set_level(LOG_ERROR);
  log_set_file(WAYUU_LOGFILE);
  router_init();
  router_add_route("GET:/json", h_json, NULL);
  router_add_route("POST:/json", h_json, NULL);
  router_add_route("POST:/kv", h_kv, NULL);
  router_add_route("POST:/err", h_err, NULL);
  router_add_route("GET:/err", h_err, NULL);
  router_add_route("GET:/file", h_file, NULL);
  router_add_route("GET:/s", h_status, NULL);
  router_add_route("POST:/private", h_kv, f_session);
  router_add_route("PUT:/item/{id}", h_kv, NULL);
  router_add_route("DELETE:/item/{another}", h_kv, f_session);
  if (pipe(ctl)) abort();
  pthread_t t;
  pthread_create(&t, NULL, serve, NULL);
  return 0;
}

static int wait_for(struct pollfd *w)
{
  int r;
  while ((r = poll(w, 1, 30000)) < 0 && errno == EINTR) ;
  return r;
}
static char out[1 << 20];
static ssize_t exchange(const uint8_t *d, size_t n, int mode)
{
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
  if (write(ctl[1], &p[1], sizeof p[1]) != sizeof p[1]) abort();
  size_t o = 0;
  while (o < n)
  {
    struct pollfd w = {p[0], POLLOUT, 0};
    if (wait_for(&w) != 1) fail("the server does not read", d, n);
    ssize_t r = send(p[0], d + o, n - o, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (r < 0 && (errno == EAGAIN || errno == EINTR)) continue;
    if (r <= 0) break;
    o += r;
  }
  if (mode == 1) { close(p[0]); return -1; }
  shutdown(p[0], SHUT_WR);
  size_t got = 0;
  for (;;)
  {
    struct pollfd w = {p[0], POLLIN, 0};
    if (wait_for(&w) != 1) fail("the connection is not closed", d, n);
    char t[65536];
    ssize_t r = recv(p[0], t, sizeof t, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0 && errno == ECONNRESET) { r = recv(p[0], t, sizeof t, 0); if (r <= 0) break; }
    if (r <= 0) break;
    if (got + r < sizeof out) memcpy(out + got, t, r), got += r;
  }
  close(p[0]);
  out[got] = 0;
  return got;
}

static void check(ssize_t n)
{
  static const char *st[] = {"200", "201", "400", "401", "403", "404", "429", "500"};
  int ok = 0;
  if (n < 14 || memcmp(out, "HTTP/1.1 ", 9)) fail("not a response", out, n < 0 ? 0 : n);
  for (int i = 0; i < 8; i++) ok |= !memcmp(out + 9, st[i], 3);
  if (!ok || out[12] != ' ') fail("status", out, n);
  char *end = memmem(out, n, "\r\n\r\n", 4);
  if (!end) fail("no end of the headers", out, n);
  for (char *l = (char *)memmem(out, n, "\r\n", 2); l < end; )
  {
    l += 2;
    char *e = memmem(l, out + n - l, "\r\n", 2), *c = memchr(l, ':', e - l);
    if (!c || c == l) fail("bad header", out, n);
    for (char *q = l; q < c; q++) if (*q <= ' ' || *q > '~') fail("bad header name", out, n);
    for (char *q = c; q < e; q++) if (*q == '\n' || *q == '\r' || !*q) fail("bad header value", out, n);
    if (!strncasecmp(l, "Content-Length:", 15) && atol(l + 15) != out + n - (end + 4)) fail("Content-Length", out, n);
    l = e;
  }
}

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
  static unsigned long k;
  if (n < 1) return 0;
  int mode = d[0] & 3, level = d[0] & 4 ? LOG_TRACE : LOG_ERROR;
  log_set_level(level);
  ssize_t r = exchange(d + 1, n - 1, mode);
  if (r >= 0) check(r);
  if (mode == 1 || ++k % 32 == 0)
  {
    static const char ping[] = "GET /api/s?still-here HTTP/1.1\r\nHost: x\r\n\r\n";
    r = exchange((const uint8_t *)ping, sizeof ping - 1, 0);
    check(r);
    if (memcmp(out, "HTTP/1.1 200", 12) || !strstr(out, "still-here")) fail("another client is answered wrongly", out, r);
  }
  if (k % 4096 == 0)
  {
    char p[4096];
    snprintf(p, sizeof p, "%s/up", scratch);
    DIR *dir = opendir(p);
    struct dirent *e;
    while (dir && (e = readdir(dir)))
      if (e->d_name[0] != '.') { snprintf(p, sizeof p, "%s/up/%s", scratch, e->d_name); unlink(p); }
    if (dir) closedir(dir);
    snprintf(p, sizeof p, "%s/log/wayuu-access.log", scratch);
    if (truncate(p, 0)) {}
    snprintf(p, sizeof p, "%s/log/wayuu.log", scratch);
    if (truncate(p, 0)) {}
  }
  return 0;
}
