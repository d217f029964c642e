/* Runs the real server (ws_launch) with connections injected over a control
 * channel: accept() is wrapped to take commands from the channel (fd WV_CTL) and to
 * return the descriptors passed over it; getpeername() answers the address that
 * came with the descriptor. Everything else is the code under test.
 *
 * usage: server ROOT   (environment: WV_SCRATCH, WV_SSL, WV_GATE, WV_CAP, WV_LEVEL)
 * message: 1 byte command, u32 length, payload; reply: u32 length, payload. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <sanitizer/allocator_interface.h>
#include "ws.h"
#include "router.h"
#include "log.h"
#include "wayuu_log.h"
#include "conf_parser.h"
#include "file_utils.h"
#include "json_utils.h"
#include "string_utils.h"
#include "wrap.h"

static int ctl_fd = 3;
#define CTL ctl_fd
#define MAXFD 65536
static struct in_addr peers[MAXFD];
static char gone[MAXFD]; /* reset by the client: its address is no longer known */

static void die(const char *m) { dprintf(2, "HARNESS: %s\n", m); _exit(98); }

/* ---- growing buffer ---- */
typedef struct { char *p; size_t n, cap; } buf_t;
static void b_add(buf_t *b, const void *d, size_t n)
{
  if (b->n + n + 1 > b->cap)
  {
    b->cap = (b->n + n + 1) * 2 + 256;
    b->p = realloc(b->p, b->cap);
    if (!b->p) die("memory");
  }
  if (n) memcpy(b->p + b->n, d, n);
  b->n += n;
  b->p[b->n] = 0;
}
static void b_str(buf_t *b, const char *s) { b_add(b, s, strlen(s)); }
static void b_fmt(buf_t *b, const char *f, ...)
{
  char t[512];
  va_list a;
  va_start(a, f);
  vsnprintf(t, sizeof t, f, a);
  va_end(a);
  b_str(b, t);
}
static void b_hexn(buf_t *b, const char *s, size_t n)
{
  static const char d[] = "0123456789abcdef";
  b_add(b, "\"", 1);
  char t[1024];
  size_t k = 0;
  for (size_t i = 0; i < n; i++)
  {
    t[k++] = d[(unsigned char)s[i] >> 4];
    t[k++] = d[s[i] & 15];
    if (k == sizeof t) { b_add(b, t, k); k = 0; }
  }
  b_add(b, t, k);
  b_add(b, "\"", 1);
}
static void b_hex(buf_t *b, const char *s) { if (s) b_hexn(b, s, strlen(s)); else b_str(b, "null"); }

/* ---- events ---- */
static pthread_mutex_t ev_mutex = PTHREAD_MUTEX_INITIALIZER;
static buf_t events;
static int events_off;
static uint64_t ev_seq;

/* ---- header names handlers look up ---- */
static char **lookups;
static int n_lookups;

static void dump_files(buf_t *b, const char *form)
{
  /* every tmpfile=NAME in the form: size and SHA-256 of the stored file */
  b_str(b, "[");
  int first = 1;
  for (const char *p = form; p && (p = strstr(p, "tmpfile=")); p += 8)
  {
    const char *s = p + 8;
    size_t n = strspn(s, "0123456789abcdefABCDEF-");
    if (n > 200) n = 200;
    char path[4096], red[4096], name[256];
    memcpy(name, s, n);
    name[n] = 0;
    snprintf(path, sizeof path, "%s/%s", FILE_DOWNLOAD_TMP_DIR, name);
    if (!first) b_str(b, ",");
    first = 0;
    b_fmt(b, "[\"%s\",", name);
    FILE *f = n ? fopen(wv_redirect(path, red, sizeof red), "rb") : NULL;
    if (!f) { b_str(b, "-1,\"\"]"); continue; }
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    EVP_DigestInit_ex(c, EVP_sha256(), NULL);
    char t[8192];
    size_t r;
    long total = 0;
    while ((r = fread(t, 1, sizeof t, f)) > 0) { EVP_DigestUpdate(c, t, r); total += r; }
    fclose(f);
    unsigned char d[EVP_MAX_MD_SIZE];
    unsigned int dn;
    EVP_DigestFinal_ex(c, d, &dn);
    EVP_MD_CTX_free(c);
    b_fmt(b, "%ld,", total);
    b_hexn(b, (char *)d, dn);
    b_str(b, "]");
  }
  b_str(b, "]");
}

static void dump_req(buf_t *b, int h, char kind, api_request *req)
{
  b_fmt(b, "{\"e\":\"%c\",\"h\":%d,\"seq\":%llu,\"m\":", kind, h, events_off == 2 ? 0 : (unsigned long long)__sync_add_and_fetch(&ev_seq, 1));
  b_hex(b, req->method);
  b_str(b, ",\"p\":"); b_hex(b, req->path);
  b_str(b, ",\"q\":"); b_hex(b, req->query_string);
  b_str(b, ",\"rl\":"); b_hex(b, req->request_line);
  b_str(b, ",\"u\":"); b_hex(b, req->url);
  b_str(b, ",\"f\":"); b_hex(b, req->form);
  b_str(b, ",\"ct\":"); b_hex(b, req->content_type);
  b_str(b, ",\"ip\":"); b_hex(b, req->IP);
  b_str(b, ",\"s\":"); b_hex(b, req->session);
  b_fmt(b, ",\"nh\":%d,\"l\":[", req->n_headers);
  for (int i = 0; i < n_lookups; i++)
  {
    char *v = http_get_header(req, lookups[i]);
    if (i) b_str(b, ",");
    b_hex(b, v);
    if (v && *v) free(v);
  }
  b_str(b, "],\"t\":");
  dump_files(b, req->form);
  b_str(b, "}");
}

static void record(int h, char kind, api_request *req)
{
  if (events_off) return;
  buf_t b = {0};
  dump_req(&b, h, kind, req);
  b_str(&b, "\n");
  pthread_mutex_lock(&ev_mutex);
  b_add(&events, b.p, b.n);
  pthread_mutex_unlock(&ev_mutex);
  free(b.p);
}

/* ---- handlers ---- */
static struct { char kind, filter; char *param, *fparam; } routes[MAX_ROUTES];

static pthread_mutex_t w_mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t w_cond = PTHREAD_COND_INITIALIZER;
static unsigned long w_gen;
static int w_inside;

static char *json_entity(void *o) { return strdup(o); }

/* Answers with what the helpers for strings, configuration lines and JSON make of a text */
static void utilities(api_request *req, const char *given)
{
  char *text = strdup(given);
  /* the names of temporary files are not reproducible */
  for (char *t = text; (t = strstr(t, "tmpfile="));)
  {
    t += 8;
    int k = strspn(t, "0123456789");
    memmove(t, t + k, strlen(t + k) + 1);
  }
  char *out[16];
  int n = 0;
  char md5[64];
  md5sum(md5, text, strlen(text));
  out[n++] = strdup(md5);
  str_list_t *l = split(text, "&;");
  out[n++] = l->n_str ? join(l->strings, l->n_str, "|") : strdup("");
  out[n++] = json_array_of_strings(l->strings, l->n_str);
  free_str_list_t(l);
  l = split_once(text, "=");
  out[n++] = json_array_of_strings(l->strings, l->n_str);
  free_str_list_t(l);
  conf_item *it = conf_parse_line(text, true);
  out[n++] = it ? conf_item_to_string(it) : strdup("-");
  if (it) free_conf_item(it);
  out[n] = strdup(text);
  trim(out[n++]);
  out[n++] = rtrim(text, '&');
  out[n] = strdup(text);
  chop_string(out[n++]);
  out[n++] = json_key_value("k", text);
  int a[3] = {(int)strlen(text), -1, text[0]};
  out[n++] = json_array_of_ints(a, 3);
  path_and_query_t *pq = get_path_and_query_string(text);
  out[n++] = strdup(pq->path);
  out[n++] = strdup(pq->query);
  free_path_and_query_t(pq);
  out[n++] = get_content_type(text);
  wayuu_error_t *e = new_error_with_values(text, text);
  out[n++] = wayuu_error_t_json_serializer(e);
  free(e);
  char *r = json_array_of_strings(out, n);
  return_json(req, r);
  free(r);
  while (n) free(out[--n]);
  free(text);
}

static ssize_t giant_read(void *c, char *b, size_t n)
{
  size_t *at = c;
  static char period[4093];
  if (!period[1])
    for (unsigned i = 0; i < sizeof period; i++) { unsigned v = (i * i * 7 + i * 13) % 96 + 31; period[i] = v == 31 ? '\n' : v; }
  if (n > at[1] - at[0]) n = at[1] - at[0];
  for (size_t k = 0; k < n;)
  {
    size_t o = (at[0] + k) % sizeof period, m = sizeof period - o < n - k ? sizeof period - o : n - k;
    memcpy(b + k, period + o, m);
    k += m;
  }
  at[0] += n;
  return n;
}

static void run_handler(int i, api_request *req)
{
  char *p = routes[i].param;
  switch (routes[i].kind)
  {
  case 'd': /* dump */
  {
    http_log_headers(req);
    record(i, 'H', req);
    buf_t b = {0};
    dump_req(&b, i, 'R', req);
    return_json(req, b.p);
    free(b.p);
    return;
  }
  case 'D': /* length and digest of the form */
  {
    unsigned char d[64];
    unsigned n = 0;
    size_t len = strlen(req->form);
    EVP_Digest(req->form, len, d, &n, EVP_sha256(), NULL);
    buf_t b = {0};
    b_fmt(&b, "{\"n\":%zu,\"sha\":", len);
    b_hexn(&b, (char *)d, n);
    b_str(&b, "}");
    return_json(req, b.p);
    free(b.p);
    return;
  }
  case 'G': /* giant: "kind status length" of a text that repeats, see huge.py */
  {
    char what;
    int st;
    size_t n;
    if (sscanf(p, "%c %d %zu", &what, &st, &n) != 3) die("giant");
    if (what == 't')
    {
      size_t at[2] = {0, n};
      FILE *f = fopencookie(at, "r", (cookie_io_functions_t){.read = giant_read});
      return_json_stream(req, st, f);
      fclose(f);
      return;
    }
    char *t = malloc(n + 1);
    if (!t) die("giant");
    size_t at[2] = {0, n};
    while (at[0] < n) giant_read(at, t + at[0], n - at[0] > 1 << 30 ? 1 << 30 : n - at[0]);
    t[n] = 0;
    if (what == 'j') return_json_with_status(req, st, t);
    else send_http_status(req, st, t);
    free(t);
    return;
  }
  case 'h': /* hold: answer, wait for a byte, end */
  {
    record(i, 'H', req);
    char c;
    http_print_str(req, "HTTP/1.1 200 OK\r\nServer: hold\r\n\r\nHELD\n");
    http_read_char(req, &c);
    http_print_str(req, "DONE\r\n");
    req->response_length = 45;
    log_access(req, 200);
    return;
  }
  case 'w': /* wait for the control channel, without touching the connection */
  {
    record(i, 'H', req);
    pthread_mutex_lock(&w_mutex);
    w_inside++;
    unsigned long g = w_gen;
    while (g == w_gen) pthread_cond_wait(&w_cond, &w_mutex);
    w_inside--;
    pthread_mutex_unlock(&w_mutex);
    return_json(req, "\"WAITED\"");
    return;
  }
  case 's': { record(i, 'H', req); int st = atoi(p); char *m = strchr(p, ' '); send_http_status(req, st, m ? m + 1 : ""); return; }
  case 'j': { record(i, 'H', req); int st = atoi(p); char *m = strchr(p, ' '); return_json_with_status(req, st, m ? m + 1 : ""); return; }
  case 't':
  {
    record(i, 'H', req);
    int st = atoi(p);
    char *m = strchr(p, ' ');
    m = m ? m + 1 : "";
    FILE *f = tmpfile();
    if (!f) die("tmpfile");
    fwrite(m, 1, strlen(m), f);
    rewind(f);
    return_json_stream(req, st, f);
    fclose(f);
    return;
  }
  case 'e':
  {
    record(i, 'H', req);
    wayuu_error_t *e = new_error_with_values("CODE", strchr(p, ' ') ? strchr(p, ' ') + 1 : "");
    int st = atoi(p);
    if (st == 400) bad_request_with_error(req, e);
    else if (st == 403) forbidden_with_error(req, e);
    else internal_server_error_with_error(req, e);
    free(e);
    return;
  }
  case 'l':
  {
    record(i, 'H', req);
    int n = atoi(p);
    json_list_t l = {n, json_entity, calloc(n ? n : 1, sizeof(void *))};
    for (int k = 0; k < n; k++) { char t[64]; snprintf(t, sizeof t, "{\"i\":%d}", k); l.elements[k] = strdup(t); }
    return_json_list(req, l);
    return;
  }
  case 'b': /* big JSON string */
  {
    record(i, 'H', req);
    size_t n = strtoul(p, NULL, 10);
    char *s = malloc(n + 3);
    s[0] = '"';
    for (size_t k = 0; k < n; k++) s[k + 1] = 'a' + k % 26;
    strcpy(s + n + 1, "\"");
    return_json(req, s);
    free(s);
    return;
  }
  case 'u': record(i, 'H', req); utilities(req, req->query_string[0] ? req->query_string : req->form); return;
  case 'f': record(i, 'H', req); if (direct_file(req, p) < 0) not_found(req); return;
  case 'o':
    record(i, 'H', req);
    if (!strcmp(p, "ok")) ok(req);
    else if (!strcmp(p, "created")) created(req);
    else if (!strcmp(p, "forbidden")) forbidden(req);
    else if (!strcmp(p, "not_found")) not_found(req);
    else if (!strcmp(p, "not_authenticated")) not_authenticated(req);
    else if (!strcmp(p, "internal_server_error")) internal_server_error(req);
    else if (!strcmp(p, "too_many_connections")) too_many_connections(req);
    else if (!strcmp(p, "created_with_json")) created_with_json(req, "{\"a\":1}");
    else bad_request(req);
    return;
  default: record(i, 'H', req); return; /* no answer */
  }
}

static bool run_filter(int i, api_request *req)
{
  record(i, 'F', req);
  char *p = routes[i].fparam;
  bool pass = true;
  switch (routes[i].filter)
  {
  case '1': pass = true; break;
  case '0': pass = false; break;
  case 's': pass = req->session[0] != 0; break;
  case 'f': pass = strstr(req->form, p) == NULL; break;
  case 'n': return false; /* without an answer */
  case 'q': pass = strstr(req->query_string, p) == NULL; break;
  }
  if (pass) return true;
  if (routes[i].filter == 's') not_authenticated(req);
  else if (routes[i].filter == 'q') forbidden(req);
  else return_json_with_status(req, 403, "{\"refused\":true}");
  return false;
}

#define H1(n) static void h##n(api_request *r) { run_handler(0x##n, r); } static bool f##n(api_request *r) { return run_filter(0x##n, r); }
#define H16(P) H1(P##0) H1(P##1) H1(P##2) H1(P##3) H1(P##4) H1(P##5) H1(P##6) H1(P##7) H1(P##8) H1(P##9) H1(P##a) H1(P##b) H1(P##c) H1(P##d) H1(P##e) H1(P##f)
H16(0) H16(1) H16(2) H16(3) H16(4) H16(5) H16(6) H16(7)
#define N16(X, P) X##P##0, X##P##1, X##P##2, X##P##3, X##P##4, X##P##5, X##P##6, X##P##7, X##P##8, X##P##9, X##P##a, X##P##b, X##P##c, X##P##d, X##P##e, X##P##f
static request_handler handlers[] = {N16(h, 0), N16(h, 1), N16(h, 2), N16(h, 3), N16(h, 4), N16(h, 5), N16(h, 6), N16(h, 7)};
static request_filter filters[] = {N16(f, 0), N16(f, 1), N16(f, 2), N16(f, 3), N16(f, 4), N16(f, 5), N16(f, 6), N16(f, 7)};

/* ---- gate mode: the socket handler records the descriptor and waits ---- */
static pthread_mutex_t g_mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_cond = PTHREAD_COND_INITIALIZER;
static buf_t g_log;
static char *g_open; /* per descriptor: released? */
static int g_all;
static void gate(int fd)
{
  char t[64];
  char id[16] = {0};
  ssize_t n = recv(fd, id, 8, 0); /* the client sends its 8 byte number first */
  pthread_mutex_lock(&g_mutex);
  snprintf(t, sizeof t, "%d %.8s %lu\n", fd, n == 8 ? id : "?", (unsigned long)pthread_self());
  b_add(&g_log, t, strlen(t));
  while (!g_open[fd] && !g_all) pthread_cond_wait(&g_cond, &g_mutex);
  g_open[fd] = 0;
  pthread_mutex_unlock(&g_mutex);
  close(fd);
}

/* ---- control channel ---- */
static void wr(const void *p, size_t n)
{
  const char *c = p;
  while (n)
  {
    ssize_t r = write(CTL, c, n);
    if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(0); }
    c += r;
    n -= r;
  }
}
static void rd(void *p, size_t n)
{
  char *c = p;
  while (n)
  {
    ssize_t r = read(CTL, c, n);
    if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(0); }
    c += r;
    n -= r;
  }
}
static void reply(const void *p, uint32_t n) { wr(&n, 4); wr(p, n); }

static uint32_t u32(char **p) { uint32_t v; memcpy(&v, *p, 4); *p += 4; return v; }
static char *pstr(char **p)
{
  uint32_t n = u32(p);
  char *s = malloc(n + 1);
  memcpy(s, *p, n);
  s[n] = 0;
  *p += n;
  return s;
}

static int count_fds(void)
{
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

/* ---- a crowd of clients inside this process ----
 * Each thread makes one connection after the other, sends one of the given requests and compares
 * the answer with the given one. Some clients send in two pieces, some leave without reading. */
static struct { char *req, *want; uint32_t nreq, nwant; struct in_addr ip; uint32_t count; } *h_item;
static uint32_t h_items, h_left, h_rude, h_timeout, h_seed;
static int h_on, h_threads, h_fds[256], h_first, h_n;
static pthread_mutex_t h_mutex = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t h_cond = PTHREAD_COND_INITIALIZER;
static buf_t h_bad;

static void h_write(int fd, const char *p, size_t n)
{
  while (n > 0)
  {
    ssize_t r = write(fd, p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return; /* the server may refuse before it has read all */
    p += r;
    n -= r;
  }
}

/* The same over TLS; returns what is received, *late: 1 nothing comes, 2 no closing message */
static SSL_CTX *h_tls;
static uint32_t h_talk_tls(int fd, const char *p, uint32_t n, uint32_t k, int rude, uint64_t x, char *got, int *late)
{
  if (rude && x & 16) { h_write(fd, p, k); return 0; }
  SSL *t = SSL_new(h_tls);
  SSL_set_fd(t, fd);
  uint32_t m = 0;
  if (SSL_connect(t) == 1)
  {
    if (k) SSL_write(t, p, k);
    if (!rude)
    {
      if (k < n) { if (x & 8) usleep(x % 50); SSL_write(t, p + k, n - k); }
      for (;;)
      {
        int r = SSL_read(t, got + m, (1 << 20) - m);
        if (r > 0) { m += r; continue; }
        if (SSL_get_error(t, r) != SSL_ERROR_ZERO_RETURN) *late = SSL_get_error(t, r) == SSL_ERROR_WANT_READ ? 1 : 2;
        break;
      }
    }
  }
  else *late = 2;
  SSL_free(t);
  ERR_clear_error();
  return m;
}

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void *h_client(void *arg)
{
  uint64_t x = ((uint64_t)h_seed << 20) + (uintptr_t)arg * 0x9E3779B97F4A7C15ull + 1;
  char *got = malloc(1 << 20);
  for (;;)
  {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    uint32_t i = (x >> 11) % h_items;
    int rude = (x >> 40) % 1000 < h_rude, two = (x >> 52) % 4 == 0;
    int sv[2];
    pthread_mutex_lock(&h_mutex);
    int stop = h_left == 0 || h_bad.n;
    if (!stop) h_left--;
    pthread_mutex_unlock(&h_mutex);
    if (stop) break;
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) die("socketpair");
    if (sv[1] >= MAXFD) die("descriptor");
    struct timeval tv = {h_timeout, 0};
    setsockopt(sv[0], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    setsockopt(sv[0], SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    gone[sv[1]] = 0;
    peers[sv[1]] = h_item[i].ip;
    pthread_mutex_lock(&h_mutex);
    h_fds[(h_first + h_n++) % 256] = sv[1];
    pthread_cond_broadcast(&h_cond);
    pthread_mutex_unlock(&h_mutex);
    uint32_t n = h_item[i].nreq, k = two || rude ? (x >> 24) % (n + 1) : n;
    uint32_t m = 0;
    int late = 0;
    if (WAYUU_SSL_ON)
    {
      m = h_talk_tls(sv[0], h_item[i].req, n, k, rude, x, got, &late);
      if (rude) { close(sv[0]); continue; }
      goto judge;
    }
    h_write(sv[0], h_item[i].req, k);
    if (rude) { close(sv[0]); continue; }
    if (k < n) { if (x & 8) usleep(x % 50); h_write(sv[0], h_item[i].req + k, n - k); }
    shutdown(sv[0], SHUT_WR);
    for (;;)
    {
      ssize_t r = read(sv[0], got + m, (1 << 20) - m);
      if (r < 0 && errno == EINTR) continue;
      if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) late = 1;
      if (r <= 0) break;
      m += r;
    }
judge:
    close(sv[0]);
    pthread_mutex_lock(&h_mutex);
    h_item[i].count++;
    if ((late || m != h_item[i].nwant || memcmp(got, h_item[i].want, m)) && !h_bad.n)
    {
      b_add(&h_bad, &i, 4);
      b_add(&h_bad, late == 1 ? "L" : late ? "C" : "W", 1);
      b_add(&h_bad, got, m);
    }
    pthread_mutex_unlock(&h_mutex);
  }
  free(got);
  pthread_mutex_lock(&h_mutex);
  h_threads--;
  pthread_cond_broadcast(&h_cond);
  pthread_mutex_unlock(&h_mutex);
  return NULL;
}

/* clients, connections in all, rude ones per thousand, seconds to wait, seed, then request, answer, address of each */
static void h_start(char *p)
{
  h_threads = u32(&p); h_left = u32(&p); h_rude = u32(&p); h_timeout = u32(&p); h_seed = u32(&p); h_items = u32(&p);
  h_item = calloc(h_items, sizeof *h_item);
  for (uint32_t i = 0; i < h_items; i++)
  {
    memcpy(&h_item[i].nreq, p, 4);
    h_item[i].req = pstr(&p);
    memcpy(&h_item[i].nwant, p, 4);
    h_item[i].want = pstr(&p);
    char *a = pstr(&p);
    inet_aton(a, &h_item[i].ip);
    free(a);
  }
  h_bad.n = 0;
  h_on = 1;
  if (WAYUU_SSL_ON && !h_tls)
  {
    h_tls = SSL_CTX_new(TLS_client_method());
    SSL_CTX_set_session_cache_mode(h_tls, SSL_SESS_CACHE_OFF);
  }
  int n = h_threads;
  for (int i = 0; i < n; i++)
  {
    pthread_t t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    if (__real_pthread_create(&t, &at, h_client, (void *)(uintptr_t)(i + 1))) die("thread");
  }
}

/* The next connection of the crowd, or -1 when all left */
static int h_next(void)
{
  pthread_mutex_lock(&h_mutex);
  while (!h_n && h_threads) pthread_cond_wait(&h_cond, &h_mutex);
  int fd = -1;
  if (h_n) { fd = h_fds[h_first]; h_first = (h_first + 1) % 256; h_n--; }
  pthread_mutex_unlock(&h_mutex);
  if (fd >= 0) return fd;
  buf_t b = {0};
  for (uint32_t i = 0; i < h_items; i++)
  {
    b_add(&b, &h_item[i].count, 4);
    free(h_item[i].req);
    free(h_item[i].want);
  }
  b_add(&b, h_bad.p, h_bad.n);
  reply(b.p, b.n);
  free(b.p);
  free(h_item);
  h_on = 0;
  return -1;
}

static int pending;
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int s, struct sockaddr *addr, socklen_t *len)
{
  if (pending) { pending = 0; reply("", 0); }
  for (;;)
  {
    char cmd;
    int fd = -1;
    if (h_on && (fd = h_next()) >= 0)
    {
      struct sockaddr_in a = {0};
      a.sin_family = AF_INET;
      a.sin_port = htons(40000);
      a.sin_addr = peers[fd];
      if (addr && len) { memcpy(addr, &a, *len < sizeof a ? *len : sizeof a); *len = sizeof a; }
      return fd;
    }
    char cm[CMSG_SPACE(sizeof(int))];
    struct iovec io = {&cmd, 1};
    struct msghdr m = {0};
    m.msg_iov = &io;
    m.msg_iovlen = 1;
    m.msg_control = cm;
    m.msg_controllen = sizeof cm;
    ssize_t r = recvmsg(CTL, &m, 0);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) _exit(0);
    for (struct cmsghdr *c = CMSG_FIRSTHDR(&m); c; c = CMSG_NXTHDR(&m, c))
      if (c->cmsg_type == SCM_RIGHTS) memcpy(&fd, CMSG_DATA(c), sizeof fd);
    uint32_t n;
    rd(&n, 4);
    char *pl = malloc(n + 1), *p = pl;
    rd(pl, n);
    pl[n] = 0;
    switch (cmd)
    {
    case 'C': /* payload: IPv4 address text, after '!' if the client is gone by the time it is served */
    {
      if (fd < 0 || fd >= MAXFD) die("no descriptor");
      struct sockaddr_in a = {0};
      a.sin_family = AF_INET;
      a.sin_port = htons(40000);
      gone[fd] = *pl == '!';
      inet_aton(pl + gone[fd], &a.sin_addr);
      peers[fd] = a.sin_addr;
      if (addr && len) { memcpy(addr, &a, *len < sizeof a ? *len : sizeof a); *len = sizeof a; }
      free(pl);
      pending = 1;
      return fd;
    }
    case 'E': { int e = atoi(pl); free(pl); pending = 1; errno = e; return -1; }
    case 'R':
    {
      free_routing_table();
      router_init();
      uint32_t k = u32(&p);
      for (uint32_t i = 0; i < k; i++)
      {
        char *t = pstr(&p);
        int h = i < MAX_ROUTES ? i : 0;
        char kind = *p++, fk = *p++;
        char *pa = pstr(&p), *fp = pstr(&p);
        if (i < MAX_ROUTES)
        {
          free(routes[h].param);
          free(routes[h].fparam);
          routes[h].kind = kind; routes[h].filter = fk; routes[h].param = pa; routes[h].fparam = fp;
        }
        else { free(pa); free(fp); }
        router_add_route(t, handlers[h], fk == '-' ? NULL : filters[h]);
        free(t);
      }
      reply("", 0);
      break;
    }
    case 'L': limits = load_limits(); reply("", 0); break;
    case 'M':
    {
      uint64_t v[2] = {__sanitizer_get_current_allocated_bytes(), count_fds()};
      reply(v, sizeof v);
      break;
    }
    case 'V':
    {
      pthread_mutex_lock(&ev_mutex);
      buf_t b = events;
      memset(&events, 0, sizeof events);
      pthread_mutex_unlock(&ev_mutex);
      reply(b.p ? b.p : "", b.n);
      free(b.p);
      break;
    }
    case 'O': events_off = atoi(pl); reply("", 0); break;
    case 'S': log_set_level(atoi(pl)); reply("", 0); break;
    case 'D': { unsigned a = 1, b = 0; sscanf(pl, "%u %u", &a, &b); wv_perturb_set(a, b); reply("", 0); break; }
    case 'N':
    {
      for (int i = 0; i < n_lookups; i++) free(lookups[i]);
      free(lookups);
      n_lookups = u32(&p);
      lookups = calloc(n_lookups + 1, sizeof *lookups);
      for (int i = 0; i < n_lookups; i++) lookups[i] = pstr(&p);
      reply("", 0);
      break;
    }
    case 'W':
    {
      char *a = pstr(&p), *b = pstr(&p), *c = pstr(&p);
      snprintf(WWW_INDEX, ROOT_PATH_MAX, "%s", a);
      snprintf(FAVICON_URL, ROOT_PATH_MAX, "%s", b);
      snprintf(WAYUU_STATIC_ROOT, 2 * ROOT_PATH_MAX, "%s", c);
      free(a); free(b); free(c);
      reply("", 0);
      break;
    }
    case 'T':
    {
      pthread_mutex_lock(&g_mutex);
      buf_t b = g_log;
      memset(&g_log, 0, sizeof g_log);
      pthread_mutex_unlock(&g_mutex);
      reply(b.p ? b.p : "", b.n);
      free(b.p);
      break;
    }
    case 'G': /* release one descriptor, or all (-1), or stop releasing all (-2) */
    {
      int g = atoi(pl);
      pthread_mutex_lock(&g_mutex);
      if (g == -1) g_all = 1;
      else if (g == -2) g_all = 0;
      else if (g >= 0 && g < MAXFD) g_open[g] = 1;
      pthread_cond_broadcast(&g_cond);
      pthread_mutex_unlock(&g_mutex);
      reply("", 0);
      break;
    }
    case 'K': wv_clock_set(atol(pl)); reply("", 0); break;
    case 'I': { char t[16]; pthread_mutex_lock(&w_mutex); int k = snprintf(t, sizeof t, "%d", w_inside); pthread_mutex_unlock(&w_mutex); reply(t, k); break; }
    case 'X': pthread_mutex_lock(&w_mutex); w_gen++; pthread_cond_broadcast(&w_cond); pthread_mutex_unlock(&w_mutex); reply("", 0); break;
    case 'F': wv_fault(pl); reply("", 0); break;
    case 'P': reply("pong", 4); break;
    case 'H': h_start(pl); break;
    default: die("bad command");
    }
    if (fd >= 0) close(fd);
    free(pl);
  }
}
int __wrap_accept4(int s, struct sockaddr *addr, socklen_t *len, int flags) { (void)flags; return __wrap_accept(s, addr, len); }

int __real_getpeername(int, struct sockaddr *, socklen_t *);
int __wrap_getpeername(int s, struct sockaddr *addr, socklen_t *len)
{
  if (s < 0 || s >= MAXFD) { errno = EBADF; return -1; }
  if (gone[s]) { errno = ENOTCONN; return -1; }
  struct sockaddr_in a = {0};
  a.sin_family = AF_INET;
  a.sin_port = htons(40000);
  a.sin_addr = peers[s];
  memcpy(addr, &a, *len < sizeof a ? *len : sizeof a);
  *len = sizeof a;
  return 0;
}

int main(int argc, char **argv)
{
  if (argc < 2) die("usage");
  if (getenv("WV_CTL")) ctl_fd = atoi(getenv("WV_CTL"));
  struct rlimit rl;
  if (!getrlimit(RLIMIT_NOFILE, &rl)) { rl.rlim_cur = rl.rlim_max < MAXFD ? rl.rlim_max : MAXFD; setrlimit(RLIMIT_NOFILE, &rl); }
  signal(SIGPIPE, SIG_IGN);
  g_open = calloc(MAXFD, 1);
  snprintf(WAYUU_WS_ROOT, ROOT_PATH_MAX, "%s", argv[1]);
  snprintf(WAYUU_STATIC_ROOT, 2 * ROOT_PATH_MAX, "%s/www", argv[1]);
  strcpy(WWW_INDEX, "/index.html");
  strcpy(FAVICON_URL, "/favicon.ico");
  WAYUU_SSL_ON = getenv("WV_SSL") != NULL;
  wv_thread_cap = getenv("WV_CAP") ? atoi(getenv("WV_CAP")) : 0;
  log_set_level(getenv("WV_LEVEL") ? atoi(getenv("WV_LEVEL")) : LOG_ERROR);
  log_set_file(WAYUU_LOGFILE);
  router_init();
  ws_launch(0, "127.0.0.1", getenv("WV_GATE") ? gate : NULL);
  dprintf(2, "HARNESS: ws_launch returned\n");
  _exit(96);
}
