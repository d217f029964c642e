/* Calls single public functions of the code under test on arguments read from
 * stdin and writes the results to stdout.
 * request: u32 number of arguments, then per argument u32 length (0xffffffff =
 * NULL) and bytes; argument 0 names the operation. reply: the same format.
 * String arguments get exact heap blocks, so any access beyond them is seen. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ws.h"
#include "router.h"
#include "log.h"
#include "wayuu_log.h"
#include "string_utils.h"
#include "json_utils.h"
#include "file_utils.h"
#include "conf_parser.h"
#include "wrap.h"

static int in_fd, out_fd;
static void die(const char *m) { dprintf(2, "HARNESS: %s\n", m); _exit(98); }
static void rd(void *p, size_t n)
{
  char *c = p;
  while (n) { ssize_t r = read(in_fd, c, n); if (r <= 0) _exit(0); c += r; n -= r; }
}
static char *out; static size_t outn, outcap; static uint32_t outk;
static void put(const void *d, size_t n)
{
  if (outn + n > outcap) { outcap = (outn + n) * 2 + 4096; out = realloc(out, outcap); if (!out) die("memory"); }
  memcpy(out + outn, d, n);
  outn += n;
}
static void rb(const void *d, size_t n) { uint32_t k = n; put(&k, 4); put(d, n); outk++; }
static void rs(const char *s) { if (s) rb(s, strlen(s)); else { uint32_t k = 0xffffffffu; put(&k, 4); outk++; } }
static void ri(long long v) { char t[32]; rb(t, snprintf(t, sizeof t, "%lld", v)); }

#define MAXA 4096
static uint32_t na; static char *raw[MAXA]; static uint32_t rl[MAXA];
static char *S(unsigned i) /* exact, terminated copy */
{
  if (i >= na || rl[i] == 0xffffffffu) return NULL;
  char *p = malloc(rl[i] + 1);
  if (rl[i]) memcpy(p, raw[i], rl[i]);
  p[rl[i]] = 0;
  return p;
}
static char *B(unsigned i) /* exact copy, not terminated */
{
  char *p = malloc(rl[i] ? rl[i] : 1);
  if (rl[i]) memcpy(p, raw[i], rl[i]);
  return p;
}
static long long I(unsigned i) { char *s = S(i); long long v = s ? atoll(s) : 0; free(s); return v; }
static int same(unsigned i, const char *s) { return s && strlen(s) == rl[i] && !memcmp(s, raw[i], rl[i]); }

/* ---- a text that is made here, of a repeated block ---- */
static char *big;
static size_t big_n;

/* ---- a socket whose other end is drained by a thread ---- */
typedef struct { int fd; char *p; size_t n, cap; } drain_t;
static void *drain_run(void *a)
{
  drain_t *d = a;
  for (;;)
  {
    if (d->cap - d->n < 65536) { d->cap = d->cap * 2 + 131072; d->p = realloc(d->p, d->cap); }
    ssize_t r = recv(d->fd, d->p + d->n, d->cap - d->n, 0);
    if (r <= 0) return NULL;
    d->n += r;
  }
}

/* ---- recorded routes ---- */
static char rlog[65536]; static size_t rlogn;
static char fres[MAX_ROUTES];
static int quiet_handlers;
static void rec(char k, int i, api_request *r)
{
  rlogn += snprintf(rlog + rlogn, sizeof rlog - rlogn, "%c%d ", k, i);
  char *f = r->form;
  for (size_t j = 0; f[j] && rlogn < sizeof rlog - 4096; j++) rlogn += snprintf(rlog + rlogn, 3, "%02x", (unsigned char)f[j]);
  rlogn += snprintf(rlog + rlogn, 2, "\n");
}
static void hrun(int i, api_request *r) { rec('H', i, r); if (!quiet_handlers) { char t[64]; sprintf(t, "{\"h\":%d}", i); return_json(r, t); } }
static bool frun(int i, api_request *r)
{
  rec('F', i, r);
  if (fres[i] == '1') return true;
  if (fres[i] == 'f' && !strstr(r->form, "deny")) return true;
  forbidden(r);
  return false;
}
#define H1(n) static void h##n(api_request *r) { hrun(0x##n, r); } static bool f##n(api_request *r) { return frun(0x##n, r); }
#define H16(P) H1(P##0) H1(P##1) H1(P##2) H1(P##3) H1(P##4) H1(P##5) H1(P##6) H1(P##7) H1(P##8) H1(P##9) H1(P##a) H1(P##b) H1(P##c) H1(P##d) H1(P##e) H1(P##f)
H16(0) H16(1) H16(2) H16(3) H16(4) H16(5) H16(6) H16(7)
#define N16(X, P) X##P##0, X##P##1, X##P##2, X##P##3, X##P##4, X##P##5, X##P##6, X##P##7, X##P##8, X##P##9, X##P##a, X##P##b, X##P##c, X##P##d, X##P##e, X##P##f
static request_handler handlers[] = {N16(h, 0), N16(h, 1), N16(h, 2), N16(h, 3), N16(h, 4), N16(h, 5), N16(h, 6), N16(h, 7)};
static request_filter filters[] = {N16(f, 0), N16(f, 1), N16(f, 2), N16(f, 3), N16(f, 4), N16(f, 5), N16(f, 6), N16(f, 7)};

static char *entity(void *o) { return strdup(o); }

/* ---- configuration ---- */
static serializable *conf_ser(void *in) { return in; }
static int conf_seen(void *o, conf_item *it)
{
  (*(int *)o)++;
  rs(it->key);
  rs(it->value);
  ri(it->n_multivalues);
  for (int i = 0; i < it->n_multivalues; i++) rs(it->multivalue[i]);
  return 0;
}
/* items from argument a: per item key, value, count, multivalues */
static int conf_items(unsigned a, conf_item **it)
{
  int n = 0;
  while (a < na)
  {
    char *k = S(a), *v = S(a + 1);
    int m = I(a + 2);
    char *mv[64];
    for (int i = 0; i < m; i++) mv[i] = S(a + 3 + i);
    it[n++] = new_conf_item_with_values(k, v, mv, m);
    for (int i = 0; i < m; i++) free(mv[i]);
    free(k);
    free(v);
    a += 3 + m;
  }
  return n;
}

/* ---- logging ---- */
static void log_one(int level, const char *fmt, char *s, long long d)
{
  if (!strcmp(fmt, "s"))
    switch (level)
    {
    case LOG_TRACE: log_trace("%s", s); break;
    case LOG_DEBUG: log_debug("%s", s); break;
    case LOG_INFO: log_info("%s", s); break;
    case LOG_WARN: log_warn("%s", s); break;
    case LOG_ERROR: log_error("%s", s); break;
    default: log_fatal("%s", s);
    }
  else if (!strcmp(fmt, "sd")) __logger(level, "some/file.c", (int)d, "func_name", "%s|%lld|%5.2f|%%|%c", s, d, 1.5, 'x');
  else if (!strcmp(fmt, "many")) __logger(level, "f.c", (int)d, "g", "%d %d %d %d %d %d %d %d %d %s", 1, 2, 3, 4, 5, 6, 7, 8, 9, s);
  else __logger(level, s, (int)d, "h", "constant text");
}
typedef struct { int id, n, level; char *s; } lt_t;
static void *log_thread(void *a)
{
  lt_t *t = a;
  for (int i = 0; i < t->n; i++)
    __logger(t->level, "thread.c", i, "worker", "T%d M%d %s|end", t->id, i, t->s);
  return NULL;
}

static void op(void)
{
  char *name = S(0);
#define OP(x) else if (!strcmp(name, x))
  if (0) ;
  OP("ping") rs("pong");
  OP("trim") { char *s = S(1); trim(s); rs(s); free(s); }
  OP("rtrim") { char *s = S(1); char *r = rtrim(s, (char)I(2)); rs(r); ri(same(1, s)); free(r); free(s); }
  OP("chop") { char *s = S(1); chop_string(s); rs(s); free(s); }
  OP("startswith") { char *s = S(1), *p = S(2); ri(startswith(s, p)); ri(same(1, s)); free(s); free(p); }
  OP("startswithany")
  { /* str, end marker (0 NULL, 1 ""), entries... */
    char *s = S(1);
    int n = na - 3;
    char **l = calloc(n + 1, sizeof *l);
    for (int i = 0; i < n; i++) l[i] = S(3 + i);
    l[n] = I(2) ? strdup("") : NULL;
    ri(startswithany(s, (const char **)l));
    for (int i = 0; i <= n; i++) free(l[i]);
    free(l);
    free(s);
  }
  OP("find") { char *h = S(1), *n = S(2); ri(text_find_after(h, n, I(3), I(4))); free(h); free(n); }
  OP("alnum") { char *s = S(1); ri(string_isalnum(s)); free(s); }
  OP("md5") { char *o = malloc(33), *d = B(1); memset(o, 'Z', 33); md5sum(o, d, rl[1]); rb(o, 33); free(o); free(d); }
  OP("big") { size_t n = I(2); free(big); big = malloc(n); for (size_t i = 0; i < n; i += rl[1]) memcpy(big + i, raw[1], n - i < rl[1] ? n - i : rl[1]); big_n = n; }
  OP("md5big") { char *o = malloc(33); memset(o, 'Z', 33); md5sum(o, big, big_n); rb(o, 33); free(o); }
  OP("split") { char *s = S(1), *d = S(2); str_list_t *l = split(s, d); ri(same(1, s) && same(2, d)); for (int i = 0; i < l->n_str; i++) rs(l->strings[i]); free_str_list_t(l); free(s); free(d); }
  OP("split_once") { char *s = S(1), *d = S(2); str_list_t *l = split_once(s, d); ri(same(1, s) && same(2, d)); for (int i = 0; i < l->n_str; i++) rs(l->strings[i]); free_str_list_t(l); free(s); free(d); }
  OP("join")
  {
    int n = na - 2;
    char *d = S(1), **a = calloc(n ? n : 1, sizeof *a);
    for (int i = 0; i < n; i++) a[i] = S(2 + i);
    char *r = join(a, n, d);
    int ok = same(1, d);
    for (int i = 0; i < n; i++) ok &= same(2 + i, a[i]);
    ri(ok);
    rs(r);
    if (n) free(r);
    for (int i = 0; i < n; i++) free(a[i]);
    free(a);
    free(d);
  }
  OP("json_strings")
  {
    int n = na - 1;
    char **a = calloc(n ? n : 1, sizeof *a);
    for (int i = 0; i < n; i++) a[i] = S(1 + i);
    char *r = json_array_of_strings(a, n);
    rs(r);
    free(r);
    for (int i = 0; i < n; i++) free(a[i]);
    free(a);
  }
  OP("json_null") { char *r = json_array_of_strings(NULL, I(1)); rs(r); free(r); r = json_array_of_ints(NULL, I(1)); rs(r); free(r); json_list_t l = {0, entity, NULL}; r = json_array_of_entities(l); rs(r); free(r); }
  OP("json_ints")
  {
    int n = na - 1;
    int *a = malloc((n ? n : 1) * sizeof *a);
    for (int i = 0; i < n; i++) a[i] = (int)I(1 + i);
    char *r = json_array_of_ints(a, n);
    rs(r);
    free(r);
    free(a);
  }
  OP("json_entities")
  {
    int n = na - 1;
    json_list_t l = {n, entity, calloc(n ? n : 1, sizeof(void *))};
    for (int i = 0; i < n; i++) l.elements[i] = S(1 + i);
    char *r = json_array_of_entities(l);
    rs(r);
    free(r);
    for (int i = 0; i < n; i++) free(l.elements[i]);
    free(l.elements);
  }
  OP("json_kv") { char *k = S(1), *v = S(2); char *r = json_key_value(k, v); rs(r); free(r); free(k); free(v); }
  OP("json_kv_int") { char *k = S(1); char *r = json_key_value_int(k, (int)I(2)); rs(r); free(r); free(k); }
  OP("json_kv_uint") { char *k = S(1); char *r = json_key_value_uint32_t(k, (uint32_t)I(2)); rs(r); free(r); free(k); }
  OP("json_kv_bool") { char *k = S(1); char *r = json_key_value_bool(k, I(2)); rs(r); free(r); free(k); }
  OP("error") { char *c = S(1), *m = S(2); wayuu_error_t *e = new_error_with_values(c, m); char *r = wayuu_error_t_json_serializer(e); rs(r); free(r); free(e); free(c); free(m); }
  OP("result")
  {
    call_response_t *r = malloc(sizeof *r);
    memset(r, 'J', sizeof *r);
    r->status = I(1);
    char *t = S(2), *d = S(3), *a = S(4);
    strcpy(r->text, t);
    strcpy(r->description, d);
    r->additional_info = a;
    char *j = return_response(*r);
    rs(j);
    free(j); free(t); free(d); free(a); free(r);
  }
  OP("conf_write")
  { /* path, items... */
    conf_item *it[64];
    int n = conf_items(2, it);
    serializable *s = new_serializable(S(1), it, n);
    char *txt = serializable_to_string(s);
    ri(write_conf(s, conf_ser));
    rs(txt);
    free(txt);
  }
  OP("conf_parse")
  { /* path, n keys, (key, multi)... */
    char *path = S(1);
    key_flags k;
    memset(&k, 0, sizeof k);
    k.size = I(2);
    for (int i = 0; i < k.size; i++) { k.flags[i].key = S(3 + 2 * i); k.flags[i].is_multi = I(4 + 2 * i); }
    int n = 0;
    uint32_t before = outk;
    (void)before;
    int r = parse(path, conf_seen, &n, k);
    ri(n);
    ri(r);
    for (int i = 0; i < k.size; i++) free(k.flags[i].key);
    free(path);
  }
  OP("conf_line")
  {
    char *l = S(1);
    conf_item *it = conf_parse_line(l, I(2));
    ri(it != NULL);
    ri(same(1, l));
    if (it)
    {
      int n = 0;
      conf_seen(&n, it);
      char *t = conf_item_to_string(it);
      rs(t);
      free(t);
      free_conf_item(it);
    }
    free(l);
  }
  OP("write_file") { char *p = S(1), *d = B(2); write_file(p, d, rl[2]); free(p); free(d); }
  OP("writebig") { char *p = S(1); write_file(p, big, big_n); free(p); }
  OP("read_file") { char *p = S(1); long n = I(2), m = I(3); char *o = malloc(n ? n : 1); memset(o, 'Z', n ? n : 1); read_file(o, p, m); rb(o, n); free(o); free(p); }
  OP("find_in_file") { char *p = S(1), *n = S(2); ri(find_in_file(p, n)); free(p); free(n); }
  OP("fault") { char *p = S(1); wv_fault(p); free(p); }
  OP("fds")
  {
    long n = 0;
    for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0;
    ri(n);
  }
  OP("is_file") { char *p = S(1); ri(is_file(p)); free(p); }
  OP("is_dir") { char *p = S(1); ri(is_dir(p)); free(p); }
  OP("createdir") { char *p = S(1); ri(check_createdir(p)); free(p); }
  OP("url") { char *u = S(1); path_and_query_t *q = get_path_and_query_string(u); rs(q->path); rs(q->query); ri(same(1, u)); free_path_and_query_t(q); free(u); }
  OP("ctype") { char *f = S(1); char *r = get_content_type(f); rs(r); free(r); free(f); }
  OP("root") { snprintf(WAYUU_WS_ROOT, ROOT_PATH_MAX, "%s", raw[1] ? S(1) : ""); }
  OP("limits")
  {
    path_limits *l = load_limits();
    for (int i = 0; i < MAX_LIMIT_RULES && *l[i].path; i++)
    {
      rb(l[i].path, strnlen(l[i].path, sizeof l[i].path));
      ri(l[i].max_connections); ri(l[i].max_connections_per_ip); ri(l[i].max_seconds);
    }
    free(l);
  }
  OP("allowed") { char *ip = S(1); ri(allowed_address(ip)); free(ip); }
  OP("routes")
  { /* n x (template, filter) */
    free_routing_table();
    router_init();
    int n = (na - 1) / 2;
    for (int i = 0; i < n; i++)
    {
      char *t = S(1 + 2 * i), *f = S(2 + 2 * i);
      int h = i < MAX_ROUTES ? i : 0;
      if (i < MAX_ROUTES) fres[i] = *f;
      router_add_route(t, handlers[h], *f == '-' ? NULL : filters[h]);
      free(t);
      free(f);
    }
  }
  OP("route") /* method, path, form */
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) die("socketpair");
    drain_t d = {sv[1]};
    pthread_t th;
    pthread_create(&th, NULL, drain_run, &d);
    api_request *r = calloc(1, sizeof *r);
    r->socket = sv[0];
    r->method = S(1); r->path = S(2);
    /* "" is not allocated by the request reader either */
    r->form = rl[3] ? S(3) : "";
    r->url = S(2); r->query_string = ""; r->session = ""; r->username = ""; r->IP = "1.2.3.4"; r->request_line = "X";
    rlogn = 0; rlog[0] = 0;
    router_handle_request(r);
    shutdown(sv[0], SHUT_RDWR);
    pthread_join(th, NULL);
    close(sv[0]); close(sv[1]);
    rb(rlog, rlogn);
    rb(d.p, d.n);
    ri(same(1, r->method) && same(2, r->path));
    rs(r->form);
    free(d.p);
  }
  OP("helper") /* helper, status, text, text2, session, IP, request line, referer, user agent */
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) die("socketpair");
    drain_t d = {sv[1]};
    pthread_t th;
    pthread_create(&th, NULL, drain_run, &d);
    api_request *r = malloc(sizeof *r);
    memset(r, 0, sizeof *r);
    r->socket = sv[0];
    r->request_start = epoch_millis();
    r->form = r->query_string = r->username = "";
    r->url = r->path = "/x";
    r->session = S(5); r->IP = S(6); r->request_line = S(7);
    char *nm[2] = {"Referer", "User-Agent"};
    for (int i = 0; i < 2; i++)
      if (rl[8 + i] != 0xffffffffu)
      {
        strcpy(r->headers[r->n_headers].name, nm[i]);
        char *v = S(8 + i);
        strcpy(r->headers[r->n_headers].value, v);
        free(v);
        r->n_headers++;
      }
    char *h = S(1), *t = S(3), *t2 = S(4);
    int st = I(2);
    if (0) ;
#define HP(x) else if (!strcmp(h, x))
    HP("send_http_status") send_http_status(r, st, t);
    HP("return_json") return_json(r, t);
    HP("return_json_with_status") return_json_with_status(r, st, t);
    HP("return_json_stream")
    {
      FILE *f = tmpfile();
      fwrite(t, 1, strlen(t), f);
      rewind(f);
      return_json_stream(r, st, f);
      fclose(f);
    }
    HP("return_json_list")
    {
      json_list_t l = {st, entity, malloc((st ? st : 1) * sizeof(void *))};
      for (int i = 0; i < st; i++) l.elements[i] = strdup(t);
      return_json_list(r, l);
    }
    HP("error400") { wayuu_error_t *e = new_error_with_values(t, t2); bad_request_with_error(r, e); free(e); }
    HP("error403") { wayuu_error_t *e = new_error_with_values(t, t2); forbidden_with_error(r, e); free(e); }
    HP("error500") { wayuu_error_t *e = new_error_with_values(t, t2); internal_server_error_with_error(r, e); free(e); }
    HP("ok") ok(r);
    HP("created") created(r);
    HP("created_with_json") created_with_json(r, t);
    HP("bad_request") bad_request(r);
    HP("not_authenticated") not_authenticated(r);
    HP("forbidden") forbidden(r);
    HP("not_found") not_found(r);
    HP("too_many_connections") too_many_connections(r);
    HP("internal_server_error") internal_server_error(r);
    HP("direct_file") { if (direct_file(r, t) < 0) http_print_str(r, "NOFILE"); }
    HP("mime") { int n = return_headers_with_mime(r, st, t2); if (n) { send_empty_line(r); http_print_str(r, t); } r->response_length = n; }
    HP("json_headers") { int n = return_json_headers(r, st); if (n) { send_empty_line(r); http_print_str(r, t); } r->response_length = n; }
    HP("send_stream")
    {
      FILE *f = tmpfile();
      fwrite(t, 1, strlen(t), f);
      rewind(f);
      r->response_length = send_stream(r, f);
      fclose(f);
    }
    else die("helper");
    shutdown(sv[0], SHUT_RDWR);
    pthread_join(th, NULL);
    close(sv[0]); close(sv[1]);
    rb(d.p, d.n);
    ri(r->response_length);
    free(d.p); free(h); free(t); free(t2);
    free(r->session); free(r->IP); free(r->request_line); free(r);
  }
  OP("static") /* path, session: handle_static_routes on its own */
  {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) die("socketpair");
    drain_t d = {sv[1]};
    pthread_t th;
    pthread_create(&th, NULL, drain_run, &d);
    api_request *r = calloc(1, sizeof *r);
    r->socket = sv[0];
    r->form = r->query_string = r->username = "";
    r->url = "/x"; r->path = S(1); r->session = S(2); r->IP = "1.2.3.4"; r->request_line = "GET";
    handle_static_routes(r);
    shutdown(sv[0], SHUT_RDWR);
    pthread_join(th, NULL);
    close(sv[0]); close(sv[1]);
    rb(d.p, d.n);
    free(d.p);
  }
  OP("static_root") { char *a = S(1), *b = S(2), *c = S(3); snprintf(WAYUU_STATIC_ROOT, 2 * ROOT_PATH_MAX, "%s", a); snprintf(WWW_INDEX, ROOT_PATH_MAX, "%s", b); snprintf(FAVICON_URL, ROOT_PATH_MAX, "%s", c); free(a); free(b); free(c); }
  OP("part") /* part text: part_parse on a buffer of the size the caller gives */
  {
    char *t = S(1);
    char *f = calloc(3 * rl[1] + 128, 1);
    part_parse("1.2.3.4", f, t, rl[1]);
    rs(f);
    free(t);
    free(f);
  }
  OP("header") /* name, pairs... */
  {
    api_request *r = calloc(1, sizeof *r);
    for (unsigned i = 2; i + 1 < na; i += 2)
    {
      strcpy(r->headers[r->n_headers].name, raw[i]);
      strcpy(r->headers[r->n_headers].value, raw[i + 1]);
      r->n_headers++;
    }
    char *n = S(1), *v = http_get_header(r, n);
    rs(v);
    if (v && *v) free(v);
    free(n);
    free(r);
  }
  OP("log_level") { log_set_level(I(1)); for (int i = LOG_TRACE; i <= LOG_FATAL; i++) ri(log_level_is_enabled(i)); }
  OP("log") { char *f = S(2), *s = S(3); log_one(I(1), f, s, I(4)); free(f); free(s); }
  OP("log_threads") /* threads, messages, level, text length base */
  {
    int n = I(1);
    pthread_t th[64];
    lt_t a[64];
    for (int i = 0; i < n; i++)
    {
      a[i].id = i; a[i].n = I(2); a[i].level = I(3);
      a[i].s = malloc(I(4) * (i + 1) + 1);
      memset(a[i].s, 'a' + i % 26, I(4) * (i + 1));
      a[i].s[I(4) * (i + 1)] = 0;
    }
    for (int i = 0; i < n; i++) pthread_create(&th[i], NULL, log_thread, &a[i]);
    for (int i = 0; i < n; i++) { pthread_join(th[i], NULL); free(a[i].s); }
  }
  OP("log_fatal")
  {
    char *s = S(1);
    int lv = I(2);
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) die("fork");
    if (!p)
    {
      dup2(open("/dev/null", 1), 1);
      close(in_fd); close(out_fd);
      log_one(lv, "s", s, 0);
      _exit(77); /* logging went on */
    }
    int st;
    waitpid(p, &st, 0);
    ri(WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st));
    free(s);
  }
  OP("log_file") { char *p = S(1); log_set_file(p); free(p); }
  OP("log_close") log_close_file();
  OP("log_access") /* IP, request line, status, length, referer, user agent */
  {
    api_request *r = calloc(1, sizeof *r);
    r->IP = S(1); r->request_line = S(2); r->response_length = I(4); r->request_start = epoch_millis();
    char *nm[2] = {"Referer", "User-Agent"};
    for (int i = 0; i < 2; i++)
      if (rl[5 + i] != 0xffffffffu) { strcpy(r->headers[r->n_headers].name, nm[i]); strcpy(r->headers[r->n_headers++].value, raw[5 + i]); }
    log_access(r, I(3));
    free(r->IP); free(r->request_line); free(r);
  }
  OP("perturb") wv_perturb_set(I(1), I(2));
  else die("unknown operation");
  free(name);
}

int main(void)
{
  /* results go to a copy of stdout, so that the code under test may print */
  in_fd = dup(0);
  out_fd = dup(1);
  dup2(open("/dev/null", 0), 0);
  dup2(2, 1);
  signal(SIGPIPE, SIG_IGN);
  WAYUU_SSL_ON = false;
  log_set_level(LOG_ERROR);
  router_init();
  for (;;)
  {
    rd(&na, 4);
    if (na > MAXA || !na) die("arguments");
    for (uint32_t i = 0; i < na; i++)
    {
      rd(&rl[i], 4);
      raw[i] = NULL;
      if (rl[i] != 0xffffffffu) { raw[i] = malloc(rl[i] + 1); rd(raw[i], rl[i]); raw[i][rl[i]] = 0; }
    }
    outn = 0; outk = 0;
    op();
    for (uint32_t i = 0; i < na; i++) free(raw[i]);
    uint32_t k = outk;
    char *p = (char *)&k;
    size_t n = 4;
    while (n) { ssize_t r = write(out_fd, p, n); if (r <= 0) _exit(0); p += r; n -= r; }
    p = out; n = outn;
    while (n) { ssize_t r = write(out_fd, p, n); if (r <= 0) _exit(0); p += r; n -= r; }
  }
}
