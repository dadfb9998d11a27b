/* Runs mod_brunsli's hooks against a described request and file system. */
#include "httpd.h"

#include "../web.h"

struct apr_pool_t {
  void** v;
  size_t n, cap;
};
struct apr_table_t {
  apr_pool_t* p;
  const char* key[64];
  const char* val[64];
  int n;
};

void* apr_palloc(apr_pool_t* p, size_t n) {
  void* r = malloc(n ? n : 1);
  if (p->n == p->cap) p->v = (void**)realloc(p->v, sizeof(void*) * (p->cap = p->cap * 2 + 16));
  p->v[p->n++] = r;
  return r;
}
void* apr_pcalloc(apr_pool_t* p, size_t n) { return memset(apr_palloc(p, n), 0, n); }
char* apr_pstrmemdup(apr_pool_t* p, const char* s, size_t n) {
  if (!s) return NULL;
  char* r = (char*)apr_palloc(p, n + 1);
  memcpy(r, s, n);
  r[n] = 0;
  return r;
}
char* apr_pstrdup(apr_pool_t* p, const char* s) { return s ? apr_pstrmemdup(p, s, strlen(s)) : NULL; }
char* apr_pstrndup(apr_pool_t* p, const char* s, size_t n) { return s ? apr_pstrmemdup(p, s, strnlen(s, n)) : NULL; }
char* apr_pstrcat(apr_pool_t* p, ...) {
  va_list a;
  size_t n = 0;
  const char* s;
  va_start(a, p);
  while ((s = va_arg(a, const char*))) n += strlen(s);
  va_end(a);
  char* r = (char*)apr_palloc(p, n + 1);
  char* q = r;
  va_start(a, p);
  while ((s = va_arg(a, const char*))) q = stpcpy(q, s);
  va_end(a);
  *q = 0;
  return r;
}
char* apr_psprintf(apr_pool_t* p, const char* fmt, ...) {
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(NULL, 0, fmt, a);
  va_end(a);
  char* r = (char*)apr_palloc(p, n + 1);
  va_start(a, fmt);
  vsnprintf(r, n + 1, fmt, a);
  va_end(a);
  return r;
}
char* apr_strtok(char* str, const char* sep, char** last) {
  if (!str) str = *last;
  if (!str) return NULL;
  while (*str && strchr(sep, *str)) ++str;
  if (!*str) return NULL;
  char* token = str;
  *last = token + 1;
  while (**last && !strchr(sep, **last)) ++*last;
  if (**last) {
    **last = '\0';
    ++*last;
  }
  return token;
}
char* apr_collapse_spaces(char* dest, const char* src) {
  while (*src) {
    if (!apr_isspace(*src)) *dest++ = *src;
    ++src;
  }
  *dest = 0;
  return dest;
}
char* apr_cpystrn(char* dst, const char* src, size_t n) {
  if (!n) return dst;
  size_t k = strnlen(src, n - 1);
  memcpy(dst, src, k);
  dst[k] = 0;
  return dst + k;
}
int apr_strnatcmp(const char* a, const char* b) { return strcmp(a, b); }
const char* ap_getword(apr_pool_t* p, const char** line, char stop) {
  const char* e = strchr(*line, stop);
  if (!e) {
    char* r = apr_pstrdup(p, *line);
    *line += strlen(*line);
    return r;
  }
  char* r = apr_pstrmemdup(p, *line, e - *line);
  while (*e == stop) ++e;
  *line = e;
  return r;
}
const char* apr_table_get(const apr_table_t* t, const char* key) {
  for (int i = 0; i < t->n; ++i)
    if (!strcasecmp(t->key[i], key)) return t->val[i];
  return NULL;
}
void apr_table_setn(apr_table_t* t, const char* key, const char* val) {
  for (int i = 0; i < t->n; ++i)
    if (!strcasecmp(t->key[i], key)) {
      t->val[i] = val;
      return;
    }
  if (t->n == 64) return;
  t->key[t->n] = key;
  t->val[t->n++] = val;
}
void apr_table_set(apr_table_t* t, const char* key, const char* val) {
  apr_table_setn(t, apr_pstrdup(t->p, key), apr_pstrdup(t->p, val));
}
void apr_table_merge(apr_table_t* t, const char* key, const char* val) {
  const char* old = apr_table_get(t, key);
  apr_table_set(t, key, old ? apr_pstrcat(t->p, old, ", ", val, NULL) : val);
}
void apr_table_mergen(apr_table_t* t, const char* key, const char* val) { apr_table_merge(t, key, val); }

static const struct WebRequest* g_in;
static struct WebResponse* g_out;
static int (*g_hook)(request_rec*);
static int g_hooks;

apr_status_t apr_stat(apr_finfo_t* f, const char* fname, apr_int32_t wanted, apr_pool_t* p) {
  (void)wanted;
  (void)p;
  memset(f, 0, sizeof *f);
  snprintf(g_out->looked_at, sizeof g_out->looked_at, "%s", fname);
  size_t n = strlen(g_in->path);
  int j = !strncmp(fname, g_in->path, n) && !strcmp(fname + n, ".j");
  int kind = j ? g_in->variant : !strcmp(fname, g_in->path) ? WEB_FILE : WEB_MISSING;
  if (kind == WEB_MISSING) return APR_ENOENT;
  if (kind == WEB_DENIED) return 13;
  if (kind == WEB_NAMETOOLONG) return 36;
  static const apr_filetype_e kSpecial[] = {APR_CHR, APR_BLK, APR_PIPE, APR_SOCK, APR_UNKFILE};
  f->filetype = kind == WEB_FILE ? APR_REG : kind == WEB_DIR ? APR_DIR : kSpecial[g_in->size % 5];
  f->size = g_in->size;
  f->valid = wanted;
  /* Some attributes could be missing. */
  return APR_SUCCESS;
}
int ap_core_translate(request_rec* r) {
  if (g_in->translate == 0) r->filename = g_in->no_filename ? NULL : apr_pstrdup(r->pool, g_in->path);
  return g_in->translate == 0 ? OK : g_in->translate == 1 ? DECLINED : HTTP_FORBIDDEN;
}
void ap_set_content_type(request_rec* r, const char* ct) { r->content_type = ct; }
void ap_hook_translate_name(int (*f)(request_rec*), const char* const* pre, const char* const* succ, int order) {
  (void)pre;
  (void)succ;
  (void)order;
  g_hook = f;
  ++g_hooks;
}

extern module brunsli_module;

int ApacheServe(const struct WebRequest* in, struct WebResponse* out) {
  apr_pool_t pool = {0, 0, 0};
  memset(out, 0, sizeof *out);
  g_in = in;
  g_out = out;
  g_hooks = 0;
  brunsli_module.register_hooks(&pool);
  int error = 0;
  if (g_hooks != 1) error = 1;
  apr_table_t h = {&pool, {0}, {0}, 0}, ho = {&pool, {0}, {0}, 0}, notes = {&pool, {0}, {0}, 0};
  if (in->extra_headers) apr_table_set(&h, "Host", "example.org");
  if (in->accept) apr_table_set(&h, "accept", in->accept);
  if (in->extra_headers) apr_table_set(&h, "Accept-Encoding", "image/x-j");
  request_rec r;
  memset(&r, 0, sizeof r);
  r.pool = &pool;
  r.headers_in = &h;
  r.headers_out = &ho;
  r.notes = &notes;
  r.method = in->method == 1 ? "HEAD" : in->method == 2 ? "POST" : "GET";
  r.method_number = in->method == 2 ? M_POST : M_GET;
  r.header_only = in->method == 1;
  r.uri = apr_pstrdup(&pool, in->uri);
  r.unparsed_uri = apr_pstrdup(&pool, in->uri);
  r.status = HTTP_OK;
  if (!error) {
    int rc = g_hook(&r);
    out->rc = rc == OK ? WEB_SERVED : rc == DECLINED ? WEB_DECLINED : rc;
    snprintf(out->file, sizeof out->file, "%s", r.filename ? r.filename : "");
    snprintf(out->type, sizeof out->type, "%s", r.content_type ? r.content_type : "");
    /* The header still is what the client sent. */
    const char* a = apr_table_get(&h, "Accept");
    if (!!a != !!in->accept || (a && strcmp(a, in->accept))) error = 2;
  }
  for (size_t i = 0; i < pool.n; ++i) free(pool.v[i]);
  free(pool.v);
  return error;
}
