/* Runs ngx_http_brunsli_static_module against a described request and files. */
#include "ngx_http.h"

#include <stdio.h>

#include "../web.h"

static const struct WebRequest* g_in;
static struct WebResponse* g_out;
static int g_calls;
static ngx_pool_t g_pool;

/* True for the one call of the run that is to fail. */
static int Fault(void) {
  if (++g_calls != g_in->fault) return 0;
  g_out->faulted = 1;
  return 1;
}

static void* Alloc(ngx_pool_t* p, size_t n) {
  void* r = malloc(n ? n : 1);
  memset(r, 0xA5, n ? n : 1);
  if (p->n == p->cap) p->v = (void**)realloc(p->v, sizeof(void*) * (p->cap = p->cap * 2 + 16));
  p->v[p->n++] = r;
  return r;
}
void* ngx_palloc(ngx_pool_t* p, size_t n) { return g_in && Fault() ? NULL : Alloc(p, n); }
void* ngx_pnalloc(ngx_pool_t* p, size_t n) { return ngx_palloc(p, n); }
void* ngx_pcalloc(ngx_pool_t* p, size_t n) {
  void* r = ngx_palloc(p, n);
  if (r) memset(r, 0, n);
  return r;
}
void* ngx_array_push(ngx_array_t* a) {
  void* n = Alloc(&g_pool, a->size * (a->nelts + 1));
  if (a->nelts) memcpy(n, a->elts, a->size * a->nelts);
  a->elts = n;
  return (char*)n + a->size * a->nelts++;
}
void* ngx_list_push(ngx_list_t* l) { return Fault() ? NULL : ngx_array_push(&l->a); }

/* Strings: as in nginx' ngx_string.c. */
ngx_int_t ngx_strcasecmp(u_char* s1, u_char* s2) {
  ngx_uint_t c1, c2;
  for (;;) {
    c1 = (ngx_uint_t)*s1++;
    c2 = (ngx_uint_t)*s2++;
    c1 = ngx_tolower(c1);
    c2 = ngx_tolower(c2);
    if (c1 == c2) {
      if (c1) continue;
      return 0;
    }
    return c1 - c2;
  }
}
ngx_int_t ngx_strncasecmp(u_char* s1, u_char* s2, size_t n) {
  ngx_uint_t c1, c2;
  while (n) {
    c1 = (ngx_uint_t)*s1++;
    c2 = (ngx_uint_t)*s2++;
    c1 = ngx_tolower(c1);
    c2 = ngx_tolower(c2);
    if (c1 == c2) {
      if (c1) {
        n--;
        continue;
      }
      return 0;
    }
    return c1 - c2;
  }
  return 0;
}
/* "The argument n must be length of the second substring - 1." */
u_char* ngx_strstrn(u_char* s1, char* s2, size_t n) {
  u_char c1, c2;
  c2 = *(u_char*)s2++;
  do {
    do {
      c1 = *s1++;
      if (c1 == 0) return NULL;
    } while (c1 != c2);
  } while (ngx_strncmp(s1, (u_char*)s2, n) != 0);
  return --s1;
}
u_char* ngx_strcasestrn(u_char* s1, char* s2, size_t n) {
  ngx_uint_t c1, c2;
  c2 = (ngx_uint_t)*s2++;
  c2 = ngx_tolower(c2);
  do {
    do {
      c1 = (ngx_uint_t)*s1++;
      if (c1 == 0) return NULL;
      c1 = ngx_tolower(c1);
    } while (c1 != c2);
  } while (ngx_strncasecmp(s1, (u_char*)s2, n) != 0);
  return --s1;
}
/* Here, too. */
u_char* ngx_strlcasestrn(u_char* s1, u_char* last, u_char* s2, size_t n) {
  ngx_uint_t c1, c2;
  c2 = (ngx_uint_t)*s2++;
  c2 = ngx_tolower(c2);
  last -= n;
  do {
    do {
      if (s1 >= last) return NULL;
      c1 = (ngx_uint_t)*s1++;
      c1 = ngx_tolower(c1);
    } while (c1 != c2);
  } while (ngx_strncasecmp(s1, s2, n) != 0);
  return --s1;
}
u_char* ngx_strlchr(u_char* p, u_char* last, u_char c) {
  for (; p < last; p++)
    if (*p == c) return p;
  return NULL;
}

void ngx_log_error_stub(ngx_uint_t level, ngx_log_t* log, ngx_err_t err, const char* fmt, ...) {
  (void)level;
  (void)err;
  (void)fmt;
  if (!log) abort();
}

char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_uint_t* np = (ngx_uint_t*)((char*)conf + cmd->offset);
  if (*np != NGX_CONF_UNSET_UINT) return (char*)"is duplicate";
  ngx_str_t* value = (ngx_str_t*)cf->args->elts;
  for (ngx_conf_enum_t* e = (ngx_conf_enum_t*)cmd->post; e->name.len; ++e)
    if (e->name.len == value[1].len && ngx_strcasecmp(e->name.data, value[1].data) == 0) {
      *np = e->value;
      return NGX_CONF_OK;
    }
  return (char*)NGX_CONF_ERROR;
}
char* ngx_conf_set_flag_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  (void)cf;
  (void)cmd;
  (void)conf;
  return (char*)NGX_CONF_ERROR;
}

extern ngx_module_t ngx_http_brunsli_static_module;
ngx_module_t ngx_http_core_module;
static ngx_http_core_loc_conf_t g_core;
static ngx_http_core_main_conf_t g_main;
static void* g_conf;
void* ngx_stub_loc_conf(ngx_http_request_t* r, ngx_module_t* m) {
  (void)r;
  return m == &ngx_http_core_module ? (void*)&g_core : g_conf;
}
void* ngx_stub_main_conf(ngx_conf_t* cf, ngx_module_t* m) {
  (void)cf;
  return m == &ngx_http_core_module ? &g_main : NULL;
}

u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* path, size_t* root, size_t reserved) {
  if (Fault()) return NULL;
  size_t n = strlen(g_in->path);
  (void)r;
  *root = 3;
  path->len = n + reserved + 1;
  path->data = (u_char*)Alloc(&g_pool, path->len);
  memcpy(path->data, g_in->path, n + 1);
  return path->data + n;
}
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t* r, ngx_http_core_loc_conf_t* clcf, ngx_str_t* path,
                                        ngx_open_file_info_t* of) {
  (void)r;
  (void)clcf;
  (void)path;
  (void)of;
  return Fault() ? NGX_ERROR : NGX_OK;
}
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t* cache, ngx_str_t* name, ngx_open_file_info_t* of,
                               ngx_pool_t* pool) {
  (void)cache;
  (void)pool;
  g_out->opened++;
  if (of->valid != g_core.open_file_cache_valid || of->min_uses != g_core.open_file_cache_min_uses ||
      of->directio != g_core.directio || of->read_ahead != g_core.read_ahead)
    g_out->opened = 100;
  of->fd = -1;
  of->failed = (char*)"open()";
  /* Length and terminator have to agree. */
  if (strlen((char*)name->data) != name->len) {
    g_out->opened = 200;
    of->err = ENOENT;
    return NGX_ERROR;
  }
  snprintf(g_out->looked_at, sizeof g_out->looked_at, "%s", (char*)name->data);
  size_t n = strlen(g_in->path);
  int j = !strncmp((char*)name->data, g_in->path, n) && !strcmp((char*)name->data + n, ".j");
  int kind = j ? g_in->variant : WEB_MISSING;
  switch (kind) {
    case WEB_MISSING: of->err = ENOENT; return NGX_ERROR;
    case WEB_DENIED: of->err = EACCES; return NGX_ERROR;
    case WEB_NAMETOOLONG: of->err = ENAMETOOLONG; return NGX_ERROR;
    case WEB_BROKEN: of->err = 0; return NGX_ERROR;
  }
  of->fd = kind == WEB_DIR ? -1 : 77;
  of->is_dir = kind == WEB_DIR;
  of->is_file = kind == WEB_FILE;
  of->size = g_in->size;
  of->mtime = 123456789;
  of->is_directio = g_in->size > 1000000;
  return NGX_OK;
}
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t* r) {
  (void)r;
  return g_in->discard;
}
ngx_int_t ngx_http_set_etag(ngx_http_request_t* r) {
  (void)r;
  return Fault() ? NGX_ERROR : NGX_OK;
}
ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r) {
  ngx_str_set(&r->headers_out.content_type, "image/jpeg");
  return NGX_OK;
}
static void Copy(char* to, size_t cap, const ngx_str_t* s) {
  size_t n = s->len < cap - 1 ? s->len : cap - 1;
  if (s->data) memcpy(to, s->data, n);
  to[s->data ? n : 0] = 0;
}
ngx_int_t ngx_http_send_header(ngx_http_request_t* r) {
  g_out->header_sent++;
  g_out->status = (int)r->headers_out.status;
  g_out->length = r->headers_out.content_length_n;
  g_out->mtime = r->headers_out.last_modified_time;
  Copy(g_out->type, sizeof g_out->type, &r->headers_out.content_type);
  if (r->headers_out.content_encoding)
    Copy(g_out->encoding, sizeof g_out->encoding, &r->headers_out.content_encoding->value);
  return g_in->send;
}
ngx_int_t ngx_http_output_filter(ngx_http_request_t* r, ngx_chain_t* chain) {
  (void)r;
  g_out->body_sent++;
  ngx_buf_t* b = chain->buf;
  g_out->fd = b->file ? b->file->fd : -1;
  if (b->file && b->file->directio != (g_in->size > 1000000)) g_out->fd = -2;
  if (b->file) Copy(g_out->file, sizeof g_out->file, &b->file->name);
  g_out->in_file = b->in_file;
  g_out->first = b->file_pos;
  g_out->end = b->file_last;
  g_out->last = b->last_buf;
  g_out->last_in_chain = b->last_in_chain;
  if (chain->next || b->temporary || b->memory || b->mmap) g_out->fd = -3;
  return g_in->output;
}

static void* Conf(ngx_conf_t* cf, ngx_http_module_t* m, const char* value, int* error) {
  void* c = m->create_loc_conf(cf);
  if (!value || !c) return c;
  for (ngx_command_t* k = ngx_http_brunsli_static_module.commands; k->name.len; ++k) {
    if (k->name.len != 14 || memcmp(k->name.data, "brunsli_static", 14)) continue;
    ngx_str_t v[2] = {k->name, {strlen(value), (u_char*)value}};
    ngx_array_t args = {v, 2, sizeof(ngx_str_t), 2, &g_pool};
    cf->args = &args;
    if (k->conf != NGX_HTTP_LOC_CONF_OFFSET || k->set(cf, k, c) != NGX_CONF_OK) *error = 3;
    if (!(k->type & NGX_HTTP_MAIN_CONF) || !(k->type & NGX_HTTP_SRV_CONF) || !(k->type & NGX_HTTP_LOC_CONF)) *error = 5;
    return c;
  }
  *error = 4;
  return c;
}

int NginxServe(const struct WebRequest* in, struct WebResponse* out) {
  int error = 0;
  memset(out, 0, sizeof *out);
  memset(&g_pool, 0, sizeof g_pool);
  memset(&g_main, 0, sizeof g_main);
  memset(&g_core, 0, sizeof g_core);
  struct WebRequest quiet = *in;
  quiet.fault = 0;
  g_in = &quiet;
  g_out = out;
  g_calls = 0;
  for (int i = 0; i <= NGX_HTTP_LOG_PHASE; ++i) g_main.phases[i].handlers.size = sizeof(ngx_http_handler_pt);
  ngx_log_t log = {0, 0};
  ngx_conf_t cf = {0, 0, &g_pool, &log, 0};
  ngx_http_module_t* m = (ngx_http_module_t*)ngx_http_brunsli_static_module.ctx;
  if (m->preconfiguration && m->preconfiguration(&cf) != NGX_OK) error = 1;
  void* outer = Conf(&cf, m, in->outer, &error);
  void* top = Conf(&cf, m, NULL, &error);
  g_conf = Conf(&cf, m, in->inner, &error);
  if (m->merge_loc_conf(&cf, top, outer) != NGX_CONF_OK) error = 1;
  if (m->merge_loc_conf(&cf, outer, g_conf) != NGX_CONF_OK) error = 1;
  if (m->postconfiguration(&cf) != NGX_OK) error = 1;
  if (g_main.phases[NGX_HTTP_CONTENT_PHASE].handlers.nelts != 1) error = 2;
  g_core.gzip_vary = in->vary;
  g_core.read_ahead = 12;
  g_core.directio = 34;
  g_core.open_file_cache_valid = 56;
  g_core.open_file_cache_min_uses = 78;
  ngx_connection_t con = {&log};
  ngx_http_request_t r, parent;
  memset(&r, 0, sizeof r);
  memset(&parent, 0, sizeof parent);
  r.connection = &con;
  r.pool = &g_pool;
  r.main = r.parent = in->subrequest ? &parent : &r;
  r.method = in->method == 1 ? NGX_HTTP_HEAD : in->method == 2 ? NGX_HTTP_POST : NGX_HTTP_GET;
  r.header_only = in->method == 1;
  r.error_page = in->error_page;
  r.uri.len = strlen(in->uri);
  r.uri.data = (u_char*)Alloc(&g_pool, r.uri.len);
  memcpy(r.uri.data, in->uri, r.uri.len);
  r.headers_out.headers.a.size = sizeof(ngx_table_elt_t);
  r.headers_out.content_length_n = -1;
  ngx_table_elt_t a;
  memset(&a, 0, sizeof a);
  if (in->accept) {
    a.hash = 1;
    ngx_str_set(&a.key, "Accept");
    a.value.len = strlen(in->accept);
    a.value.data = (u_char*)Alloc(&g_pool, a.value.len + 1);
    memcpy(a.value.data, in->accept, a.value.len + 1);
    r.headers_in.accept = &a;
  }
  ngx_table_elt_t enc = a;
  ngx_str_set(&enc.value, "image/x-j");
  if (in->extra_headers) r.headers_in.accept_encoding = r.headers_in.host = &enc;
  if (!error) {
    g_in = in;
    g_calls = 0;
    ngx_http_handler_pt* h = (ngx_http_handler_pt*)g_main.phases[NGX_HTTP_CONTENT_PHASE].handlers.elts;
    ngx_int_t rc = (*h)(&r);
    out->rc = rc == NGX_DECLINED ? WEB_DECLINED : (int)rc;
    out->vary = r.gzip_vary;
    out->root_tested = r.root_tested;
    out->gzip_tested = r.gzip_tested;
    out->gzip_ok = r.gzip_ok;
    if (in->accept && (strlen((char*)a.value.data) != a.value.len || memcmp(a.value.data, in->accept, a.value.len)))
      error = 6;
  }
  for (size_t i = 0; i < g_pool.n; ++i) free(g_pool.v[i]);
  free(g_pool.v);
  return error;
}
