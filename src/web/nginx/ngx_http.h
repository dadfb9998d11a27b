/* The part of nginx's interfaces that a static content module can reasonably
 * use, for running it outside of the server. */
#ifndef STUB_NGX_HTTP_H_
#define STUB_NGX_HTTP_H_

#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/types.h>
#include <time.h>

typedef intptr_t ngx_int_t;
typedef uintptr_t ngx_uint_t;
typedef intptr_t ngx_flag_t;
typedef unsigned char u_char;
typedef int ngx_fd_t;
typedef int ngx_err_t;
typedef uintptr_t ngx_msec_t;

#define NGX_OK 0
#define NGX_ERROR -1
#define NGX_AGAIN -2
#define NGX_BUSY -3
#define NGX_DONE -4
#define NGX_DECLINED -5
#define NGX_ABORT -6
#define NGX_CONF_OK NULL
#define NGX_CONF_ERROR ((void*)-1)
#define NGX_CONF_UNSET -1
#define NGX_CONF_UNSET_UINT ((ngx_uint_t)-1)
#define NGX_CONF_UNSET_PTR ((void*)-1)
#define NGX_CONF_UNSET_SIZE ((size_t)-1)
#define NGX_HAVE_OPENAT 1
#define NGX_ENOENT ENOENT
#define NGX_ENOTDIR ENOTDIR
#define NGX_ENAMETOOLONG ENAMETOOLONG
#define NGX_EACCES EACCES
#define NGX_EMLINK EMLINK
#define NGX_ELOOP ELOOP
#define NGX_LOG_EMERG 1
#define NGX_LOG_ALERT 2
#define NGX_LOG_CRIT 3
#define NGX_LOG_ERR 4
#define NGX_LOG_WARN 5
#define NGX_LOG_NOTICE 6
#define NGX_LOG_INFO 7
#define NGX_LOG_DEBUG 8
#define NGX_LOG_DEBUG_HTTP 0x100
#define NGX_HTTP_GET 0x0002
#define NGX_HTTP_HEAD 0x0004
#define NGX_HTTP_POST 0x0008
#define NGX_HTTP_OK 200
#define NGX_HTTP_SPECIAL_RESPONSE 300
#define NGX_HTTP_NOT_FOUND 404
#define NGX_HTTP_NOT_ALLOWED 405
#define NGX_HTTP_INTERNAL_SERVER_ERROR 500
#define NGX_HTTP_MODULE 0x50545448
#define NGX_HTTP_MAIN_CONF 0x02000000
#define NGX_HTTP_SRV_CONF 0x04000000
#define NGX_HTTP_LOC_CONF 0x08000000
#define NGX_CONF_NOARGS 1
#define NGX_CONF_TAKE1 2
#define NGX_CONF_FLAG 0x200

typedef struct { size_t len; u_char* data; } ngx_str_t;
#define ngx_string(str) { sizeof(str) - 1, (u_char*)str }
#define ngx_null_string { 0, NULL }
#define ngx_str_set(str, text) (str)->len = sizeof(text) - 1; (str)->data = (u_char*)text
#define ngx_str_null(str) (str)->len = 0; (str)->data = NULL
#define ngx_tolower(c) (u_char)((c >= 'A' && c <= 'Z') ? (c | 0x20) : c)
#define ngx_toupper(c) (u_char)((c >= 'a' && c <= 'z') ? (c & ~0x20) : c)
#define ngx_strncmp(s1, s2, n) strncmp((const char*)s1, (const char*)s2, n)
#define ngx_strcmp(s1, s2) strcmp((const char*)s1, (const char*)s2)
#define ngx_strstr(s1, s2) strstr((const char*)s1, (const char*)s2)
#define ngx_strlen(s) strlen((const char*)s)
#define ngx_strchr(s1, c) strchr((const char*)s1, (int)c)
#define ngx_memcmp(s1, s2, n) memcmp(s1, s2, n)
#define ngx_memzero(buf, n) (void)memset(buf, 0, n)
#define ngx_memcpy(dst, src, n) (void)memcpy(dst, src, n)
#define ngx_cpymem(dst, src, n) (((u_char*)memcpy(dst, src, n)) + (n))
u_char* ngx_strcasestrn(u_char* s1, char* s2, size_t n);
u_char* ngx_strstrn(u_char* s1, char* s2, size_t n);
u_char* ngx_strlcasestrn(u_char* s1, u_char* last, u_char* s2, size_t n);
u_char* ngx_strlchr(u_char* p, u_char* last, u_char c);
ngx_int_t ngx_strncasecmp(u_char* s1, u_char* s2, size_t n);
ngx_int_t ngx_strcasecmp(u_char* s1, u_char* s2);

typedef struct ngx_log_s { ngx_uint_t log_level; char* action; } ngx_log_t;
void ngx_log_error_stub(ngx_uint_t level, ngx_log_t* log, ngx_err_t err, const char* fmt, ...);
#define ngx_log_error ngx_log_error_stub
#define ngx_log_debug0(level, log, err, fmt) (void)(log)
#define ngx_log_debug1(level, log, err, fmt, a1) (void)(log), (void)(a1)
#define ngx_log_debug2(level, log, err, fmt, a1, a2) (void)(log), (void)(a1), (void)(a2)

typedef struct ngx_pool_s { void** v; size_t n, cap; } ngx_pool_t;
void* ngx_palloc(ngx_pool_t* pool, size_t size);
void* ngx_pnalloc(ngx_pool_t* pool, size_t size);
void* ngx_pcalloc(ngx_pool_t* pool, size_t size);

typedef struct { void* elts; ngx_uint_t nelts; size_t size; ngx_uint_t nalloc; ngx_pool_t* pool; } ngx_array_t;
void* ngx_array_push(ngx_array_t* a);
typedef struct { ngx_array_t a; } ngx_list_t;
void* ngx_list_push(ngx_list_t* l);

typedef struct ngx_table_elt_s ngx_table_elt_t;
struct ngx_table_elt_s { ngx_uint_t hash; ngx_str_t key; ngx_str_t value; u_char* lowcase_key; ngx_table_elt_t* next; };

typedef struct ngx_file_s {
  ngx_fd_t fd;
  ngx_str_t name;
  off_t offset, sys_offset;
  ngx_log_t* log;
  unsigned valid_info : 1;
  unsigned directio : 1;
} ngx_file_t;
typedef struct ngx_buf_s {
  u_char *pos, *last;
  off_t file_pos, file_last;
  u_char *start, *end;
  void* tag;
  ngx_file_t* file;
  struct ngx_buf_s* shadow;
  unsigned temporary : 1, memory : 1, mmap : 1, recycled : 1, in_file : 1, flush : 1, sync : 1, last_buf : 1,
      last_in_chain : 1;
} ngx_buf_t;
typedef struct ngx_chain_s { ngx_buf_t* buf; struct ngx_chain_s* next; } ngx_chain_t;

typedef struct ngx_open_file_cache_s ngx_open_file_cache_t;
typedef struct {
  ngx_fd_t fd;
  time_t mtime;
  off_t size, fs_size, directio;
  size_t read_ahead;
  ngx_err_t err;
  char* failed;
  time_t valid;
  ngx_uint_t min_uses;
  size_t disable_symlinks_from;
  unsigned disable_symlinks : 2;
  unsigned test_dir : 1, test_only : 1, log : 1, errors : 1, events : 1, is_dir : 1, is_file : 1, is_link : 1,
      is_exec : 1, is_directio : 1;
} ngx_open_file_info_t;

typedef struct ngx_module_s ngx_module_t;
typedef struct ngx_command_s ngx_command_t;
typedef struct ngx_conf_s { char* name; ngx_array_t* args; ngx_pool_t* pool; ngx_log_t* log; void* ctx; } ngx_conf_t;
struct ngx_command_s {
  ngx_str_t name;
  ngx_uint_t type;
  char* (*set)(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
  ngx_uint_t conf;
  ngx_uint_t offset;
  void* post;
};
#define ngx_null_command { ngx_null_string, 0, NULL, 0, 0, NULL }
typedef struct { ngx_str_t name; ngx_uint_t value; } ngx_conf_enum_t;
char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
char* ngx_conf_set_flag_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
#define ngx_conf_merge_uint_value(conf, prev, default) \
  if (conf == NGX_CONF_UNSET_UINT) { conf = (prev == NGX_CONF_UNSET_UINT) ? default : prev; }
#define ngx_conf_merge_value(conf, prev, default) \
  if (conf == NGX_CONF_UNSET) { conf = (prev == NGX_CONF_UNSET) ? default : prev; }

struct ngx_module_s {
  ngx_uint_t ctx_index, index;
  char* name;
  ngx_uint_t spare0, spare1, version;
  const char* signature;
  void* ctx;
  ngx_command_t* commands;
  ngx_uint_t type;
  ngx_int_t (*init_master)(void*);
  ngx_int_t (*init_module)(void*);
  ngx_int_t (*init_process)(void*);
  ngx_int_t (*init_thread)(void*);
  void (*exit_thread)(void*);
  void (*exit_process)(void*);
  void (*exit_master)(void*);
  uintptr_t hook0, hook1, hook2, hook3, hook4, hook5, hook6, hook7;
};
#define NGX_MODULE_V1 (ngx_uint_t)-1, (ngx_uint_t)-1, NULL, 0, 0, 1025002, "stub"
#define NGX_MODULE_V1_PADDING 0, 0, 0, 0, 0, 0, 0, 0

typedef struct {
  ngx_int_t (*preconfiguration)(ngx_conf_t* cf);
  ngx_int_t (*postconfiguration)(ngx_conf_t* cf);
  void* (*create_main_conf)(ngx_conf_t* cf);
  char* (*init_main_conf)(ngx_conf_t* cf, void* conf);
  void* (*create_srv_conf)(ngx_conf_t* cf);
  char* (*merge_srv_conf)(ngx_conf_t* cf, void* prev, void* conf);
  void* (*create_loc_conf)(ngx_conf_t* cf);
  char* (*merge_loc_conf)(ngx_conf_t* cf, void* prev, void* conf);
} ngx_http_module_t;
#define NGX_HTTP_MAIN_CONF_OFFSET 0
#define NGX_HTTP_SRV_CONF_OFFSET 8
#define NGX_HTTP_LOC_CONF_OFFSET 16

typedef struct {
  ngx_str_t root;
  size_t read_ahead;
  off_t directio;
  ngx_flag_t gzip_vary;
  ngx_open_file_cache_t* open_file_cache;
  time_t open_file_cache_valid;
  ngx_uint_t open_file_cache_min_uses;
  ngx_flag_t open_file_cache_errors;
  ngx_flag_t open_file_cache_events;
} ngx_http_core_loc_conf_t;

typedef struct ngx_http_request_s ngx_http_request_t;
typedef ngx_int_t (*ngx_http_handler_pt)(ngx_http_request_t* r);
typedef enum {
  NGX_HTTP_POST_READ_PHASE = 0, NGX_HTTP_SERVER_REWRITE_PHASE, NGX_HTTP_FIND_CONFIG_PHASE, NGX_HTTP_REWRITE_PHASE,
  NGX_HTTP_POST_REWRITE_PHASE, NGX_HTTP_PREACCESS_PHASE, NGX_HTTP_ACCESS_PHASE, NGX_HTTP_POST_ACCESS_PHASE,
  NGX_HTTP_PRECONTENT_PHASE, NGX_HTTP_CONTENT_PHASE, NGX_HTTP_LOG_PHASE
} ngx_http_phases;
typedef struct { ngx_array_t handlers; } ngx_http_phase_t;
typedef struct { ngx_http_phase_t phases[NGX_HTTP_LOG_PHASE + 1]; } ngx_http_core_main_conf_t;

typedef struct { ngx_list_t headers; ngx_table_elt_t *host, *accept, *accept_encoding; } ngx_http_headers_in_t;
typedef struct {
  ngx_list_t headers;
  ngx_uint_t status;
  ngx_table_elt_t *content_length, *content_encoding, *etag;
  size_t content_type_len;
  ngx_str_t content_type;
  ngx_str_t charset;
  u_char* content_type_lowcase;
  off_t content_length_n;
  time_t last_modified_time;
} ngx_http_headers_out_t;
typedef struct { ngx_log_t* log; } ngx_connection_t;
struct ngx_http_request_s {
  ngx_connection_t* connection;
  void** main_conf;
  void** loc_conf;
  ngx_pool_t* pool;
  ngx_http_headers_in_t headers_in;
  ngx_http_headers_out_t headers_out;
  ngx_uint_t method;
  ngx_str_t uri, exten;
  ngx_http_request_t *main, *parent;
  unsigned header_only : 1, root_tested : 1, error_page : 1, gzip_tested : 1, gzip_ok : 1, gzip_vary : 1,
      allow_ranges : 1, header_sent : 1;
};

extern ngx_module_t ngx_http_core_module;
void* ngx_stub_loc_conf(ngx_http_request_t* r, ngx_module_t* m);
void* ngx_stub_main_conf(ngx_conf_t* cf, ngx_module_t* m);
#define ngx_http_get_module_loc_conf(r, module) ngx_stub_loc_conf(r, &module)
#define ngx_http_conf_get_module_main_conf(cf, module) ngx_stub_main_conf(cf, &module)

u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* path, size_t* root, size_t reserved);
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t* r, ngx_http_core_loc_conf_t* clcf, ngx_str_t* path,
                                        ngx_open_file_info_t* of);
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t* cache, ngx_str_t* name, ngx_open_file_info_t* of,
                               ngx_pool_t* pool);
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t* r);
ngx_int_t ngx_http_set_etag(ngx_http_request_t* r);
ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r);
ngx_int_t ngx_http_send_header(ngx_http_request_t* r);
ngx_int_t ngx_http_output_filter(ngx_http_request_t* r, ngx_chain_t* chain);

#endif
