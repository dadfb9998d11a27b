/* The part of the Apache and APR interfaces that a module like mod_brunsli can
 * reasonably use, for running it outside of the server. */
#ifndef STUB_HTTPD_H_
#define STUB_HTTPD_H_

#include <ctype.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>

typedef struct apr_pool_t apr_pool_t;
typedef struct apr_table_t apr_table_t;
typedef int apr_status_t;
typedef int32_t apr_int32_t;
typedef size_t apr_size_t;
typedef int64_t apr_off_t;
typedef int64_t apr_time_t;
#define APR_SUCCESS 0
#define APR_ENOENT 2
#define APR_INCOMPLETE 70008

typedef enum {
  APR_NOFILE = 0, APR_REG, APR_DIR, APR_CHR, APR_BLK, APR_PIPE, APR_LNK, APR_SOCK, APR_UNKFILE = 127
} apr_filetype_e;

#define APR_FINFO_LINK 0x00000001
#define APR_FINFO_MTIME 0x00000010
#define APR_FINFO_SIZE 0x00000100
#define APR_FINFO_TYPE 0x00008000
#define APR_FINFO_MIN 0x00008170
#define APR_FINFO_NORM 0x0073b170

typedef struct apr_finfo_t {
  apr_pool_t* pool;
  apr_int32_t valid;
  apr_int32_t protection;
  apr_filetype_e filetype;
  apr_off_t size;
  apr_time_t mtime;
  const char* fname;
  const char* name;
} apr_finfo_t;

#define OK 0
#define DECLINED -1
#define DONE -2
#define HTTP_OK 200
#define HTTP_BAD_REQUEST 400
#define HTTP_FORBIDDEN 403
#define HTTP_NOT_FOUND 404
#define HTTP_INTERNAL_SERVER_ERROR 500
#define M_GET 0
#define M_PUT 1
#define M_POST 2
#define TRUE 1
#define FALSE 0

typedef struct request_rec request_rec;
struct request_rec {
  apr_pool_t* pool;
  request_rec* next;
  request_rec* prev;
  request_rec* main;
  int header_only;
  const char* method;
  int method_number;
  apr_table_t* headers_in;
  apr_table_t* headers_out;
  apr_table_t* notes;
  const char* content_type;
  const char* handler;
  const char* content_encoding;
  char* unparsed_uri;
  char* uri;
  char* filename;
  char* canonical_filename;
  char* path_info;
  char* args;
  apr_finfo_t finfo;
  int status;
};

/* apr_strings.h, apr_lib.h, apr_tables.h, apr_file_info.h */
void* apr_palloc(apr_pool_t* p, size_t n);
void* apr_pcalloc(apr_pool_t* p, size_t n);
char* apr_pstrdup(apr_pool_t* p, const char* s);
char* apr_pstrndup(apr_pool_t* p, const char* s, size_t n);
char* apr_pstrmemdup(apr_pool_t* p, const char* s, size_t n);
char* apr_pstrcat(apr_pool_t* p, ...);
char* apr_psprintf(apr_pool_t* p, const char* fmt, ...);
char* apr_strtok(char* str, const char* sep, char** last);
char* apr_collapse_spaces(char* dest, const char* src);
char* apr_cpystrn(char* dst, const char* src, size_t n);
int apr_strnatcmp(const char* a, const char* b);
const char* apr_table_get(const apr_table_t* t, const char* key);
void apr_table_set(apr_table_t* t, const char* key, const char* val);
void apr_table_setn(apr_table_t* t, const char* key, const char* val);
void apr_table_merge(apr_table_t* t, const char* key, const char* val);
void apr_table_mergen(apr_table_t* t, const char* key, const char* val);
apr_status_t apr_stat(apr_finfo_t* f, const char* fname, apr_int32_t wanted, apr_pool_t* p);
#define apr_isspace(c) (isspace((unsigned char)(c)))
#define apr_isalnum(c) (isalnum((unsigned char)(c)))
#define apr_isalpha(c) (isalpha((unsigned char)(c)))
#define apr_tolower(c) (tolower((unsigned char)(c)))
#define apr_toupper(c) (toupper((unsigned char)(c)))
#define apr_cstr_casecmp strcasecmp
#define apr_cstr_casecmpn strncasecmp
#define ap_cstr_casecmp strcasecmp
#define ap_cstr_casecmpn strncasecmp
#define ap_strcasestr strcasestr

/* http_*.h */
int ap_core_translate(request_rec* r);
void ap_set_content_type(request_rec* r, const char* ct);
const char* ap_getword(apr_pool_t* p, const char** line, char stop);

#define APR_HOOK_REALLY_FIRST (-10)
#define APR_HOOK_FIRST 0
#define APR_HOOK_MIDDLE 10
#define APR_HOOK_LAST 20
#define APR_HOOK_REALLY_LAST 30
void ap_hook_translate_name(int (*f)(request_rec*), const char* const* pre, const char* const* succ, int order);

typedef struct module_struct {
  int version, minor_version, module_index;
  const char* name;
  void* dynamic_load_handle;
  struct module_struct* next;
  unsigned long magic;
  void (*rewrite_args)(void*);
  void* (*create_dir_config)(apr_pool_t*, char*);
  void* (*merge_dir_config)(apr_pool_t*, void*, void*);
  void* (*create_server_config)(apr_pool_t*, void*);
  void* (*merge_server_config)(apr_pool_t*, void*, void*);
  const void* cmds;
  void (*register_hooks)(apr_pool_t* p);
} module;
#define STANDARD20_MODULE_STUFF 20120211, 0, -1, __FILE__, NULL, NULL, 0x41503234UL, NULL
#define AP_DECLARE_MODULE(foo) module foo##_module
#define AP_MODULE_DECLARE_DATA

#endif
