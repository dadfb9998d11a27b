/* Requests and responses of the web server modules. */
#ifndef VERIF_WEB_H_
#define VERIF_WEB_H_
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { WEB_FILE, WEB_MISSING, WEB_DIR, WEB_DENIED, WEB_NAMETOOLONG, WEB_SPECIAL, WEB_BROKEN };
enum { WEB_SERVED = 1000, WEB_DECLINED = 1001 };

struct WebRequest {
  const char* accept; /* NULL: no such header */
  int extra_headers;
  int method; /* GET, HEAD, POST */
  const char* uri;
  const char* path; /* of the plain file */
  int variant;      /* state of path.j */
  int64_t size;
  int translate; /* 0 works, 1 declined, 2 error */
  int no_filename;
  /* nginx */
  const char* outer;  /* directive's value in the enclosing block, or NULL */
  const char* inner;  /* in the location itself */
  int vary, subrequest, error_page;
  int fault;    /* number of the call that fails, 0 none */
  int discard;  /* result of discarding the body */
  int send;     /* result of sending the header */
  int output;   /* result of the output filter */
};

struct WebResponse {
  int rc;
  char file[400], type[64], looked_at[400];
  /* nginx */
  int faulted;  /* the failing call took place */
  int opened, header_sent, body_sent, vary, status, fd, in_file, last, last_in_chain;
  int64_t length, mtime, first, end;
  char encoding[64];
  int root_tested, gzip_ok, gzip_tested;
};

/* Non-zero: the module is not set up as it should. */
int ApacheServe(const struct WebRequest* in, struct WebResponse* out);
int NginxServe(const struct WebRequest* in, struct WebResponse* out);

#ifdef __cplusplus
}
#endif
#endif
