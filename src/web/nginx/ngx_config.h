#include "ngx_http.h"
