#include "httpd.h"
