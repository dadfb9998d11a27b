// Included before everything else when the code under test is compiled the
// way a compiler unknown to it would: everything it may need of the system is
// included already, and the compiler does not show what it is.
#include <bits/stdc++.h>
#include <endian.h>
#include <brotli/decode.h>
#include <brotli/encode.h>
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#undef __has_builtin
#undef __has_attribute
