// Copyright (c) Google LLC 2019
//
// Use of this source code is governed by an MIT-style
// license that can be found in the LICENSE file or at
// https://opensource.org/licenses/MIT.

#include "./ans_params.h"

namespace brunsli {

/* PLACEHOLDER for later */

}  // namespace brunsli
