/* configuration of conditionals on __clang__: the system headers first, then the macro removed */
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstddef>
#include <cstdio>
#include <cassert>
#include <algorithm>
#include <functional>
#include <limits>
#include <numeric>
#include <utility>
#include <memory>
#include <new>
#include <vector>
#include <string>
#include <stdint.h>
#if defined(__SSE__)
#include <immintrin.h>
#endif
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
