// MemorySanitizer builds (-include): the precompiled C++ library is not instrumented, so its strings are instantiated here
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
