// libstdc++ declares its templates extern; the engine needs them instantiated (and instrumented) here.
#pragma GCC system_header
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
