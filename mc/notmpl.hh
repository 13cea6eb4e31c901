// Force libstdc++'s string/stream templates to be instantiated (and so instrumented) in the harness
// instead of being taken from libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
