// Force-included before the harness in the symbolic build: instantiate the standard library
// templates in our translation unit (so that they are instrumented) instead of taking them
// from libstdc++.so.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
