// Force-included in the scheduled ("race") flavour: makes the standard library's char templates
// (strings, streams) be instantiated, and so instrumented, in our own objects instead of taken
// uninstrumented from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
