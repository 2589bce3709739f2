// Forced include for bitcode builds: let clang instantiate the libstdc++ templates instead of
// relying on the copies inside libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
