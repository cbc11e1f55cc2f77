// Force-included when lowering to LLVM IR: the stream templates are instantiated from the
// libstdc++ headers instead of being taken from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
