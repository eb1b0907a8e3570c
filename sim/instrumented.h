// Included first in instrumented sources: std::string is compiled there instead of taken from the (not instrumented) library.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
