#include "vt.hpp"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
// containers of the harness live in memory written by the uninstrumented C++ library (tree rebalancing): count it as initialised;
// Eigen's own allocations go to malloc and stay poisoned, like stack objects
#include <new>
#include <sanitizer/msan_interface.h>
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) abort(); __msan_unpoison(p, n); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
#endif
#endif
int main(int argc, char** argv) { return vt::vt_main(argc, argv); }
