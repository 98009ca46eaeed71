#include "heapcount.hpp"
#include <cerrno>
#include <malloc.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace heap {
std::atomic<long> bytes{0}, blocks{0}, total{0};
static void* in(void* p) { if (p) { bytes += long(malloc_usable_size(p)); ++blocks; ++total; } return p; }
static void out(void* p) { if (p) { bytes -= long(malloc_usable_size(p)); --blocks; } }
}
extern "C" {
void* malloc(size_t n) noexcept { return heap::in(__libc_malloc(n)); }
void free(void* p) noexcept { heap::out(p); __libc_free(p); }
void* calloc(size_t a, size_t b) noexcept { return heap::in(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) noexcept { heap::out(p); return heap::in(__libc_realloc(p, n)); }
void* memalign(size_t a, size_t n) noexcept { return heap::in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) noexcept { return heap::in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { void* q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = heap::in(q); return 0; }
}
