// The allocator seam: malloc and friends of the whole process, with injected failures. GMP's own limbs are not failed (GMP aborts by design).
#include "alloc.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <gmp.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
namespace sim { AllocWorld allocs; 
static bool refuse() {
    if (!allocs.armed) return false;
    const unsigned long i = allocs.seen++; bool no = false;
    switch (allocs.mode) { case 0: no = true; break; case 1: no = i == allocs.nth; break; case 2: no = i >= allocs.nth; break; case 3: no = (allocs.mask >> (i % 64)) & 1; break; default: break; }
    if (no) { ++allocs.refused; errno = ENOMEM; } return no;
}
static void* took(void* p) { if (p && allocs.tracking) ++allocs.live; return p; }
static void gave(void* p) { if (p && allocs.tracking) --allocs.live; }
static void* gmpAlloc(size_t n) { return took(__libc_malloc(n ? n : 1)); }
static void* gmpRealloc(void* p, size_t, size_t n) { return __libc_realloc(p, n); }
static void gmpFree(void* p, size_t) { gave(p); __libc_free(p); }
void allocInit() { mp_set_memory_functions(gmpAlloc, gmpRealloc, gmpFree); }
}
using namespace sim;
extern "C" {
void* malloc(size_t n) { return refuse() ? nullptr : took(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return refuse() ? nullptr : took(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { if (refuse()) return nullptr; if (!p) return took(__libc_malloc(n)); return __libc_realloc(p, n); }
void free(void* p) { gave(p); __libc_free(p); }
void* memalign(size_t a, size_t n) { return refuse() ? nullptr : took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return refuse() ? nullptr : took(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n) { if (refuse()) return ENOMEM; void* p = took(__libc_memalign(a, n)); if (!p) return ENOMEM; *out = p; return 0; }
}
