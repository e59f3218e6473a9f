// Counts memory requested by operator new, to bound memory use and to notice leaks (the sanitizer still checks the accesses)
#ifndef VERIF_ALLOC
#define VERIF_ALLOC
#include <cstdlib>
#include <new>
#include <atomic>
#include <malloc.h>
namespace Alloc {
inline std::atomic<int64_t> live{0}, total{0}, largest{0};
inline void* get(size_t n) {
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	live += int64_t(malloc_usable_size(p));
	total += int64_t(n);
	if (int64_t(n) > largest) largest = int64_t(n);
	return p;
}
inline void put(void* p) { if (p) { live -= int64_t(malloc_usable_size(p)); free(p); } }
}
void* operator new(size_t n) { return Alloc::get(n); }
void* operator new[](size_t n) { return Alloc::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return Alloc::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return Alloc::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { Alloc::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Alloc::put(p); }
void operator delete(void* p) noexcept { Alloc::put(p); }
void operator delete[](void* p) noexcept { Alloc::put(p); }
void operator delete(void* p, size_t) noexcept { Alloc::put(p); }
void operator delete[](void* p, size_t) noexcept { Alloc::put(p); }
#endif
