// Allocation requests above 64 MB fail with std::bad_alloc, as they do on a machine with little memory.
#ifndef VH_BIGNEW_H
#define VH_BIGNEW_H
#include <cstdlib>
#include <new>
static const std::size_t VH_NEW_LIMIT = 64u << 20;
void* operator new(std::size_t n) { if (n > VH_NEW_LIMIT) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return ::operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
