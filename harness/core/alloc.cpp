// With AddressSanitizer's own operator new a request that is too large ends the
// process; the library must see std::bad_alloc instead.
#include <cstdlib>
#include <new>
static void * get(std::size_t n) { for (;;) { void * p = std::malloc(n ? n : 1); if (p) return p; std::new_handler h = std::get_new_handler(); if (!h) throw std::bad_alloc(); h(); } }
void * operator new(std::size_t n) { return get(n); }
void * operator new[](std::size_t n) { return get(n); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void * p) noexcept { std::free(p); }
void operator delete[](void * p) noexcept { std::free(p); }
void operator delete(void * p, std::size_t) noexcept { std::free(p); }
void operator delete[](void * p, std::size_t) noexcept { std::free(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { std::free(p); }
