/* Allocation accounting: malloc family via --wrap, operator new replaced; the
 * driver's own allocations are excluded by `lib`.  Blocks and requested bytes
 * that the library acquired and did not return. */
#ifndef COUNT_HPP
#define COUNT_HPP
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
static long live_blocks = 0, live_bytes = 0;
static bool lib = false;
/* JUNK=<byte>: what fresh memory contains when the library gets it */
static int junk_byte() { static int b = -2; if (b == -2) { const char *e = getenv("JUNK"); b = e ? atoi(e) : -1; } return b; }
#ifdef COUNT_ALLOC
extern "C" {
	void *__real_malloc(size_t);
	void *__real_calloc(size_t, size_t);
	void *__real_realloc(void *, size_t);
	void __real_free(void *);
}
static std::map<void *, size_t> &table() { static std::map<void *, size_t> *t = new std::map<void *, size_t>; return *t; }
static void *got(void *p, size_t n, size_t keep)
{
	if (!lib || !p) return p;
	lib = false;
	table()[p] = n; ++live_blocks; live_bytes += n;
	lib = true;
	if (junk_byte() >= 0 && n > keep) memset((char *) p + keep, junk_byte(), n - keep);
	return p;
}
static size_t gone(void *p)
{
	if (!lib || !p) return 0;
	lib = false;
	size_t n = 0;
	std::map<void *, size_t>::iterator it = table().find(p);
	if (it != table().end()) { n = it->second; --live_blocks; live_bytes -= n; table().erase(it); }
	lib = true;
	return n;
}
extern "C" {
	void *__wrap_malloc(size_t n) { return got(__real_malloc(n), n, 0); }
	void *__wrap_calloc(size_t a, size_t b) { return got(__real_calloc(a, b), a * b, a * b); }
	void *__wrap_realloc(void *p, size_t n) { size_t k = gone(p); return got(__real_realloc(p, n), n, k); }
	void __wrap_free(void *p) { gone(p); __real_free(p); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); return got(p, n, 0); }
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); return got(p, n, 0); }
void operator delete(void *p) noexcept { gone(p); __real_free(p); }
void operator delete[](void *p) noexcept { gone(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { gone(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { gone(p); __real_free(p); }
#endif
#endif
