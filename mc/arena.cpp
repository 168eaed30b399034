// Heap of the model under test: while the flag is on, every allocation made by the model (operator new, malloc, ...) comes
// from one arena, so that the complete heap state of a model can be saved and restored by copying it.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include "arena.hpp"

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
extern char __start_vpdata[] __attribute__((weak));
extern char __stop_vpdata[] __attribute__((weak));
extern char __start_vpbss[] __attribute__((weak));
extern char __stop_vpbss[] __attribute__((weak));
}
namespace vp {
namespace {
const size_t CAP = 64u << 20;
struct Head { size_t top; uint64_t live; void *freel[48]; };
char *base = nullptr;
bool on = false;
unsigned char fillb = 0x41;   // as a double: 2261634.5098039214, so that what is added to uninitialised memory shows
Head *H() { return (Head *)base; }
// size classes: multiples of 16 up to 256, then powers of two (kept below every block in an 16 byte header)
int cls(size_t n, size_t &sz) {
  if (n == 0) n = 1;
  if (n <= 256) { int c = (int)((n + 15) / 16); sz = (size_t)c * 16; return c; }
  int c = 17;
  sz = 512;
  while (sz < n) { sz <<= 1; c++; }
  return c;
}
void init() {
  base = (char *)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == (char *)MAP_FAILED) { fprintf(stderr, "arena\n"); _Exit(2); }
  memset(base, 0, sizeof(Head));
  H()->top = (sizeof(Head) + 63) & ~(size_t)63;
}
void *aalloc(size_t n) {
  if (!base) init();
  size_t sz;
  int c = cls(n, sz);
  char *p;
  if (c < 48 && H()->freel[c]) {
    p = (char *)H()->freel[c];
    memcpy(&H()->freel[c], p, sizeof(void *));
  } else {
    if (H()->top + sz + 16 > CAP) { fprintf(stderr, "arena exhausted\n"); _Exit(2); }
    p = base + H()->top + 16;
    H()->top += sz + 16;
    ((uint64_t *)(p - 16))[0] = sz;
    ((uint64_t *)(p - 16))[1] = (uint64_t)c;
  }
  memset(p, fillb, sz);          // the model must not depend on the contents of fresh memory
  H()->live++;
  return p;
}
bool mine(const void *p) { return base && (const char *)p >= base && (const char *)p < base + CAP; }
void afree(void *p) {
  uint64_t c = ((uint64_t *)((char *)p - 16))[1];
  H()->live--;
  memset(p, fillb ^ 0x3C, ((uint64_t *)((char *)p - 16))[0]);
  memcpy(p, &H()->freel[c], sizeof(void *));
  H()->freel[c] = p;
}
}  // namespace

bool arena_available() { return true; }
void arena_on(bool v) { on = v; }
void arena_fill(unsigned char c) { fillb = c; }
uint64_t arena_live() { return base ? H()->live : 0; }
void arena_reset() {
  if (!base) init();
  memset(base, 0, sizeof(Head));
  H()->top = (sizeof(Head) + 63) & ~(size_t)63;
}
void Snapshot::save() {
  if (!base) init();
  n = H()->top;
  size_t d = __start_vpdata ? (size_t)(__stop_vpdata - __start_vpdata) : 0, b = __start_vpbss ? (size_t)(__stop_vpbss - __start_vpbss) : 0;
  size_t need = n + d + b;
  if (cap < need) { __real_free(buf); cap = need * 2; buf = (char *)__real_malloc(cap); }
  memcpy(buf, base, n);
  if (d) memcpy(buf + n, __start_vpdata, d);
  if (b) memcpy(buf + n + d, __start_vpbss, b);
}
void Snapshot::restore() const {
  size_t d = __start_vpdata ? (size_t)(__stop_vpdata - __start_vpdata) : 0, b = __start_vpbss ? (size_t)(__stop_vpbss - __start_vpbss) : 0;
  memcpy(base, buf, n);
  if (d) memcpy(__start_vpdata, buf + n, d);
  if (b) memcpy(__start_vpbss, buf + n + d, b);
}
Snapshot::~Snapshot() { __real_free(buf); }
}  // namespace vp

extern "C" {
void *__wrap_malloc(size_t n) { return vp::on ? vp::aalloc(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (!vp::on) return __real_calloc(a, b);
  void *p = vp::aalloc(a * b);
  memset(p, 0, a * b);
  return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  if (vp::mine(p)) vp::afree(p); else __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!vp::mine(p)) return __real_realloc(p, n);
  bool o = vp::on;
  vp::on = true;
  void *q = vp::aalloc(n);
  vp::on = o;
  size_t old = ((uint64_t *)((char *)p - 16))[0];
  memcpy(q, p, old < n ? old : n);
  vp::afree(p);
  return q;
}
}
void *operator new(size_t n) {
  void *p = vp::on ? vp::aalloc(n) : __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
