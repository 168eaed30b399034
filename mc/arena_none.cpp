// Instrumented builds (address sanitizer): no snapshots; the blocks a model allocates are tracked to find what Finalize leaves behind.
#include "arena.hpp"
#include <cstring>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif
namespace vp {
static bool g_on = false;
static uint64_t g_live = 0;
static const uint64_t N = 1u << 20;
static const void *tab[N];
static const void *const TOMB = (const void *)1;
static uint64_t slot(const void *p) { return ((uint64_t)p * 0x9E3779B97F4A7C15ULL) >> 44; }
static void on_malloc(const volatile void *q, size_t) {
  const void *p = (const void *)q;
  if (!g_on || !p) return;
  for (uint64_t i = slot(p), k = 0; k < N; k++, i = (i + 1) & (N - 1))
    if (!tab[i] || tab[i] == TOMB) { tab[i] = p; g_live++; return; }
}
static void on_free(const volatile void *q) {
  const void *p = (const void *)q;
  if (!p || !g_live) return;
  for (uint64_t i = slot(p), k = 0; k < N && tab[i]; k++, i = (i + 1) & (N - 1))
    if (tab[i] == p) { tab[i] = tab[(i + 1) & (N - 1)] ? TOMB : nullptr; g_live--; return; }
}
bool arena_available() { return false; }
void arena_on(bool on) {
#if defined(__SANITIZE_ADDRESS__)
  static bool hooked = false;
  if (!hooked) { hooked = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
#endif
  (void)on_malloc; (void)on_free;
  g_on = on;
}
void arena_fill(unsigned char) {}
uint64_t arena_live() { return g_live; }
void arena_reset() {}
Snapshot::~Snapshot() {}
void Snapshot::save() {}
void Snapshot::restore() const {}
}
