// Coverage recorder for tools/cover.py: basic blocks of the model that were reached, in a file shared by all processes.
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
static volatile uint64_t *T;
static const uint64_t N = 1 << 18;
__attribute__((constructor)) static void init() {
  const char *f = getenv("VP_COV");
  if (!f) return;
  int fd = open(f, O_RDWR | O_CREAT, 0644);
  if (ftruncate(fd, N * 8)) return;
  T = (volatile uint64_t *)mmap(nullptr, N * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
}
extern "C" void __sanitizer_cov_trace_pc() {
  if (!T) return;
  uint64_t a = (uint64_t)__builtin_return_address(0), h = (a * 0x9E3779B97F4A7C15ull) >> 46;
  while (T[h] && T[h] != a) h = (h + 1) & (N - 1);
  if (!T[h]) T[h] = a;
}
