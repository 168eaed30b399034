#pragma once
#include <cstddef>
#include <cstdint>
namespace vp {
bool arena_available();
void arena_on(bool);
void arena_fill(unsigned char);     // contents of fresh memory
uint64_t arena_live();
void arena_reset();
struct Snapshot {
  char *buf = nullptr;
  size_t cap = 0, n = 0;
  Snapshot() {}
  Snapshot(const Snapshot &) = delete;
  Snapshot &operator=(const Snapshot &) = delete;
  ~Snapshot();
  void save();
  void restore() const;
};
}  // namespace vp
