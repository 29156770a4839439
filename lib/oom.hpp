// Failing allocations, generated like any other input: operator new of the
// whole program, which fails in the calling thread while a Fault is alive.
// Include in one source file of a harness.
#ifndef VERIF_OOM_HPP
#define VERIF_OOM_HPP
#include <stdint.h>
#include <stdlib.h>
#include <atomic>
#include <new>

namespace oom {
// plain data, so that no constructor runs at the first use in a thread
struct State {
  bool armed;
  int64_t until;  // allocations that still succeed
  int64_t fails;  // then so many fail
  uint64_t seen, failed;
};
inline State& state() {
  static thread_local State s;
  return s;
}
inline std::atomic<uint64_t>& total() {  // failures in all threads
  static std::atomic<uint64_t> n{0};
  return n;
}
inline bool fails_now() {
  State& s = state();
  if (!s.armed) return false;
  ++s.seen;
  if (s.until-- > 0) return false;
  if (s.fails == 0) return false;
  --s.fails;
  ++s.failed;
  ++total();
  return true;
}
// Allocations of this thread fail from the given one on.
class Fault {
 public:
  Fault(int64_t at, int64_t count) {
    state() = State{at >= 0, at, count, 0, 0};
  }
  ~Fault() { state().armed = false; }
  uint64_t failed() const { return state().failed; }
  uint64_t seen() const { return state().seen; }
};
// The harness's own code inside callbacks gets all it asks for.
class Pause {
 public:
  Pause() : armed_{state().armed} { state().armed = false; }
  ~Pause() { state().armed = armed_; }

 private:
  bool armed_;
};
inline void* get(size_t n, size_t align = 0) {
  // the sanitizer would rather end the program than refuse so much
  if (n > static_cast<size_t>(1) << 36) throw std::bad_alloc{};
  if (fails_now()) throw std::bad_alloc{};
  void* p = align ? aligned_alloc(align, (n + align - 1) / align * align)
                  : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  return p;
}
}  // namespace oom

// for protobuf's maps, see vbuild.py
void* verif_map_new(size_t n) {
  oom::Pause p;
  return ::operator new(n);
}
void* operator new(size_t n) { return oom::get(n); }
void* operator new[](size_t n) { return oom::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return oom::fails_now() ? nullptr : malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return oom::fails_now() ? nullptr : malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif
