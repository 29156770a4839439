// A deterministic scheduler for code built on std::atomic.
//
// Include this file, then the header under test between
//   #define atomic sched_atomic
//   #include "..."
//   #undef atomic
// Every operation on such an atomic is a point at which the scheduler may run
// another logical thread; the choice comes from the test case, so schedules are
// generated, shrunk and replayed like any other input.  Interleavings are
// sequentially consistent; compare_exchange_weak may fail spuriously.  Weaker
// orders are covered by the ThreadSanitizer builds of the same properties.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <setjmp.h>
#include <ucontext.h>
#include <atomic>
#include <memory>
#include <type_traits>
#include "pbt.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SCHED_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#endif

namespace sched {
class Scheduler {
 public:
  Scheduler(pbt::Case& c, unsigned preempt_num, unsigned preempt_den)
      : c_(c), num_(preempt_num), den_(preempt_den) {}
  ~Scheduler() { current() = nullptr; }

  void spawn(std::function<void()> f) {
    auto t = std::unique_ptr<Thread>(new Thread);
    t->fn = std::move(f);
    threads_.push_back(std::move(t));
  }
  // Runs all logical threads to their end.
  void run(size_t max_steps) {
    max_steps_ = max_steps;
    current() = this;
    for (auto& t : threads_) {
      t->stack.reset(new char[StackSize]);
      getcontext(&t->ctx);
      t->ctx.uc_stack.ss_sp = t->stack.get();
      t->ctx.uc_stack.ss_size = StackSize;
      t->ctx.uc_link = nullptr;
      makecontext(&t->ctx, &Scheduler::entry, 0);
    }
    while (true) {
      size_t n = 0;
      for (auto& t : threads_) n += !t->done;
      if (n == 0) break;
      if (steps_ > max_steps_) {
        current() = nullptr;
        c_.fail("no progress: ", steps_, " scheduling steps and ", n,
                " threads not finished");
      }
      // pick the k-th unfinished thread after the last one that ran
      size_t k = n == 1 ? 0 : c_.draw(n - 1);
      size_t i = last_;
      while (true) {
        i = (i + 1) % threads_.size();
        if (threads_[i]->done) continue;
        if (k == 0) break;
        --k;
      }
      last_ = i;
      run_length_ = 0;
      switch_to(i);
    }
    current() = nullptr;
    if (!error_.empty()) c_.fail(error_);
  }
  // Called before every operation on a scheduled atomic.
  void point() {
    ++steps_;
    ++run_length_;
    if (steps_ > max_steps_ || run_length_ > 40 || c_.chance(num_, den_)) {
      ++switches_;
      switch_back();
    }
  }
  bool spurious() {
    if (!allow_spurious_) return false;
    bool b = c_.chance(1, 12);
    num_spurious_ += b;
    return b;
  }
  size_t steps() const { return steps_; }
  size_t switches() const { return switches_; }
  size_t num_spurious() const { return num_spurious_; }
  void allow_spurious(bool b) { allow_spurious_ = b; }
  // For checks inside logical threads, which may run below noexcept frames.
  void error(const std::string& s) {
    if (error_.empty()) error_ = s;
  }
  static Scheduler*& current() {
    static Scheduler* s = nullptr;
    return s;
  }

 private:
  enum { StackSize = 128 << 10 };
  struct Thread {
    std::function<void()> fn;
    std::unique_ptr<char[]> stack;
    ucontext_t ctx;
    bool done = false;
    void* fake = nullptr;
  };
  static void entry() {
    Scheduler* s = current();
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &s->main_bottom_, &s->main_size_);
#endif
    Thread& t = *s->threads_[s->last_];
    t.fn();
    t.done = true;
    s->switch_back(true);
  }
  void switch_to(size_t i) {
    Thread& t = *threads_[i];
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(&main_fake_, t.stack.get(), StackSize);
#endif
    swapcontext(&main_, &t.ctx);
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(main_fake_, nullptr, nullptr);
#endif
  }
  void switch_back(bool final = false) {
    Thread& t = *threads_[last_];
#ifdef SCHED_ASAN
    __sanitizer_start_switch_fiber(final ? nullptr : &t.fake, main_bottom_,
                                   main_size_);
#endif
    swapcontext(&t.ctx, &main_);
#ifdef SCHED_ASAN
    __sanitizer_finish_switch_fiber(t.fake, &main_bottom_, &main_size_);
#endif
  }
  pbt::Case& c_;
  unsigned num_, den_;
  std::vector<std::unique_ptr<Thread>> threads_;
  ucontext_t main_;
  void* main_fake_ = nullptr;
  const void* main_bottom_ = nullptr;
  size_t main_size_ = 0;
  size_t last_ = 0, steps_ = 0, run_length_ = 0, switches_ = 0;
  size_t num_spurious_ = 0, max_steps_ = 0;
  bool allow_spurious_ = true;
  std::string error_;
};
inline void point() {
  if (auto s = Scheduler::current()) s->point();
}
inline bool spurious() {
  auto s = Scheduler::current();
  return s && s->spurious();
}
}  // namespace sched

namespace std {
template <class T>
class sched_atomic {
 public:
  typedef T value_type;
  sched_atomic() noexcept = default;
  constexpr sched_atomic(T v) noexcept : v_(v) {}
  sched_atomic(const sched_atomic&) = delete;
  sched_atomic& operator=(const sched_atomic&) = delete;
  T operator=(T v) noexcept {
    store(v);
    return v;
  }
  bool is_lock_free() const noexcept { return true; }
  operator T() const noexcept { return load(); }
  T load(memory_order = memory_order_seq_cst) const noexcept {
    sched::point();
    return v_;
  }
  void store(T v, memory_order = memory_order_seq_cst) noexcept {
    sched::point();
    v_ = v;
  }
  T exchange(T v, memory_order = memory_order_seq_cst) noexcept {
    sched::point();
    T old = v_;
    v_ = v;
    return old;
  }
  bool compare_exchange_strong(T& e, T d, memory_order, memory_order) noexcept {
    sched::point();
    if (v_ == e) {
      v_ = d;
      return true;
    }
    e = v_;
    return false;
  }
  bool compare_exchange_strong(T& e, T d, memory_order m =
                                              memory_order_seq_cst) noexcept {
    return compare_exchange_strong(e, d, m, m);
  }
  bool compare_exchange_weak(T& e, T d, memory_order a,
                             memory_order b) noexcept {
    if (sched::spurious()) {
      sched::point();
      e = v_;
      return false;
    }
    return compare_exchange_strong(e, d, a, b);
  }
  bool compare_exchange_weak(T& e, T d, memory_order m =
                                            memory_order_seq_cst) noexcept {
    return compare_exchange_weak(e, d, m, m);
  }
  template <class D>
  T fetch_add(D d, memory_order = memory_order_seq_cst) noexcept {
    sched::point();
    T old = v_;
    v_ = v_ + d;
    return old;
  }
  template <class D>
  T fetch_sub(D d, memory_order = memory_order_seq_cst) noexcept {
    sched::point();
    T old = v_;
    v_ = v_ - d;
    return old;
  }
  T fetch_or(T d, memory_order = memory_order_seq_cst) noexcept {
    sched::point();
    T old = v_;
    v_ = v_ | d;
    return old;
  }
  T fetch_and(T d, memory_order = memory_order_seq_cst) noexcept {
    sched::point();
    T old = v_;
    v_ = v_ & d;
    return old;
  }
  template <class D>
  T operator+=(D d) noexcept {
    return fetch_add(d) + d;
  }
  template <class D>
  T operator-=(D d) noexcept {
    return fetch_sub(d) - d;
  }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }

 private:
  T v_;
};
}  // namespace std
#endif
