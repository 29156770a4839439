// P01: the bounded span buffer shared by application threads and one exporter.
#include "pbt.hpp"
#include <deque>
#include <thread>
#include <set>
#ifdef SCHED
#include "sched.hpp"
#define atomic sched_atomic
#include "common/circular_buffer.h"
#undef atomic
#else
#include <atomic>
#include "common/circular_buffer.h"
#endif
using namespace lightstep;

namespace {
#ifdef SCHED
typedef int Counter;
#else
typedef std::atomic<int> Counter;
#endif
Counter live{0};
struct Item {
  explicit Item(int p, int s) : producer(p), seq(s), magic(0x5a5a5a5a) {
    live += 1;
  }
  ~Item() {
    if (magic != 0x5a5a5a5a) abort();
    magic = 0;
    live -= 1;
  }
  int producer, seq;
  int magic;
};

#if !defined(SCHED)
// The buffer against a bounded queue, one thread.
PROPERTY(sequential, p.check_memory = true;) {
  size_t cap = c.weighted({1, 3, 3}) == 2 ? c.range(1, 70) : c.range(1, 6);
  live = 0;
  {
    CircularBuffer<Item> b{cap};
    std::deque<int> m;
    int64_t produced = 0, consumed = 0;
    int next = 0;
    bool wrapped = false, rejected = false;
    c.note("capacity ", cap);
    c.equal(b.max_size(), cap, "max_size");
    int steps = c.range(1, 120);
    for (int i = 0; i < steps; ++i) {
      switch (c.weighted({8, 3, 3, 2, 1})) {
        case 0: {  // a burst of additions
          int n = c.range(1, 4);
          if (c.chance(1, 6)) n = static_cast<int>(cap) + 2;
          c.note("add*", n);
          for (int k = 0; k < n; ++k) {
            std::unique_ptr<Item> p{new Item{0, next++}};
            Item* raw = p.get();
            bool ok = b.Add(p);
            bool expect = m.size() < cap;
            c.equal(ok, expect, "Add on a buffer holding " +
                                    std::to_string(m.size()));
            if (ok) {
              c.check(p == nullptr, "accepted element still owned by caller");
              m.push_back(raw->seq);
              ++produced;
            } else {
              rejected = true;
              c.check(p.get() == raw, "rejected element lost");
            }
          }
          break;
        }
        case 1: {  // peek
          size_t take = c.range(0, m.size());
          c.note("peek ", take);
          auto r = b.Peek();
          c.equal(r.size(), m.size(), "range size");
          c.equal(r.empty(), m.empty(), "range empty");
          auto t = r.Take(take);
          c.equal(t.size(), take, "Take size");
          c.equal(t.empty(), take == 0, "Take empty");
          size_t stop = c.range(0, take + 1);
          size_t k = 0;
          bool all = t.ForEach([&](const AtomicUniquePtr<Item>& p) {
            c.check(k < m.size(), "visited past the end");
            c.check(!p.IsNull(), "null element in range");
            c.equal(p->seq, m[k], "peeked element");
            ++k;
            return k != stop;
          });
          size_t want = stop == 0 || stop > take ? take : stop;
          c.equal(k, want, "elements visited");
          c.equal(all, !(stop >= 1 && stop <= take), "ForEach result");
          break;
        }
        case 2: {  // consume, moving elements out
          size_t n = c.range(0, m.size());
          c.note("consume ", n);
          std::vector<std::unique_ptr<Item>> out;
          size_t seen = 0;
          b.Consume(n, [&](CircularBufferRange<AtomicUniquePtr<Item>> & r)
                           noexcept {
            seen = r.size();
            r.ForEach([&](AtomicUniquePtr<Item> & p) noexcept {
              std::unique_ptr<Item> x;
              p.Swap(x);
              out.push_back(std::move(x));
              return true;
            });
          });
          c.equal(seen, n, "consumed range size");
          c.equal(out.size(), n, "elements consumed");
          for (size_t k = 0; k < n; ++k) {
            c.check(out[k] != nullptr, "null element consumed");
            c.equal(out[k]->seq, m[k], "consumed element");
          }
          m.erase(m.begin(), m.begin() + n);
          consumed += n;
          break;
        }
        case 3: {  // consume, discarding
          size_t n = c.range(0, m.size());
          c.note("discard ", n);
          b.Consume(n);
          m.erase(m.begin(), m.begin() + n);
          consumed += n;
          break;
        }
        default:
          c.note("clear");
          b.Clear();
          consumed += m.size();
          m.clear();
      }
      wrapped |= produced > static_cast<int64_t>(cap) + 1;
      c.equal(b.size(), m.size(), "size");
      c.equal(b.empty(), m.empty(), "empty");
      c.equal(b.production_count(), produced, "production_count");
      c.equal(b.consumption_count(), consumed, "consumption_count");
      c.equal(static_cast<int>(live), static_cast<int>(m.size()),
              "elements alive");
    }
    if (wrapped) c.nontrivial();
    c.classify("wrapped", wrapped);
    c.classify("rejected", rejected);
    c.classify("left over", !m.empty());
  }
  c.equal(static_cast<int>(live), 0, "elements alive after destruction");
}

// The owning pointer against a plain pointer, one thread.
PROPERTY(owning_pointer) {
  live = 0;
  {
    AtomicUniquePtr<Item> p;
    int cur = -1, next = 0;
    c.check(p.IsNull(), "new pointer not null");
    int steps = c.range(1, 40);
    for (int i = 0; i < steps; ++i) {
      switch (c.draw(3)) {
        case 0: {
          bool with = c.boolean();
          c.note("reset ", with);
          int id = next++;
          p.Reset(with ? new Item{0, id} : nullptr);
          cur = with ? id : -1;
          break;
        }
        case 1: {
          c.note("swap-if-null");
          std::unique_ptr<Item> o{new Item{0, next++}};
          Item* raw = o.get();
          bool ok = p.SwapIfNull(o);
          if (cur != -1) c.check(!ok, "replaced a value");
          if (ok) {
            c.check(!o, "owner not emptied");
            cur = raw->seq;
          } else {
            c.check(o.get() == raw, "owner changed");
          }
          break;
        }
        case 2: {
          bool with = c.boolean();
          c.note("swap ", with);
          std::unique_ptr<Item> o{with ? new Item{0, next++} : nullptr};
          int id = o ? o->seq : -1;
          p.Swap(o);
          c.equal(o ? o->seq : -1, cur, "value swapped out");
          cur = id;
          break;
        }
        default:
          c.note("read");
          if (cur != -1) c.equal((*p).seq, cur, "dereference");
      }
      c.equal(p.IsNull(), cur == -1, "IsNull");
      c.equal(p.Get() ? p.Get()->seq : -1, cur, "Get");
      c.equal(static_cast<int>(live), cur == -1 ? 0 : 1, "values alive");
    }
    if (next > 3) c.nontrivial();
  }
  c.equal(static_cast<int>(live), 0, "values alive after destruction");
}

// A range over any two array pieces against the concatenated array.
PROPERTY(range_view) {
  std::vector<int> a(c.range(0, 12)), b(a.empty() ? 0 : c.range(0, 12));
  int v = 0;
  for (auto& x : a) x = v++;
  for (auto& x : b) x = v++;
  std::vector<int> m(a);
  m.insert(m.end(), b.begin(), b.end());
  CircularBufferRange<int> r{a.data(), a.data() + a.size(), b.data(),
                             b.data() + b.size()};
  c.note("pieces ", a.size(), "+", b.size());
  if (!b.empty()) c.nontrivial();
  size_t left = m.size();
  for (int i = 0; i < 4; ++i) {
    c.equal(r.size(), left, "size");
    c.equal(r.empty(), left == 0, "empty");
    size_t stop = c.range(0, left + 1), k = 0;
    bool all = r.ForEach([&](int& x) {
      c.check(k < left, "past the end");
      c.equal(x, m[k], "element");
      ++k;
      return k != stop;
    });
    c.equal(all, !(stop >= 1 && stop <= left), "ForEach result");
    c.equal(k, stop >= 1 && stop <= left ? stop : left, "visited");
    CircularBufferRange<const int> cr = r;
    c.equal(cr.size(), left, "const range size");
    left = c.range(0, left);
    c.note("take ", left);
    r = r.Take(left);
  }
}

// Real threads (ThreadSanitizer in one build, AddressSanitizer in another).
PROPERTY(threads, p.concurrent = true; p.hang_seconds = 60;) {
  size_t cap = c.pick({1, 2, 3, 5, 17, 64});
  int producers = c.range(1, 6);
  int per = c.range(1, 300);
  int eagerness = c.range(0, 3);
  int consume_mode = c.draw(2);
  bool retry = c.boolean();
  c.note("capacity ", cap, ", ", producers, " producers x ", per,
         ", consumer mode ", consume_mode, "/", eagerness, ", retry ", retry);
  live = 0;
  std::vector<std::vector<char>> accepted(producers,
                                          std::vector<char>(per, 0));
  std::vector<std::pair<int, int>> got;
  std::string err;
  std::vector<std::string> perr(producers);
  {
    CircularBuffer<Item> b{cap};
    std::atomic<int> running{producers};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    for (int p = 0; p < producers; ++p) {
      ts.emplace_back([&, p] {
        while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
        for (int i = 0; i < per; ++i) {
          std::unique_ptr<Item> x{new Item{p, i}};
          Item* raw = x.get();
          int64_t before = b.consumption_count();
          bool ok;
          while (!(ok = b.Add(x)) && retry) std::this_thread::yield();
          if (ok && x) perr[p] = "accepted element still owned by caller";
          if (!ok && x.get() != raw) perr[p] = "rejected element lost";
          if (!ok &&
              b.production_count() - before < static_cast<int64_t>(cap)) {
            perr[p] = "rejected although the buffer was never full";
          }
          accepted[p][i] = ok;
        }
        running.fetch_sub(1, std::memory_order_relaxed);
      });
    }
    uint64_t rnd = c.draw(~0ull);
    go.store(true, std::memory_order_relaxed);
    while (true) {
      bool last = running.load(std::memory_order_relaxed) == 0;
      if (last) {
        for (auto& t : ts) {
          if (t.joinable()) t.join();
        }
      }
      for (int k = 0; k < eagerness; ++k) std::this_thread::yield();
      rnd = pbt::mix(rnd);
      size_t n = b.size();
      if (n > cap) err = "holds more than its capacity";
      if (b.empty() != (n == 0) && n != 0) err = "empty disagrees with size";
      auto r = b.Peek();
      if (r.size() < n) err = "range shorter than size";
      size_t take = last ? n : rnd % (n + 1);
      if (consume_mode == 0) {
        size_t k = 0;
        r.Take(take).ForEach([&](const AtomicUniquePtr<Item>& p) {
          if (p.IsNull()) {
            err = "null element in range";
          } else {
            got.emplace_back(p->producer, p->seq);
          }
          ++k;
          return true;
        });
        b.Consume(take);
      } else {
        b.Consume(take, [&](CircularBufferRange<AtomicUniquePtr<Item>> & r)
                            noexcept {
          r.ForEach([&](AtomicUniquePtr<Item> & p) noexcept {
            if (p.IsNull()) {
              err = "null element consumed";
              return true;
            }
            got.emplace_back(p->producer, p->seq);
            if (consume_mode == 1) {
              std::unique_ptr<Item> x;
              p.Swap(x);
            } else {
              p.Reset();
            }
            return true;
          });
        });
      }
      if (last) break;
    }
    if (b.size() != 0 || !b.empty()) err = "not empty after draining";
  }
  c.check(err.empty(), err);
  for (auto& e : perr) c.check(e.empty(), e);
  std::vector<int> lastseq(producers, -1);
  size_t total = 0;
  for (auto& a : accepted) {
    for (char x : a) total += x;
  }
  c.equal(got.size(), total, "elements delivered");
  for (auto& g : got) {
    c.check(g.second > lastseq[g.first], "producer ", g.first,
            ": element ", g.second, " delivered after ", lastseq[g.first]);
    lastseq[g.first] = g.second;
    c.check(accepted[g.first][g.second], "rejected element delivered");
  }
  if (retry) c.equal(total, size_t(producers) * per, "accepted with retry");
  c.equal(static_cast<int>(live), 0, "elements alive at the end");
  if (producers > 1 && total > cap) c.nontrivial();
  c.classify("rejections", total < size_t(producers) * per);
}
#else
// Generated schedules: every atomic operation is a scheduling point.
PROPERTY(schedules, p.check_memory = true;) {
  size_t cap = c.weighted({3, 1}) == 0 ? c.range(1, 3) : c.range(4, 8);
  int producers = c.range(2, 4);
  int per = c.range(1, 6);
  unsigned den = c.pick({2u, 3u, 5u, 12u});
  bool spurious = c.boolean();
  int consumer_rounds = c.range(0, 16);
  int consume_mode = c.draw(2);
  c.note("capacity ", cap, ", ", producers, " producers x ", per,
         ", preempt 1/", den, ", spurious ", spurious, ", rounds ",
         consumer_rounds, " mode ", consume_mode);
  live = 0;
  std::vector<std::vector<char>> accepted(producers, std::vector<char>(per, 0));
  typedef std::pair<int, int> Id;
  std::vector<Id> got;
  std::map<Id, size_t> start, finish;
  size_t clock = 0, rejections = 0;
  {
    CircularBuffer<Item> b{cap};
    sched::Scheduler s{c, 1, den};
    s.allow_spurious(spurious);
    for (int p = 0; p < producers; ++p) {
      s.spawn([&, p] {
        for (int i = 0; i < per; ++i) {
          std::unique_ptr<Item> x{new Item{p, i}};
          Item* raw = x.get();
          start[Id{p, i}] = ++clock;
          int64_t before = b.consumption_count();
          bool ok = b.Add(x);
          finish[Id{p, i}] = ++clock;
          if (ok && x) s.error("accepted element still owned by caller");
          if (!ok && x.get() != raw) s.error("rejected element lost");
          if (!ok) {
            ++rejections;
            if (b.production_count() - before < static_cast<int64_t>(cap)) {
              s.error("rejected although the buffer was never full");
            }
          }
          accepted[p][i] = ok;
        }
      });
    }
    auto drain = [&](size_t take) {
      if (consume_mode == 0) {
        b.Peek().Take(take).ForEach([&](const AtomicUniquePtr<Item>& p) {
          if (p.IsNull()) {
            s.error("null element in range");
          } else {
            got.emplace_back(p->producer, p->seq);
          }
          return true;
        });
        b.Consume(take);
      } else {
        b.Consume(take, [&](CircularBufferRange<AtomicUniquePtr<Item>> & r)
                            noexcept {
          r.ForEach([&](AtomicUniquePtr<Item> & p) noexcept {
            if (p.IsNull()) {
              s.error("null element consumed");
              return true;
            }
            got.emplace_back(p->producer, p->seq);
            if (consume_mode == 1) {
              std::unique_ptr<Item> x;
              p.Swap(x);
            } else {
              p.Reset();
            }
            return true;
          });
        });
      }
    };
    s.spawn([&] {
      for (int k = 0; k < consumer_rounds; ++k) {
        size_t n = b.size();
        if (n > cap) s.error("holds more than its capacity");
        size_t take = c.range(0, n);
        drain(take);
        sched::point();
      }
    });
    s.run(60000);
    c.classify("spurious failure", s.num_spurious() > 0);
    c.classify("switches>10", s.switches() > 10);
    size_t n = b.size();
    c.check(n <= cap, "holds more than its capacity");
    c.equal(b.Peek().size(), n, "range size at rest");
    c.equal(b.empty(), n == 0, "empty at rest");
    if (s.switches() > 3 && rejections + got.size() > 0) c.nontrivial();
    // What is left over is either taken out or destroyed with the buffer.
    if (c.boolean()) {
      std::vector<std::string> e;
      b.Peek().ForEach([&](const AtomicUniquePtr<Item>& p) {
        c.check(!p.IsNull(), "null element at rest");
        got.emplace_back(p->producer, p->seq);
        return true;
      });
      b.Clear();
      // A buffer at rest is a plain bounded queue again.
      c.equal(static_cast<int>(live), 0, "alive after clear");
      for (size_t i = 0; i < cap; ++i) {
        std::unique_ptr<Item> x{new Item{9, 9}};
        c.check(b.Add(x), "empty buffer rejected an element");
      }
      std::unique_ptr<Item> x{new Item{9, 9}};
      c.check(!b.Add(x), "full buffer took an element");
    } else {
      b.Peek().ForEach([&](const AtomicUniquePtr<Item>& p) {
        c.check(!p.IsNull(), "null element at rest");
        got.emplace_back(p->producer, p->seq);
        return true;
      });
    }
  }
  c.equal(live, 0, "elements alive at the end");
  size_t total = 0;
  for (auto& a : accepted) {
    for (char x : a) total += x;
  }
  c.equal(got.size(), total, "elements delivered");
  std::vector<int> lastseq(producers, -1);
  size_t max_start = 0;
  for (auto& g : got) {
    c.check(accepted[g.first][g.second], "rejected element delivered");
    c.check(g.second > lastseq[g.first], "producer ", g.first, ": element ",
            g.second, " delivered after ", lastseq[g.first]);
    lastseq[g.first] = g.second;
    c.check(max_start <= finish[g],
            "an element was delivered before one added earlier");
    max_start = std::max(max_start, start[g]);
  }
  c.classify("rejections", rejections > 0);
}
#endif
}  // namespace
