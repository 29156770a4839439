// P32: the event loop wrappers, on the real libevent in virtual time.
//
// A case makes events on socket pairs, timers and one-shot timeouts on one
// EventBase, changes them from outside the loop and from their callbacks, and
// dispatches.  Waiting in the loop advances the clock; what the peers of the
// sockets do is scheduled in the same time.  A model of what is armed decides
// which callbacks may run, which must, and how long the loop may sleep.
#include <event2/event.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <limits>
#include <memory>
#include <set>
#include <stdexcept>
#include <typeinfo>
#include "common/utility.h"
#include "network/event.h"
#include "network/event_base.h"
#include "network/timer_event.h"
#include "pbt.hpp"
using namespace lightstep;
using us = std::chrono::microseconds;

namespace {
thread_local bool in_case = false;
int64_t clock_us;
struct World;
World* world;
int on_epoll_wait(int epoll, epoll_event* events, int max, int timeout);

int fail_allocation = 0;  // the n-th allocation from now fails
void* lib_malloc(size_t n) {
  if (fail_allocation && --fail_allocation == 0) return nullptr;
  return malloc(n);
}
void* lib_realloc(void* p, size_t n) {
  if (fail_allocation && --fail_allocation == 0) return nullptr;
  return realloc(p, n);
}
struct Prepare {
  Prepare() {
    event_set_mem_functions(lib_malloc, lib_realloc, free);
    event_set_log_callback([](int, const char*) {});
  }
} prepare;
}  // namespace

extern "C" {
int clock_gettime(clockid_t id, timespec* ts) noexcept {
  if (!in_case) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  ts->tv_sec = clock_us / 1000000;
  ts->tv_nsec = clock_us % 1000000 * 1000;
  return 0;
}
int epoll_wait(int epoll, epoll_event* events, int max, int timeout) {
  if (in_case && world) return on_epoll_wait(epoll, events, max, timeout);
  return static_cast<int>(
      syscall(SYS_epoll_pwait, epoll, events, max, timeout, nullptr, 8));
}
}

namespace {
const int64_t Never = std::numeric_limits<int64_t>::max() / 4;

struct Slot {
  enum Kind { IoEvent, Timer, Once } kind;
  int id;
  World* w;
  std::unique_ptr<Event> event;
  std::unique_ptr<TimerEvent> timer;
  int fd = -1;
  short options = 0;
  // the model
  bool alive = true;
  bool armed = false;
  int64_t deadline = Never, interval = 0;
  int64_t reset_interval = 0;    // what Reset() of a timer arms
  bool had_timeout = false;      // the object has had one
  int armed_poll = 0, timeout_poll = 0;
  bool must = false;             // has to run before the loop waits again
  short ready = 0;               // of the descriptor, at the last poll
  bool left = false;             // by a loop that was stopped
  int fired = 0;
  void OnEvent(FileDescriptor socket, short what);
  void OnTimer();
};

struct Action {  // of a peer
  int64_t at;
  int pair;
  int what;  // 0 write, 1 drain, 2 close, 3 shut down writing
};

struct Pair {
  int ours, peer;
};

struct World {
  pbt::Case& c;
  std::unique_ptr<EventBase> base;
  std::vector<std::unique_ptr<Slot>> slots;
  std::vector<Pair> pairs;
  std::vector<Action> actions;
  int bad_fd = -1;
  std::string error;
  bool breaking = false;   // the loop was told to stop
  bool dispatching = false;
  int64_t loop_time = 0;   // when the last wait ended
  int polls = 0, polls_left = 0;
  int callbacks = 0, io_fired = 0, timer_fired = 0, changes_inside = 0;
  int depth = 0;

  explicit World(pbt::Case& cc) : c(cc) {}

  template <class... A>
  void violation(const A&... a) {
    if (!error.empty()) return;
    std::ostringstream os;
    int unused[] = {0, ((void)(os << a), 0)...};
    (void)unused;
    error = os.str();
    stop();
  }
  void stop() {
    breaking = true;
    base->LoopBreak();
  }
  int64_t now() const { return dispatching && polls ? loop_time : clock_us; }

  // --- the model -------------------------------------------------------------
  void disarm(Slot& s) {
    s.armed = s.must = s.left = false;
    s.deadline = Never;
  }
  void arm(Slot& s, bool with_timeout, int64_t timeout) {
    if (!s.armed) {
      s.armed_poll = polls;
      s.ready = 0;
    }
    s.armed = true;
    if (with_timeout) {
      s.deadline = now() + timeout;
      s.interval = timeout;
      s.timeout_poll = polls;
      s.had_timeout = true;
      if (s.fd < 0) s.must = s.left = false;
    }
  }
  bool anything_armed() const {
    for (auto& s : slots) {
      if (s->armed && (s->deadline != Never || (s->options & (EV_READ | EV_WRITE))))
        return true;
    }
    return false;
  }

  void fired(Slot& s, int fd, short what, bool told) {
    ++callbacks;
    ++s.fired;
    if (!error.empty()) return;
    const short io = EV_READ | EV_WRITE;
    if (!s.alive) return violation("callback of #", s.id, " after its destruction");
    if (!s.armed)
      return violation("callback of #", s.id, " which is not added");
    if (s.armed_poll >= polls)
      return violation("callback of #", s.id, " before the loop looked for it");
    bool due = s.deadline <= loop_time && s.timeout_poll < polls;
    if (told) {
      if (fd != s.fd) return violation("#", s.id, " got descriptor ", fd, ", not ", s.fd);
      if (what & ~(io | EV_TIMEOUT) || !what)
        return violation("#", s.id, " got flags ", what);
      if (what & io & ~s.options)
        return violation("#", s.id, " got flags ", what, ", asked for ", s.options);
      if (what & io & ~s.ready)
        return violation("#", s.id, " got flags ", what, ", ready ", s.ready);
      if ((what & EV_TIMEOUT) && !due)
        return violation("#", s.id, " timed out at ", loop_time, ", due at ", s.deadline);
    } else {
      if (!due) return violation("timer #", s.id, " ran at ", loop_time, ", due at ", s.deadline);
      what = EV_TIMEOUT;
    }
    if (what & EV_TIMEOUT) ++timer_fired;
    else ++io_fired;
    s.must = s.left = false;
    if (s.kind == Slot::Once) {
      disarm(s);
      s.alive = false;
    } else if (!(s.options & EV_PERSIST)) {
      disarm(s);
    } else if (s.deadline != Never) {
      int64_t from = (what & EV_TIMEOUT) ? s.deadline : loop_time;
      s.deadline = from + s.interval;
      if (s.deadline < loop_time) s.deadline = loop_time + s.interval;
      s.timeout_poll = polls;
    }
    // What the callback does.
    ++depth;
    size_t n = c.size(3);
    for (size_t i = 0; i < n && error.empty(); ++i) {
      ++changes_inside;
      operation(&s);
    }
    if (c.chance(1, 4)) {
      int64_t t = c.range(1, 30000);
      c.note("takes ", t);
      clock_us += t;
    }
    if (c.chance(1, 12)) {
      c.note("break");
      stop();
    }
    --depth;
  }

  int poll(int epoll, epoll_event* events, int max, int timeout) {
    for (auto& s : slots) {
      if (s->must && !breaking)
        violation("#", s->id, " was due at ", s->deadline, " or ready (", s->ready,
                  ") and its callback did not run");
    }
    int64_t next = Never;
    for (auto& s : slots) {
      if (s->armed) next = std::min(next, s->deadline);
    }
    if (timeout < 0 && next != Never) {
      violation("the loop waits for ever with a timeout at ", next);
    } else if (timeout > 0 && next != Never &&
               // (the library measures from the end of the last wait)
               loop_time + int64_t(timeout) * 1000 >= std::max(next, loop_time) + 1000) {
      violation("the loop waits ", timeout, " ms at ", clock_us, " with a timeout at ", next);
    }
    if (--polls_left < 0) stop();
    int64_t until = timeout < 0 ? Never : clock_us + int64_t(timeout) * 1000;
    int n;
    for (;;) {
      n = static_cast<int>(syscall(SYS_epoll_pwait, epoll, events, max, 0, nullptr, 8));
      if (n != 0 || breaking || timeout == 0) break;
      size_t a = actions.size();
      for (size_t i = 0; i < actions.size(); ++i) {
        if (a == actions.size() || actions[i].at < actions[a].at) a = i;
      }
      if (a < actions.size() && actions[a].at <= until) {
        clock_us = std::max(clock_us, actions[a].at);
        act(actions[a]);
        actions.erase(actions.begin() + a);
        continue;
      }
      if (until == Never) {
        stop();
      } else {
        clock_us = std::max(clock_us, until);
      }
      break;
    }
    loop_time = clock_us;
    ++polls;
    for (auto& s : slots) {
      bool left = s->armed && s->left;
      s->must = left;
      s->left = false;
      if (!left) s->ready = 0;
      if (!s->armed) continue;
      if (s->options & (EV_READ | EV_WRITE)) {
        pollfd p = {s->fd, POLLIN | POLLOUT, 0};
        ::poll(&p, 1, 0);
        if (p.revents & (POLLIN | POLLERR | POLLHUP)) s->ready |= EV_READ;
        if (p.revents & (POLLOUT | POLLERR | POLLHUP)) s->ready |= EV_WRITE;
        if (s->ready & s->options) s->must = true;
      }
      if (s->deadline <= loop_time) s->must = true;
    }
    return n;
  }

  void act(const Action& a) {
    Pair& p = pairs[a.pair];
    if (p.peer < 0) return;
    char buffer[4096] = {0};
    switch (a.what) {
      case 0: (void)!send(p.peer, buffer, 100, MSG_DONTWAIT | MSG_NOSIGNAL); break;
      case 1:
        while (recv(p.peer, buffer, sizeof buffer, MSG_DONTWAIT) > 0) {
        }
        break;
      case 2: close(p.peer); p.peer = -1; break;
      default: shutdown(p.peer, SHUT_WR);
    }
  }

  // --- operations --------------------------------------------------------------
  int64_t timeout() {
    switch (c.draw(4)) {
      case 0: return c.range(1, 5000);
      case 1: return 1000 * c.range(1, 200);
      case 2: return c.range(1, 3000000);
      case 3: return 1000000 * c.range(1, 60);
      default: return c.chance(1, 3) ? c.range(1, 4000000000ll) : c.range(1, 40);
    }
  }
  Slot* pick(std::initializer_list<Slot::Kind> kinds) {
    std::vector<Slot*> v;
    for (auto& s : slots) {
      if (s->alive && std::find(kinds.begin(), kinds.end(), s->kind) != kinds.end())
        v.push_back(s.get());
    }
    return v.empty() ? nullptr : c.pick(v);
  }
  Slot& add_slot(Slot::Kind kind) {
    slots.emplace_back(new Slot);
    Slot& s = *slots.back();
    s.kind = kind;
    s.id = static_cast<int>(slots.size()) - 1;
    s.w = this;
    return s;
  }
  template <class F>
  void throws(const std::string& what, F f) {
    try {
      f();
    } catch (const std::runtime_error&) {
      c.classify("failure reported");
      return;
    } catch (...) {
      return violation(what, " threw something else");
    }
    violation(what, " reported no failure");
  }

  void make_timer(Slot& s) {
    static const Event::Callback callback = MakeTimerCallback<Slot, &Slot::OnTimer>();
    s.options = EV_PERSIST;
    s.armed = false;
    s.deadline = Never;
    s.reset_interval = 0;
    switch (c.draw(3)) {
      case 0: {
        int64_t t = timeout();
        c.note("timer #", s.id, " every ", t);
        s.timer.reset(new TimerEvent{*base, us{t}, callback, &s});
        s.reset_interval = t;
        break;
      }
      case 1: {
        int64_t t = c.range(1, 5000);
        c.note("timer #", s.id, " every ", t, " ms");
        s.timer.reset(new TimerEvent{*base, std::chrono::milliseconds{t}, callback, &s});
        s.reset_interval = t * 1000;
        break;
      }
      case 2: {
        int64_t t = c.range(1, 90);
        c.note("timer #", s.id, " every ", t, " s");
        s.timer.reset(new TimerEvent{*base, std::chrono::seconds{t}, callback, &s});
        s.reset_interval = t * 1000000;
        break;
      }
      default:
        c.note("timer #", s.id);
        s.timer.reset(new TimerEvent{*base, callback, &s});
        return;
    }
    arm(s, true, s.reset_interval);
  }

  void operation(Slot* self) {
    switch (c.weighted({3, 2, 3, 5, 3, 2, 3, 2, 2, 2, 1})) {
      case 0: {  // an event on a socket
        if (slots.size() >= 14) return;
        Slot& s = add_slot(Slot::IoEvent);
        static const short options[] = {EV_READ, EV_WRITE, EV_READ | EV_WRITE,
                                        EV_READ | EV_PERSIST,
                                        EV_READ | EV_WRITE | EV_PERSIST, 0};
        s.options = c.pick(options);
        s.fd = s.options ? pairs[c.draw(pairs.size() - 1)].ours : -1;
        c.note("event #", s.id, " on ", s.fd, " options ", s.options);
        s.event.reset(new Event{*base, s.fd, s.options,
                                MakeEventCallback<Slot, &Slot::OnEvent>(), &s});
        if (c.boolean()) add(s);
        return;
      }
      case 1:  // a timer
        if (slots.size() >= 14) return;
        return make_timer(add_slot(Slot::Timer));
      case 2: {  // a one-shot
        if (slots.size() >= 14) return;
        Slot& s = add_slot(Slot::Once);
        Event::Callback callback = MakeEventCallback<Slot, &Slot::OnEvent>();
        int64_t t = c.chance(1, 6) ? 0 : timeout();
        c.note("once #", s.id, " after ", t);
        s.fd = -1;
        if (c.boolean()) {
          base->OnTimeout(us{t}, callback, &s);
        } else {
          t -= t % 1000;
          base->OnTimeout(std::chrono::milliseconds{t / 1000}, callback, &s);
        }
        arm(s, true, t);
        // (one for now may run without another wait)
        if (t == 0) s.armed_poll = s.timeout_poll = polls - 1;
        return;
      }
      case 3: {
        Slot* s = self && c.boolean() ? self : pick({Slot::IoEvent});
        if (s && s->alive && s->kind == Slot::IoEvent) add(*s);
        return;
      }
      case 4: {
        Slot* s = self && c.boolean() ? self : pick({Slot::IoEvent});
        if (!s || !s->alive || s->kind != Slot::IoEvent) return;
        c.note("remove #", s->id);
        s->event->Remove();
        disarm(*s);
        return;
      }
      case 5: {  // destroy
        Slot* s = self && c.chance(1, 3) ? self : pick({Slot::IoEvent, Slot::Timer});
        if (!s || !s->alive || s->kind == Slot::Once) return;
        c.note("destroy #", s->id);
        s->event.reset();
        s->timer.reset();
        disarm(*s);
        s->alive = false;
        return;
      }
      case 6: {  // reset a timer
        Slot* s = self && c.boolean() ? self : pick({Slot::Timer});
        if (!s || !s->alive || s->kind != Slot::Timer) return;
        switch (c.draw(2)) {
          case 0:
            if (!s->reset_interval) return;
            c.note("reset #", s->id);
            s->timer->Reset();
            disarm(*s);
            arm(*s, true, s->reset_interval);
            break;
          case 1: {
            int64_t t = timeout();
            c.note("reset #", s->id, " to ", t);
            timeval tv;
            tv.tv_sec = t / 1000000;
            tv.tv_usec = t % 1000000;
            s->timer->Reset(&tv);
            disarm(*s);
            s->reset_interval = t;
            arm(*s, true, t);
            break;
          }
          default:
            c.note("stop #", s->id);
            s->timer->Reset(nullptr);
            disarm(*s);
        }
        return;
      }
      case 7: {  // move
        Slot* s = self && c.chance(1, 3) ? self : pick({Slot::IoEvent, Slot::Timer});
        if (!s || !s->alive || s->kind == Slot::Once) return;
        bool assign = c.boolean();
        c.note("move #", s->id, assign ? " by assignment" : "");
        bool keep = c.boolean();
        if (s->kind == Slot::IoEvent) {
          std::unique_ptr<Event> to;
          if (assign) {
            // over an event that is itself added
            to.reset(new Event{*base, s->fd, s->options,
                               MakeEventCallback<Slot, &Slot::OnEvent>(), nullptr});
            if (c.boolean()) to->Add(us{1});
            *to = std::move(*s->event);
          } else {
            to.reset(new Event{std::move(*s->event)});
          }
          if (keep) {  // and back
            *s->event = std::move(*to);
          } else {
            s->event = std::move(to);
          }
        } else {
          std::unique_ptr<TimerEvent> to;
          if (assign) {
            to.reset(new TimerEvent{*base, us{1}, MakeTimerCallback<Slot, &Slot::OnTimer>(), nullptr});
            *to = std::move(*s->timer);
          } else {
            to.reset(new TimerEvent{std::move(*s->timer)});
          }
          if (keep) *s->timer = std::move(*to);
          else s->timer = std::move(to);
        }
        c.classify("moved");
        return;
      }
      case 8: {  // a peer, now or later
        Action a = {clock_us, static_cast<int>(c.draw(pairs.size() - 1)),
                    static_cast<int>(c.weighted({6, 4, 1, 1}))};
        if (c.boolean()) {
          c.note("peer ", a.pair, " does ", a.what);
          act(a);
        } else {
          a.at += timeout();
          c.note("peer ", a.pair, " does ", a.what, " at ", a.at);
          actions.push_back(a);
        }
        return;
      }
      case 9: {  // our own use of a socket
        Pair& p = pairs[c.draw(pairs.size() - 1)];
        char buffer[65536] = {0};
        if (c.boolean()) {
          c.note("read ", p.ours);
          while (recv(p.ours, buffer, sizeof buffer, MSG_DONTWAIT) > 0) {
          }
        } else {
          c.note("fill ", p.ours);
          while (send(p.ours, buffer, sizeof buffer, MSG_DONTWAIT | MSG_NOSIGNAL) > 0) {
          }
        }
        return;
      }
      default: failures();
    }
  }

  void add(Slot& s) {
    // (the library forgets the descriptor of an event that is added again
    // between its timeout and its callback)
    if ((s.must || s.left) && s.fd >= 0 && s.deadline <= loop_time) return;
    switch (c.draw(2)) {
      case 0: {
        // (the library keeps the interval of a persistent event)
        if (s.had_timeout && (s.options & EV_PERSIST)) return;
        c.note("add #", s.id);
        s.event->Add(static_cast<timeval*>(nullptr));
        if (s.fd >= 0) arm(s, false, 0);
        break;
      }
      case 1: {
        int64_t t = timeout();
        if (!(s.options & EV_PERSIST) && c.chance(1, 8)) t = 0;
        c.note("add #", s.id, " for ", t);
        s.event->Add(us{t});
        arm(s, true, t);
        break;
      }
      default: {
        int64_t t = timeout();
        c.note("add #", s.id, " for the time ", t);
        timeval tv;
        tv.tv_sec = t / 1000000;
        tv.tv_usec = t % 1000000;
        s.event->Add(&tv);
        arm(s, true, t);
      }
    }
  }

  void failures() {
    switch (c.draw(3)) {
      case 0:
        c.note("event with impossible options");
        throws("an event that cannot be made", [&] {
          Event{*base, 1, EV_SIGNAL | EV_READ, MakeEventCallback<Slot, &Slot::OnEvent>(), nullptr};
        });
        break;
      case 1: {
        c.note("event on a bad descriptor");
        Event e{*base, c.boolean() ? bad_fd : 900, EV_READ,
                MakeEventCallback<Slot, &Slot::OnEvent>(), nullptr};
        bool timed = c.boolean();
        throws("an event that cannot be added", [&] {
          if (timed) e.Add(us{1});
          else e.Add(static_cast<timeval*>(nullptr));
        });
        break;
      }
      case 2:
        c.note("no memory for an event");
        throws("an event without memory", [&] {
          fail_allocation = 1;
          Event{*base, -1, 0, MakeEventCallback<Slot, &Slot::OnEvent>(), nullptr};
        });
        break;
      default:
        c.note("no memory for a timeout");
        throws("a timeout without memory", [&] {
          fail_allocation = 1;
          base->OnTimeout(us{1}, MakeEventCallback<Slot, &Slot::OnEvent>(), nullptr);
        });
    }
    fail_allocation = 0;
  }

  void dispatch() {
    Slot* s = nullptr;
    if (c.chance(2, 3)) {
      s = &add_slot(Slot::Once);
      int64_t t = timeout();
      c.note("dispatch until #", s->id, " in ", t);
      base->OnTimeout(us{t}, [](FileDescriptor fd, short what, void* p) {
        auto slot = static_cast<Slot*>(p);
        slot->w->fired(*slot, fd, what, true);
        slot->w->stop();
      }, s);
      arm(*s, true, t);
    } else {
      c.note("dispatch");
    }
    polls_left = 60;
    breaking = false;
    dispatching = true;
    polls = polls ? polls : 0;
    bool threw = false;
    int before = polls;
    loop_time = clock_us;
    try {
      base->Dispatch();
    } catch (const std::runtime_error&) {
      threw = true;
    }
    dispatching = false;
    (void)before;
    if (error.empty() && threw && (anything_armed() || breaking))
      error = "dispatching failed";
    if (error.empty() && !breaking && anything_armed())
      error = "the loop ended with something to wait for";
    for (auto& slot : slots) {
      if (slot->must && !breaking && error.empty())
        error = "#" + std::to_string(slot->id) + " was left out when the loop ended";
      slot->left = slot->must;
      slot->must = false;
    }
    c.note("at ", clock_us);
  }
};

void Slot::OnEvent(FileDescriptor socket, short what) { w->fired(*this, socket, what, true); }
void Slot::OnTimer() { w->fired(*this, -1, EV_TIMEOUT, false); }

int on_epoll_wait(int epoll, epoll_event* events, int max, int timeout) {
  return world->poll(epoll, events, max, timeout);
}

struct InCase {
  InCase() { in_case = true; }
  ~InCase() {
    in_case = false;
    world = nullptr;
  }
};
}  // namespace

PROPERTY(event_loop, p.check_memory = true; p.check_fds = true) {
  InCase guard;
  clock_us = 1000000000;
  World w{c};
  for (size_t i = 0, n = 1 + c.draw(2); i < n; ++i) {
    int fds[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fds)) continue;
    w.pairs.push_back({fds[0], fds[1]});
  }
  w.bad_fd = memfd_create("plain", 0);
  struct Close {
    World& w;
    ~Close() {
      w.slots.clear();
      w.base.reset();
      for (auto& p : w.pairs) {
        close(p.ours);
        if (p.peer >= 0) close(p.peer);
      }
      close(w.bad_fd);
    }
  } closer{w};
  if (c.chance(1, 8)) {
    c.note("no memory for the loop");
    w.base.reset();
    bool threw = false;
    fail_allocation = 1;
    try {
      EventBase base;
    } catch (const std::runtime_error&) {
      threw = true;
    }
    fail_allocation = 0;
    c.check(threw, "a loop without memory was made");
  }
  w.base.reset(new EventBase);
  world = &w;
  size_t steps = 1 + c.size(20);
  for (size_t i = 0; i < steps && w.error.empty(); ++i) {
    switch (c.weighted({6, 2, 1, 1})) {
      case 0: w.operation(nullptr); break;
      case 1: w.dispatch(); break;
      case 2: {
        int64_t t = w.timeout();
        c.note("time passes: ", t);
        clock_us += t;
        break;
      }
      default: {  // the loop moves
        EventBase* moved;
        if (c.boolean()) {
          c.note("move the loop");
          moved = new EventBase{std::move(*w.base)};
        } else {
          c.note("move the loop by assignment");
          moved = new EventBase;
          *moved = std::move(*w.base);
        }
        if (c.chance(1, 3)) {
          *w.base = std::move(*moved);
          delete moved;
        } else {
          w.base.reset(moved);
        }
      }
    }
  }
  if (w.error.empty()) w.dispatch();
  if (!w.error.empty()) c.fail(w.error);
  if (w.io_fired > 1 && w.timer_fired > 1 && w.changes_inside > 1) c.nontrivial();
  c.classify("i/o callbacks", w.io_fired > 0);
  c.classify("timeouts", w.timer_fired > 0);
  c.classify("changes in callbacks", w.changes_inside > 0);
  c.classify("many callbacks", w.callbacks > 20);
}

template <class D>
static auto other_units(D d, timeval& tv, int) -> decltype(toTimeval(d), true) {
  tv = toTimeval(d);
  return true;
}
template <class D>
static bool other_units(D, timeval&, long) {
  return false;
}

PROPERTY(durations) {
  int64_t t = static_cast<int64_t>(c.u64() >> 1);
  c.note("duration ", t);
  timeval tv = ToTimeval(us{t});
  c.check(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "microseconds ", tv.tv_usec);
  c.check(static_cast<__int128>(tv.tv_sec) * 1000000 + tv.tv_usec == t,
          "became ", tv.tv_sec, " s ", tv.tv_usec, " us");
  if (other_units(std::chrono::milliseconds{t / 1000}, tv, 0)) {
    c.check(static_cast<__int128>(tv.tv_sec) * 1000000 + tv.tv_usec == t - t % 1000,
            "as milliseconds it became ", tv.tv_sec, " s ", tv.tv_usec, " us");
  }
  if (t > 1000000 && t % 1000000) c.nontrivial();
}
