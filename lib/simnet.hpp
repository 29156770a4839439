// A simulated event loop (libevent's interface) and simulated TCP sockets in
// virtual time. The functions are linked in place of the real ones with
// -Wl,--wrap; see SIMNET_WRAP in checks.py. Nothing here is thread-safe: only
// one thread at a time may run the code under test.
#ifndef VERIF_SIMNET_HPP
#define VERIF_SIMNET_HPP
#include <arpa/inet.h>
#include <errno.h>
#include <event2/event.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <string.h>
#include <sched.h>
#include <stdio.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "clock.hpp"
#ifdef SIM_OOM  // allocations fail in callbacks, but not in what is simulated
#define SIM_PAUSE oom::Pause sim_pause
#else
#define SIM_PAUSE
#endif

namespace simnet {
typedef int64_t ns_t;
const ns_t us = 1000, ms = 1000000, never = INT64_MAX / 4;
enum { FirstFd = 100000 };

inline ns_t now() { return vclock::elapsed; }

// What one accepted connection does. The driver subclasses this.
struct Peer {
  virtual ~Peer() {}
  // connect(): 0 or an errno; EINPROGRESS is followed by the two below.
  int connect_result = EINPROGRESS;
  ns_t connected_at = 0;    // when the handshake ends
  int connect_error = 0;    // and how
  // How many of n bytes to take now; -errno to refuse. `next` is the byte
  // after the ones taken.
  virtual long write(const std::string& data) = 0;
  virtual ns_t writable_at() = 0;  // the earliest time at which to try again
  // Bytes to be read now: >0, 0 end of file, -errno.
  virtual long read(char* data, size_t n) = 0;
  virtual ns_t readable_at() = 0;
  virtual void woken() {}  // the other side is told that it can write
  virtual void refused() {}  // the other side sees that connecting failed
  virtual void closed() {}
};

struct Socket {
  std::unique_ptr<Peer> peer;
  bool connecting = false, nonblocking = false, error_reported = false;
};
struct Base;
struct Ev {
  Base* base;
  int fd;
  short events;
  event_callback_fn cb;
  void* arg;
  bool added = false;      // waiting for io or a timeout
  bool io = false;         // waiting for io
  ns_t deadline = never;   // of the timeout
  ns_t interval = 0;
  uint64_t order = 0;
};
struct Base {
  std::list<Ev*> events;
  // The library tells the kernel of the first event added on a descriptor
  // and of the last one removed; the kernel forgets a closed socket.
  std::map<int, std::pair<int, int>> added;  // to read, to write
  std::map<int, short> watched;
  bool stop = false;
  bool alive = true;
};

struct World {
  // driver's hooks
  std::function<int()> on_socket;  // 0 or errno
  std::function<std::unique_ptr<Peer>(const sockaddr*, socklen_t)> on_connect;
  std::function<int(int)> shuffle;  // a number in [0, n)
  bool by_fd = false;               // what is due at once goes by descriptor
  // around every callback of an event
  std::function<void()> before_callback, after_callback;
  std::string error;                // misuse of the interface, busy loops
  // state
  std::map<int, Socket> sockets;
  std::set<Base*> bases;
  std::multimap<ns_t, std::function<void()>> timers;  // the driver's own
  int next_fd() const {  // the lowest free one
    int fd = FirstFd;
    while (sockets.count(fd)) ++fd;
    return fd;
  }
  uint64_t next_order = 0;
  uint64_t fired = 0, fired_here = 0;
  ns_t fired_at = -1;
  uint64_t opened = 0;
  // threads that dispatch: held until the driver lets them take over
  bool hold_dispatch = true;
  void fail(const std::string& s) {
    if (error.empty()) error = s;
  }
  void at(ns_t t, std::function<void()> f) { timers.emplace(t, std::move(f)); }
};
inline World* world = nullptr;

inline void io_on(Ev* e) {
  if (e->io || !(e->events & (EV_READ | EV_WRITE))) return;
  e->io = true;
  auto& n = e->base->added[e->fd];
  if ((e->events & EV_READ) && n.first++ == 0) e->base->watched[e->fd] |= EV_READ;
  if ((e->events & EV_WRITE) && n.second++ == 0) e->base->watched[e->fd] |= EV_WRITE;
}
inline void io_off(Ev* e) {
  if (!e->io) return;
  e->io = false;
  if (!e->base) return;
  auto& n = e->base->added[e->fd];
  if ((e->events & EV_READ) && --n.first == 0) e->base->watched[e->fd] &= ~EV_READ;
  if ((e->events & EV_WRITE) && --n.second == 0) e->base->watched[e->fd] &= ~EV_WRITE;
}
inline void forget(int fd) {  // a socket was closed
  for (auto b : world->bases) b->watched.erase(fd);
}

// --- readiness -------------------------------------------------------------
inline ns_t ready_read(const Socket& s) {
  if (s.connecting) return s.peer->connect_error ? s.peer->connected_at : never;
  if (!s.peer) return never;
  return std::max(s.peer->connected_at, s.peer->readable_at());
}
inline ns_t ready_write(const Socket& s) {
  if (s.connecting) return s.peer->connected_at;
  if (!s.peer) return never;
  return s.peer->writable_at();
}
inline ns_t when(const Ev& e) {
  ns_t t = e.deadline;
  if (e.io) {
    auto i = world->sockets.find(e.fd);
    if (i != world->sockets.end()) {
      short events = e.events & e.base->watched[e.fd];
      if (events & EV_READ) t = std::min(t, ready_read(i->second));
      if (events & EV_WRITE) t = std::min(t, ready_write(i->second));
    }
  }
  return t;
}
inline void fire(Ev* e) {
  short what = 0;
  ns_t t = now();
  if (e->io) {
    auto i = world->sockets.find(e->fd);
    if (i != world->sockets.end()) {
      short events = e->events & e->base->watched[e->fd];
      if ((events & EV_READ) && ready_read(i->second) <= t) what |= EV_READ;
      if ((events & EV_WRITE) && ready_write(i->second) <= t)
        what |= EV_WRITE;
      if (what & EV_WRITE) i->second.peer->woken();
    }
  }
  if (!what) what = EV_TIMEOUT;
  if (e->events & EV_PERSIST) {
    if (e->interval > 0 || e->deadline != never) {
      ns_t base = what == EV_TIMEOUT ? e->deadline : t;
      e->deadline = base + e->interval;
      if (e->deadline < t) e->deadline = t + e->interval;
    }
  } else {
    e->added = false;
    io_off(e);
    e->deadline = never;
  }
  if (e->order & 1) {  // one-shot
    Ev copy = *e;
    e->base->events.remove(e);
    delete e;
    if (world->before_callback) world->before_callback();
    copy.cb(copy.fd, what, copy.arg);
    if (world->after_callback) world->after_callback();
    return;
  }
  if (world->before_callback) world->before_callback();
  e->cb(e->fd, what, e->arg);
  if (world->after_callback) world->after_callback();
}
// Runs events up to and including time `until`; stops early after one event
// if `one`. Time then stands at `until`, or at the event's.
inline bool run(ns_t until, bool one = false) {
  World& w = *world;
  while (w.error.empty()) {
    ns_t best = never;
    std::vector<Ev*> due;
    for (Base* b : w.bases)
      for (Ev* e : b->events)
        if (e->added) {
          ns_t t = std::max(when(*e), now());
          if (t < best) {
            best = t;
            due.clear();
          }
          if (t == best) due.push_back(e);
        }
    ns_t mine = w.timers.empty() ? never
                                 : std::max(w.timers.begin()->first, now());
    ns_t t = std::min(best, mine);
    if (t > until) {
      vclock::elapsed = std::max(vclock::elapsed, until);
      return false;
    }
    vclock::elapsed = t;
    if (t != w.fired_at) {
      w.fired_at = t;
      w.fired_here = 0;
    }
    if (++w.fired_here > 3000) {
      w.fail("the event loop is busy without time passing");
      return false;
    }
    ++w.fired;
    if (mine <= best) {
      auto f = std::move(w.timers.begin()->second);
      w.timers.erase(w.timers.begin());
      f();
    } else {
      // timers in order of their deadlines; the rest in any order
      size_t k = due.size() > 1 && w.shuffle ? w.shuffle(due.size()) : 0;
      if (w.by_fd) {
        for (size_t i = 0; i < due.size(); ++i)
          if (due[i]->fd < due[k]->fd) k = i;
      }
      fire(due[k]);
    }
    if (one) return true;
  }
  return false;
}

// A thread that dispatches a base waits here for the driver.
struct Dispatcher {
  sem_t go;
  std::atomic<long> driver{0};
  Dispatcher() { sem_init(&go, 0, 0); }
  ~Dispatcher() { sem_destroy(&go); }
  // Hands the simulation over to the thread that dispatches: from when the
  // calling thread waits for it.
  void post() {
    driver = syscall(SYS_gettid);
    sem_post(&go);
  }
  void take() {
    while (sem_wait(&go) != 0) {
    }
    char path[64], text[256];
    snprintf(path, sizeof path, "/proc/self/task/%ld/stat", driver.load());
    for (int i = 0; i < 100000; ++i) {
      int fd = open(path, O_RDONLY | O_CLOEXEC);
      if (fd < 0) return;
      ssize_t n = ::pread(fd, text, sizeof text - 1, 0);
      ::close(fd);
      if (n <= 0) return;
      text[n] = 0;
      const char* p = strrchr(text, ')');
      if (p && (p[2] == 'S' || p[2] == 'Z' || p[2] == 'X')) return;
      sched_yield();
    }
  }
};
inline Dispatcher& dispatcher() {
  static Dispatcher d;
  return d;
}
inline std::function<void()> on_takeover;  // on the dispatching thread

inline void put(Ev* e, const timeval* tv) {
  if (!e->base->alive) world->fail("event added to a freed event base");
  e->added = true;
  io_on(e);
  if (tv) {
    e->interval = tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll;
    if (tv->tv_usec < 0 || tv->tv_usec >= 1000000 || tv->tv_sec < 0)
      world->fail("event added with an invalid timeout");
    if (__builtin_add_overflow(now(), e->interval, &e->deadline))
      e->deadline = INT64_MAX;
  }
}
}  // namespace simnet

extern "C" {
using namespace simnet;
#define SIM_WRAP(ret, name, ...)     \
  ret __real_##name(__VA_ARGS__);    \
  ret __wrap_##name(__VA_ARGS__)

SIM_WRAP(event_base*, event_base_new, void) {
  SIM_PAUSE;
  auto b = new Base;
  world->bases.insert(b);
  return reinterpret_cast<event_base*>(b);
}
SIM_WRAP(void, event_base_free, event_base* base) {
  SIM_PAUSE;
  auto b = reinterpret_cast<Base*>(base);
  world->bases.erase(b);
  b->alive = false;
  for (auto e : b->events)
    if (e->order & 1) delete e;  // a one-shot event belongs to the base
    else e->base = nullptr;
  delete b;
}
SIM_WRAP(int, event_base_loopbreak, event_base* base) {
  SIM_PAUSE;
  reinterpret_cast<Base*>(base)->stop = true;
  return 0;
}
SIM_WRAP(int, event_base_dispatch, event_base* base) {
  auto b = reinterpret_cast<Base*>(base);
  dispatcher().take();
  if (on_takeover) on_takeover();
  while (!b->stop && world->error.empty()) run(simnet::never - 1, true);
  b->stop = false;
  return 0;
}
SIM_WRAP(event*, event_new, event_base* base, evutil_socket_t fd, short events,
         event_callback_fn cb, void* arg) {
  SIM_PAUSE;
  auto e = new Ev{reinterpret_cast<Base*>(base), static_cast<int>(fd), events,
                  cb, arg};
  e->order = (world->next_order += 2);
  e->base->events.push_back(e);
  return reinterpret_cast<event*>(e);
}
SIM_WRAP(int, event_add, event* ev, const timeval* tv) {
  SIM_PAUSE;
  put(reinterpret_cast<Ev*>(ev), tv);
  return 0;
}
SIM_WRAP(int, event_del, event* ev) {
  SIM_PAUSE;
  auto e = reinterpret_cast<Ev*>(ev);
  e->added = false;
  io_off(e);
  e->deadline = simnet::never;
  return 0;
}
SIM_WRAP(int, event_pending, const event* ev, short events, timeval*) {
  SIM_PAUSE;
  auto e = reinterpret_cast<const Ev*>(ev);
  int r = 0;
  if (e->io) r |= e->events & (EV_READ | EV_WRITE);
  if (e->deadline != simnet::never) r |= EV_TIMEOUT;
  return r & events;
}
SIM_WRAP(void, event_free, event* ev) {
  SIM_PAUSE;
  auto e = reinterpret_cast<Ev*>(ev);
  io_off(e);
  if (e->base) e->base->events.remove(e);
  delete e;
}
SIM_WRAP(int, event_base_once, event_base* base, evutil_socket_t fd,
         short events, event_callback_fn cb, void* arg, const timeval* tv) {
  SIM_PAUSE;
  auto b = reinterpret_cast<Base*>(base);
  auto e = new Ev{b, static_cast<int>(fd), events, cb, arg};
  e->order = (world->next_order += 2) | 1;
  b->events.push_back(e);
  put(e, tv);
  return 0;
}
// --- sockets ---------------------------------------------------------------
SIM_WRAP(int, socket, int family, int type, int protocol) {
  SIM_PAUSE;
  if (!world) return __real_socket(family, type, protocol);
  int r = world->on_socket ? world->on_socket() : 0;
  if (r) {
    errno = r;
    return -1;
  }
  int fd = world->next_fd();
  world->sockets[fd].nonblocking = (type & SOCK_NONBLOCK) != 0;
  return fd;
}
SIM_WRAP(int, fcntl, int fd, int cmd, ...) {
  SIM_PAUSE;
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!world || fd < FirstFd) return __real_fcntl(fd, cmd, arg);
  auto i = world->sockets.find(fd);
  if (i == world->sockets.end()) {
    world->fail("fcntl on a closed socket");
    errno = EBADF;
    return -1;
  }
  if (cmd == F_GETFL) return i->second.nonblocking ? O_NONBLOCK : 0;
  if (cmd == F_SETFL) i->second.nonblocking = (arg & O_NONBLOCK) != 0;
  return 0;
}
SIM_WRAP(int, setsockopt, int fd, int level, int name, const void* v,
         socklen_t n) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_setsockopt(fd, level, name, v, n);
  return 0;
}
SIM_WRAP(int, getsockopt, int fd, int level, int name, void* v, socklen_t* n) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_getsockopt(fd, level, name, v, n);
  auto& s = world->sockets[fd];
  int e = s.connecting && s.peer->connected_at <= now() ? s.peer->connect_error
                                                         : 0;
  if (e) s.peer->refused();
  if (v && n && *n >= sizeof(int)) memcpy(v, &e, sizeof e);
  return 0;
}
SIM_WRAP(int, connect, int fd, const sockaddr* a, socklen_t n) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_connect(fd, a, n);
  auto i = world->sockets.find(fd);
  if (i == world->sockets.end() || i->second.peer) {
    world->fail("connect on a closed or connected socket");
    errno = EBADF;
    return -1;
  }
  if (!i->second.nonblocking) world->fail("connect on a blocking socket");
  ++world->opened;
  i->second.peer = world->on_connect(a, n);
  int r = i->second.peer->connect_result;
  i->second.connecting = r == EINPROGRESS;
  if (!r) {
    i->second.peer->connected_at = now();
    return 0;
  }
  errno = r;
  return -1;
}
SIM_WRAP(int, close, int fd) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_close(fd);
  auto i = world->sockets.find(fd);
  if (i == world->sockets.end()) {
    world->fail("socket closed twice");
    errno = EBADF;
    return -1;
  }
  if (i->second.peer) i->second.peer->closed();
  world->sockets.erase(i);
  forget(fd);
  return 0;
}
static Socket* sim_usable(int fd, const char* what, int* result) {
  auto i = world->sockets.find(fd);
  *result = -1;
  if (i == world->sockets.end()) {
    world->fail(std::string(what) + " on a closed socket");
    errno = EBADF;
    return nullptr;
  }
  Socket& s = i->second;
  if (!s.peer) {
    errno = ENOTCONN;
    return nullptr;
  }
  if (s.connecting) {
    if (now() < s.peer->connected_at) {
      errno = EAGAIN;
      return nullptr;
    }
    if (s.peer->connect_error) {
      errno = s.error_reported ? EPIPE : s.peer->connect_error;
      s.error_reported = true;
      s.peer->refused();
      return nullptr;
    }
    s.connecting = false;
  }
  return &s;
}
static ssize_t sim_write(int fd, const std::string& data, int flags = 0) {
  int r;
  Socket* s = sim_usable(fd, "write", &r);
  if (s) {
    long k = s->peer->write(data);
    if (k >= 0) return k;
    errno = static_cast<int>(-k);
    r = -1;
  }
  // as the kernel does: this ends a process that did not ask otherwise
  if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) {
    raise(SIGPIPE);
    errno = EPIPE;
  }
  return r;
}
static ssize_t sim_read(int fd, void* p, size_t n) {
  int r;
  Socket* s = sim_usable(fd, "read", &r);
  if (!s) return r;
  if (s->peer->readable_at() > now()) {
    errno = EAGAIN;
    return -1;
  }
  long k = s->peer->read(static_cast<char*>(p), n);
  if (k < 0) {
    errno = static_cast<int>(-k);
    return -1;
  }
  return k;
}
SIM_WRAP(ssize_t, writev, int fd, const iovec* v, int n) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_writev(fd, v, n);
  if (n < 0 || n > IOV_MAX) {
    errno = EINVAL;
    return -1;
  }
  std::string s;
  for (int i = 0; i < n; ++i)
    s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return sim_write(fd, s);
}
SIM_WRAP(ssize_t, sendmsg, int fd, const msghdr* m, int flags) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_sendmsg(fd, m, flags);
  std::string s;
  for (size_t i = 0; i < m->msg_iovlen; ++i)
    s.append(static_cast<const char*>(m->msg_iov[i].iov_base),
             m->msg_iov[i].iov_len);
  return sim_write(fd, s, flags);
}
SIM_WRAP(ssize_t, write, int fd, const void* p, size_t n) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_write(fd, p, n);
  return sim_write(fd, std::string(static_cast<const char*>(p), n));
}
SIM_WRAP(ssize_t, send, int fd, const void* p, size_t n, int flags) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_send(fd, p, n, flags);
  return sim_write(fd, std::string(static_cast<const char*>(p), n), flags);
}
SIM_WRAP(ssize_t, read, int fd, void* p, size_t n) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_read(fd, p, n);
  return sim_read(fd, p, n);
}
SIM_WRAP(ssize_t, recv, int fd, void* p, size_t n, int flags) {
  SIM_PAUSE;
  if (!world || fd < FirstFd) return __real_recv(fd, p, n, flags);
  return sim_read(fd, p, n);
}
// A wait on the driver's thread runs the simulation instead.
inline pthread_t sim_driver;
inline bool sim_waits = false;
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                  const timespec*);
static int sim_wait(pthread_mutex_t* m, ns_t deadline) {
  pthread_mutex_unlock(m);
  bool ran = simnet::run(deadline, true);
  pthread_mutex_lock(m);
  return !ran && now() >= deadline ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  clockid_t clock, const timespec* ts) {
  if (!sim_waits || !pthread_equal(pthread_self(), sim_driver))
    return __real_pthread_cond_clockwait(c, m, clock, ts);
  ns_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  return sim_wait(m, t - (clock == CLOCK_MONOTONIC ? vclock::steady_base
                                                   : vclock::system_base));
}
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*,
                                  const timespec*);
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  const timespec* ts) {
  if (!sim_waits || !pthread_equal(pthread_self(), sim_driver))
    return __real_pthread_cond_timedwait(c, m, ts);
  return sim_wait(m, ts->tv_sec * 1000000000ll + ts->tv_nsec -
                         vclock::system_base);
}
}  // extern "C"
#endif
