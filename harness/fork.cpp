// Recorders and fork (P28): trees of forked processes that start, finish and
// flush spans, checked in every process against a model, and, for the stream
// recorder, at a satellite in a process of its own.
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <thread>
#include "http_session.hpp"
#include "recorder/fork_aware_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/tracer_impl.h"
#include "tracing.hpp"

using namespace lightstep;

namespace {
// Seen by every process of a case.
struct Board {
  std::atomic<int> failed;
  char message[900];
  std::atomic<int> done[64];      // the process ran its plan to the end
  std::atomic<int> reliable[64];  // and its last flush succeeded
  void fail(const std::string& m) {
    if (failed.exchange(1) == 0) snprintf(message, sizeof message, "%s", m.c_str());
  }
};
struct BoardHolder {
  Board* b;
  BoardHolder() {
    b = static_cast<Board*>(mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (b == MAP_FAILED) abort();
  }
  ~BoardHolder() { munmap(b, sizeof(Board)); }
};

// What each process does is drawn before the first fork, so that a case is a
// function of one sequence of choices.
struct Node;
struct Step {
  int kind = 0, a = 0, b = 0;
  std::unique_ptr<Node> child;
};
struct Node {
  int id = 0;
  std::vector<Step> steps;
};

// Runs `body` in a child; the caller waits for it later.
template <class F>
pid_t in_child(Board* b, int id, F body) {
  fflush(stdout);
  pid_t p = fork();
  if (p != 0) return p;
  try {
    body();
  } catch (const pbt::Failure& f) {
    b->fail("process " + std::to_string(id) + ": " + f.message);
  } catch (const std::exception& e) {
    b->fail("process " + std::to_string(id) + ": exception " + e.what());
  }
  b->done[id] = 1;
  _exit(0);
}
void wait_child(Board* b, pid_t p, int id) {
  int st = 0;
  if (p < 0) return;
  if (waitpid(p, &st, 0) != p) return;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !b->done[id])
    b->fail("process " + std::to_string(id) + " died, status " + std::to_string(st));
}
void expect(bool ok, const std::string& m) {
  if (!ok) throw pbt::Failure{m};
}
}  // namespace

// ---------------------------------------------------------------------------
// Handlers: each active recorder hears of each fork once, before and after.
namespace {
struct Probe : ForkAwareRecorder {
  int prepared = 0, parent = 0, child = 0;
  std::vector<std::pair<int, const void*>>* log;
  explicit Probe(std::vector<std::pair<int, const void*>>* l) : log(l) {}
  void PrepareForFork() noexcept override {
    ++prepared;
    log->emplace_back(0, this);
  }
  void OnForkedParent() noexcept override {
    ++parent;
    log->emplace_back(1, this);
  }
  void OnForkedChild() noexcept override {
    ++child;
    log->emplace_back(2, this);
  }
};
struct World {
  std::vector<std::pair<int, const void*>> log;
  std::vector<std::unique_ptr<Probe>> probes;
  void audit() {
    auto active = ForkAwareRecorder::GetActiveRecordersForTesting();
    std::multiset<const void*> a(active.begin(), active.end()), m;
    for (auto& p : probes) m.insert(static_cast<const ForkAwareRecorder*>(p.get()));
    expect(a == m, "active recorders: " + std::to_string(a.size()) + ", expected " +
                       std::to_string(m.size()));
  }
};
void draw_handlers(pbt::Case& c, Node& n, int depth, int& ids) {
  n.id = ids++;
  int k = c.range(1, depth ? 7 : 14);
  for (int i = 0; i < k; ++i) {
    n.steps.emplace_back();
    auto& s = n.steps.back();
    s.kind = static_cast<int>(c.weighted({5, 3, depth < 3 && ids < 40 ? 3u : 0u}));
    s.a = static_cast<int>(c.draw(7));
    if (s.kind == 2) {
      s.child.reset(new Node);
      c.note("fork{");
      draw_handlers(c, *s.child, depth + 1, ids);
      c.note("} ");
      if (i > 1) c.nontrivial();
    } else {
      c.note(s.kind ? "destroy " : "create ");
    }
  }
}
void run_handlers(Board* b, World& w, const Node& n) {
  for (auto& s : n.steps) {
    switch (s.kind) {
      case 0:
        w.probes.emplace_back(new Probe(&w.log));
        break;
      case 1:
        if (!w.probes.empty())
          w.probes.erase(w.probes.begin() + s.a % w.probes.size());
        break;
      case 2: {
        w.log.clear();
        for (auto& p : w.probes) p->prepared = p->parent = p->child = 0;
        auto after = [&](bool child) {
          for (auto& p : w.probes) {
            expect(p->prepared == 1, "prepared " + std::to_string(p->prepared) + " times for a fork");
            expect(p->parent == (child ? 0 : 1), "parent handler called " + std::to_string(p->parent) + " times");
            expect(p->child == (child ? 1 : 0), "child handler called " + std::to_string(p->child) + " times");
          }
          expect(w.log.size() == 2 * w.probes.size(), "handlers of destroyed recorders called");
          for (size_t i = 0; i < w.probes.size(); ++i)
            expect(w.log[i].first == 0, "a recorder was not prepared before the fork");
        };
        pid_t p = in_child(b, s.child->id, [&] {
          after(true);
          w.audit();
          run_handlers(b, w, *s.child);
          w.probes.clear();
          w.audit();
        });
        if (p > 0) after(false);
        wait_child(b, p, s.child->id);
        break;
      }
    }
    w.audit();
  }
}
}  // namespace

PROPERTY(fork_handlers) {
  BoardHolder board;
  Node root;
  int ids = 0;
  draw_handlers(c, root, 0, ids);
  {
    World w;
    run_handlers(board.b, w, root);
    w.probes.clear();
    w.audit();
  }
  c.check(!board.b->failed, board.b->message);
}

// ---------------------------------------------------------------------------
// Manual tracers: every process reports its own spans and drops, once.
namespace {
struct ManualSut {
  std::shared_ptr<tracing::Sink> sink = std::make_shared<tracing::Sink>();
  std::shared_ptr<LightStepTracer> tracer;
  size_t max = 0;
  std::vector<std::string> buffered;
  int64_t dropped = 0;
};
struct OpenSpan {
  int tracer;
  std::unique_ptr<opentracing::Span> span;
};
struct ManualWorld {
  std::vector<ManualSut> suts;
  std::vector<OpenSpan> open;
  std::set<uint64_t> ids;  // span ids started by this process
  int spans = 0;
};
int64_t dropped_in(const collector::ReportRequest& r) {
  int64_t n = 0;
  for (auto& k : r.internal_metrics().counts())
    if (k.name() == "spans.dropped") n += k.int_value();
  return n;
}
void draw_manual(pbt::Case& c, Node& n, int depth, int& ids) {
  n.id = ids++;
  int k = c.range(1, depth ? 10 : 20);
  for (int i = 0; i < k; ++i) {
    n.steps.emplace_back();
    auto& s = n.steps.back();
    s.kind = static_cast<int>(c.weighted({4, 4, 3, depth < 3 && ids < 20 ? 2u : 0u}));
    s.a = static_cast<int>(c.draw(9));
    s.b = static_cast<int>(c.draw(9));
    static const char* const names[] = {"start ", "finish ", "flush ", "fork{"};
    c.note(names[s.kind]);
    if (s.kind == 3) {
      s.child.reset(new Node);
      draw_manual(c, *s.child, depth + 1, ids);
      c.note("} ");
      if (i > 2) c.nontrivial();
    } else {
      c.note(s.a, " ");
    }
  }
}
void flush_manual(ManualSut& t) {
  t.sink->reports.clear();
  expect(t.tracer->Flush(), "flush failed");
  expect(t.sink->error.empty(), t.sink->error);
  if (t.buffered.empty() && t.dropped == 0) {
    expect(t.sink->reports.empty(), "a report of nothing");
    return;
  }
  expect(t.sink->reports.size() == 1, std::to_string(t.sink->reports.size()) + " reports for a flush");
  auto& r = t.sink->reports[0];
  std::vector<std::string> got;
  for (auto& s : r.spans()) got.push_back(s.operation_name());
  std::string a, b;
  for (auto& x : got) a += x + " ";
  for (auto& x : t.buffered) b += x + " ";
  expect(got == t.buffered, "reported [" + a + "], expected [" + b + "]");
  expect(dropped_in(r) == t.dropped, "reported " + std::to_string(dropped_in(r)) +
                                         " dropped spans, expected " + std::to_string(t.dropped));
  t.buffered.clear();
  t.dropped = 0;
}
void run_manual(Board* b, ManualWorld& w, const Node& n) {
  std::vector<std::pair<pid_t, int>> children;
  for (auto& s : n.steps) {
    switch (s.kind) {
      case 0: {
        int t = s.a % w.suts.size();
        opentracing::StartSpanOptions o;
        auto span = w.suts[t].tracer->StartSpan("?");
        expect(span != nullptr, "no span");
        if (w.open.size() < 8) w.open.push_back(OpenSpan{t, std::move(span)});
        else {
          // finish it at once
          auto& x = w.suts[t];
          std::string name = std::to_string(n.id) + "." + std::to_string(w.spans++);
          span->SetOperationName(name);
          span->Finish();
          if (x.buffered.size() < x.max) x.buffered.push_back(name);
          else ++x.dropped;
        }
        break;
      }
      case 1: {
        if (w.open.empty()) break;
        auto it = w.open.begin() + s.a % w.open.size();
        auto& x = w.suts[it->tracer];
        std::string name = std::to_string(n.id) + "." + std::to_string(w.spans++);
        it->span->SetOperationName(name);
        it->span->Finish();
        w.open.erase(it);
        if (x.buffered.size() < x.max) x.buffered.push_back(name);
        else ++x.dropped;
        break;
      }
      case 2:
        flush_manual(w.suts[s.a % w.suts.size()]);
        break;
      case 3: {
        pid_t p = in_child(b, s.child->id, [&] {
          // what was buffered or dropped before belongs to the parent
          for (auto& t : w.suts) {
            t.buffered.clear();
            t.dropped = 0;
          }
          if (s.b & 1) for (auto& t : w.suts) flush_manual(t);
          run_manual(b, w, *s.child);
          for (auto& t : w.suts) flush_manual(t);
        });
        if (s.b & 2) wait_child(b, p, s.child->id);
        else children.emplace_back(p, s.child->id);
        break;
      }
    }
  }
  for (auto& t : w.suts) flush_manual(t);
  for (auto& x : children) wait_child(b, x.first, x.second);
}
}  // namespace

PROPERTY(manual_fork) {
  BoardHolder board;
  Node root;
  int ids = 0;
  int tracers = c.range(1, 3);
  ManualWorld w;
  for (int i = 0; i < tracers; ++i) {
    w.suts.emplace_back();
    auto& t = w.suts.back();
    t.max = c.range(1, 6);
    LightStepTracerOptions o;
    o.use_thread = false;
    o.access_token = "t";
    o.max_buffered_spans = t.max;
    o.transporter.reset(new tracing::Manual(t.sink));
    o.logger_sink = [](LogLevel, opentracing::string_view) {};
    t.tracer = MakeLightStepTracer(std::move(o));
    c.check(t.tracer != nullptr, "no tracer");
  }
  draw_manual(c, root, 0, ids);
  run_manual(board.b, w, root);
  c.check(!board.b->failed, board.b->message);
}

// ---------------------------------------------------------------------------
// The stream recorder over loopback, with the satellite in another process.
namespace {
// Reads every connection to its end; answers 200 when a request is complete.
// Ends when `control` is closed by everybody else and no connection is left.
// Connections are refused for the first `delay` milliseconds.
void satellite(int listener, int control, int result, int delay) {
  if (delay) std::this_thread::sleep_for(std::chrono::milliseconds{delay});
  if (listen(listener, 256) != 0) _exit(1);
  struct Conn {
    int fd;
    std::string bytes;
    bool answered;
  };
  std::vector<Conn> conns;
  bool more = true;
  double quiet = 0;
  std::string out;
  auto u32 = [&](uint32_t n) { out.append(reinterpret_cast<char*>(&n), 4); };
  uint32_t count = 0;
  std::string all;
  while (true) {
    std::vector<pollfd> fds;
    fds.push_back({listener, POLLIN, 0});
    if (more) fds.push_back({control, POLLIN, 0});
    size_t base = fds.size();
    for (auto& x : conns) fds.push_back({x.fd, POLLIN, 0});
    int r = poll(fds.data(), fds.size(), more ? -1 : 20);
    if (r < 0) continue;
    if (r == 0 && conns.empty()) break;
    if (r == 0 && (quiet += 0.02) > 8) break;
    if (more && fds[1].revents) more = false;
    for (size_t i = fds.size(); i-- > base;) {
      if (!fds[i].revents) continue;
      auto& x = conns[i - base];
      char buf[65536];
      ssize_t n = recv(x.fd, buf, sizeof buf, 0);
      bool end = n <= 0;
      if (n > 0) {
        x.bytes.append(buf, n);
        if (!x.answered && x.bytes.size() > 7 &&
            x.bytes.compare(x.bytes.size() - 7, 7, "\r\n0\r\n\r\n") == 0) {
          static const char ok[] =
              "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
          send(x.fd, ok, sizeof ok - 1, MSG_NOSIGNAL);
          shutdown(x.fd, SHUT_WR);
          x.answered = true;
        }
      }
      if (end) {
        close(x.fd);
        ++count;
        u32(static_cast<uint32_t>(x.bytes.size()));
        out += x.bytes;
        conns.erase(conns.begin() + (i - base));
      }
    }
    if (fds[0].revents & POLLIN) {
      int fd = accept(listener, nullptr, nullptr);
      if (fd >= 0) conns.push_back(Conn{fd, "", false});
    }
  }
  for (auto& x : conns) {
    u32(static_cast<uint32_t>(x.bytes.size()));
    out += x.bytes;
  }
  size_t done = 0;
  while (done < out.size()) {
    ssize_t n = write(result, out.data() + done, out.size() - done);
    if (n <= 0) break;
    done += n;
  }
  _exit(0);
}

struct StreamWorld {
  std::shared_ptr<LightStepTracer> tracer;
  std::vector<std::unique_ptr<opentracing::Span>> open;
  int control = -1;
};
// The spans each process finishes follow from the plan.
void draw_stream(pbt::Case& c, Node& n, int depth, int& ids, int open,
                 std::vector<int>& finished) {
  n.id = ids++;
  finished.push_back(0);
  int k = c.range(1, depth ? 5 : 9), mine = 0;
  bool had = false;
  for (int i = 0; i < k; ++i) {
    n.steps.emplace_back();
    auto& s = n.steps.back();
    s.kind = static_cast<int>(c.weighted({4, 2, 3, 2, 2, depth < 2 && ids < 6 ? 4u : 0u}));
    s.a = static_cast<int>(c.range(1, 6));
    s.b = static_cast<int>(c.draw(3));
    switch (s.kind) {
      case 0:
        mine += s.a;
        had = true;
        c.note(s.a, " spans, ");
        break;
      case 1:
        ++open;
        c.note("start, ");
        break;
      case 2:
        if (open > 0) {
          --open;
          ++mine;
        }
        c.note("finish, ");
        break;
      case 3: c.note("flush, "); break;
      case 4: c.note("sleep ", s.a, ", "); break;
      case 5:
        s.child.reset(new Node);
        c.note("fork{");
        draw_stream(c, *s.child, depth + 1, ids, open, finished);
        c.note("} ");
        if (had) c.nontrivial();
        break;
    }
  }
  // how it ends
  n.steps.emplace_back();
  n.steps.back().kind = 6;
  n.steps.back().a = static_cast<int>(c.weighted({3, 3, 1}));
  static const char* const ends[] = {"flush+end", "close+end", "end"};
  c.note(ends[n.steps.back().a]);
  finished[n.id] = mine;
}
void run_stream(Board* b, StreamWorld& w, const Node& n) {
  std::vector<std::pair<pid_t, int>> children;
  int made = 0;
  auto finish = [&](opentracing::Span& s) {
    s.SetOperationName("s" + std::to_string(n.id) + "." + std::to_string(made++));
    s.Finish();
  };
  for (auto& s : n.steps) {
    switch (s.kind) {
      case 0:
        for (int i = 0; i < s.a; ++i) finish(*w.tracer->StartSpan("?"));
        break;
      case 1: w.open.push_back(w.tracer->StartSpan("?")); break;
      case 2:
        if (!w.open.empty()) {
          finish(*w.open.back());
          w.open.pop_back();
        }
        break;
      case 3: w.tracer->FlushWithTimeout(std::chrono::seconds{5}); break;
      case 4: std::this_thread::sleep_for(std::chrono::milliseconds{s.a * s.b}); break;
      case 5: {
        pid_t p = in_child(b, s.child->id, [&] { run_stream(b, w, *s.child); });
        if (s.b & 1) wait_child(b, p, s.child->id);
        else children.emplace_back(p, s.child->id);
        break;
      }
      case 6:
        // spans that are not finished hold on to the tracer; the copy of a
        // parent's span is not this process's to report
        if (s.a < 2 && w.tracer->FlushWithTimeout(std::chrono::seconds{10}))
          b->reliable[n.id] = 1;
        if (s.a == 1) w.tracer->Close();
        break;
    }
  }
  for (auto& x : children) wait_child(b, x.first, x.second);
}
}  // namespace

PROPERTY(stream_fork, p.concurrent = true; p.hang_seconds = 60;) {
  BoardHolder board;
  Node root;
  int ids = 0;
  std::vector<int> finished;
  draw_stream(c, root, 0, ids, 0, finished);
  int period = c.range(1, 20);
  int delay = c.boolean() ? 0 : static_cast<int>(c.range(1, 40));
  c.note(" period=", period, " refused for ", delay, " ms");

  int listener = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in addr{};
  addr.sin_family = AF_INET;
  addr.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t len = sizeof addr;
  if (listener < 0 || bind(listener, reinterpret_cast<sockaddr*>(&addr), len) != 0 ||
      getsockname(listener, reinterpret_cast<sockaddr*>(&addr), &len) != 0) {
    if (listener >= 0) close(listener);
    c.exclude("no loopback socket");
    return;
  }
  int control[2], result[2];
  if (pipe(control) != 0 || pipe(result) != 0) abort();
  fflush(stdout);
  pid_t server = fork();
  if (server == 0) {
    close(control[1]);
    close(result[0]);
    signal(SIGPIPE, SIG_IGN);
    satellite(listener, control[0], result[1], delay);
    _exit(0);
  }
  close(listener);
  close(control[0]);
  close(result[1]);

  std::string failure;
  {
    StreamWorld w;
    w.control = control[1];
    LightStepTracerOptions o;
    o.use_stream_recorder = true;
    o.collector_plaintext = true;
    o.access_token = "t";
    o.reporting_period = std::chrono::milliseconds{period};
    o.max_buffered_spans = static_cast<size_t>(1000);
    o.satellite_endpoints = {{"127.0.0.1", ntohs(addr.sin_port)}};
    o.logger_sink = [](LogLevel, opentracing::string_view) {};
    // As MakeLightStepTracer does, but reconnecting after milliseconds.
    StreamRecorderOptions r;
    r.satellite_failure_retry_period = std::chrono::milliseconds{3};
    auto logger = std::make_shared<Logger>(std::move(o.logger_sink));
    logger->set_level(LogLevel::off);
    auto propagation = MakePropagationOptions(o);
    std::unique_ptr<Recorder> recorder{
        new StreamRecorder{*logger, std::move(o), std::move(r)}};
    w.tracer.reset(new TracerImpl{std::move(logger), std::move(propagation),
                                  std::move(recorder)});
    try {
      run_stream(board.b, w, root);
    } catch (const pbt::Failure& f) {
      failure = f.message;
    }
    // Spans left open here are reported when they are destroyed; do it before
    // the tracer goes, under a name that is not counted.
    for (auto& s : w.open) s->SetOperationName("open");
    w.open.clear();
    w.tracer.reset();
  }
  close(control[1]);
  std::string bytes;
  char buf[65536];
  ssize_t n;
  while ((n = read(result[0], buf, sizeof buf)) > 0) bytes.append(buf, n);
  close(result[0]);
  waitpid(server, nullptr, 0);
  c.check(failure.empty(), failure);
  c.check(!board.b->failed, board.b->message);

  std::map<std::string, int> seen;
  size_t pos = 0;
  int sessions = 0;
  while (pos + 4 <= bytes.size()) {
    uint32_t size;
    memcpy(&size, bytes.data() + pos, 4);
    std::string session = bytes.substr(pos + 4, size);
    pos += 4 + size;
    size_t header = session.find("\r\n\r\n");
    if (header == std::string::npos) continue;
    ++sessions;
    auto d = http_session::decode(session, session.substr(0, header + 4));
    c.check(d.error.empty(), "session: ", d.error);
    c.equal(d.drops(), static_cast<int64_t>(0), "dropped spans reported");
    std::set<std::string> owners;
    for (auto& name : d.spans) {
      if (name[0] != 's') continue;
      ++seen[name];
      owners.insert(name.substr(0, name.find('.')));
    }
    c.check(owners.size() <= 1, "one connection carries the spans of ", owners.size(),
            " processes");
  }
  for (int i = 0; i < ids; ++i) {
    bool sure = board.b->reliable[i];
    c.classify(sure ? "flushed process" : "process that was not flushed");
    for (int k = 0; k < finished[i]; ++k) {
      std::string name = "s" + std::to_string(i) + "." + std::to_string(k);
      int times = seen.count(name) ? seen[name] : 0;
      seen.erase(name);
      c.check(times <= 1, "span ", name, " arrived ", times, " times");
      if (sure) c.equal(times, 1, "arrivals of span " + name);
    }
  }
  c.check(seen.empty(), "an unknown span arrived: ", seen.empty() ? "" : seen.begin()->first);
  c.classify(ids == 1 ? "one process" : ids < 4 ? "2-3 processes" : "4-6 processes");
}
