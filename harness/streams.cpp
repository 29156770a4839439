// P02 chained output stream, P03 fragment streams, P04 vectored writes,
// P05 report requests.
#include "pbt.hpp"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <memory>
#include <array>
#include <google/protobuf/io/coded_stream.h>
#include "common/chained_stream.h"
#include "common/fragment_array_input_stream.h"
#include "common/in_memory_stream.h"
#include "common/report_request_framing.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "network/vector_write.h"
#include "recorder/serialization/report_request.h"
using namespace lightstep;

namespace {
std::string content(const FragmentInputStream& s, int* count = nullptr) {
  std::string r;
  int n = 0;
  s.ForEachFragment([&](void* data, int size) {
    if (size < 0 || size > 1 << 28) throw pbt::Failure{"fragment of size " + std::to_string(size)};
    r.append(static_cast<char*>(data), size);
    ++n;
    return true;
  });
  if (count) *count = n;
  return r;
}
std::vector<int> sizes(const FragmentInputStream& s) {
  std::vector<int> r;
  s.ForEachFragment([&](void*, int size) {
    r.push_back(size);
    return true;
  });
  return r;
}

// Writes generated content in generated ways; returns what was written.
std::string fill(pbt::Case& c, ChainedStream& s, int max_ops, int* backups,
                 bool* crossed) {
  std::string m;
  std::string trace = "write";
  int ops = c.range(0, max_ops);
  for (int i = 0; i < ops; ++i) {
    switch (c.draw(3)) {
      case 0:
      case 1: {  // Next, perhaps BackUp
        void* data = nullptr;
        int size = -1;
        c.check(s.Next(&data, &size), "Next failed");
        c.check(size > 0, "Next returned size ", size);
        c.check(data != nullptr, "Next returned no buffer");
        int used;
        switch (c.draw(4)) {
          case 0: used = 0; break;
          case 1: used = size; break;
          case 2: used = std::min(size, 1); break;
          case 3: used = size - 1; break;
          default: used = c.range(0, size);
        }
        std::string b = c.bytes(size);
        memcpy(data, b.data(), size);
        c.equal(static_cast<long>(s.ByteCount()),
                static_cast<long>(m.size() + size), "ByteCount after Next");
        if (used != size || c.chance(1, 4)) {
          s.BackUp(size - used);
          if (used != size) ++*backups;
        }
        m.append(b.data(), used);
        trace += " n" + std::to_string(used) + "/" + std::to_string(size);
        break;
      }
      case 2: {  // a coded stream
        google::protobuf::io::CodedOutputStream cs{&s};
        int k = c.range(1, 4);
        for (int j = 0; j < k; ++j) {
          if (c.boolean()) {
            size_t n = c.pick({1, 7, 255, 256, 257, 600});
            n = c.range(0, n);
            std::string b = c.bytes(n);
            cs.WriteRaw(b.data(), static_cast<int>(n));
            m += b;
            trace += " r" + std::to_string(n);
          } else {
            uint64_t v = c.u64();
            cs.WriteVarint64(v);
            while (v >= 128) {
              m.push_back(static_cast<char>(v | 128));
              v >>= 7;
            }
            m.push_back(static_cast<char>(v));
            trace += " v";
          }
        }
        break;
      }
      default: {  // a string of a round size
        size_t n = c.pick({256, 512, 255, 1});
        std::string b = c.bytes(n);
        google::protobuf::io::CodedOutputStream cs{&s};
        cs.WriteString(b);
        m += b;
        trace += " s" + std::to_string(n);
      }
    }
    c.equal(static_cast<long>(s.ByteCount()), static_cast<long>(m.size()),
            "ByteCount");
  }
  *crossed |= m.size() > ChainedStream::BlockSize;
  c.note(trace);
  return m;
}

// Checks one stream against the bytes it should hold.
void agree(pbt::Case& c, const FragmentInputStream& s, const std::string& m,
           const char* what) {
  int count = 0;
  std::string got = content(s, &count);
  if (got != m) {
    size_t k = 0;
    while (k < got.size() && k < m.size() && got[k] == m[k]) ++k;
    c.fail(what, ": content differs at byte ", k, " (", got.size(), " bytes, ",
           m.size(), " expected)");
  }
  c.equal(s.num_fragments(), count, std::string(what) + ": num_fragments");
  c.equal(s.empty(), count == 0, std::string(what) + ": empty");
}

// Iteration may be stopped by the callback after any fragment.
void stop_early(pbt::Case& c, const FragmentInputStream& s) {
  int n = s.num_fragments();
  if (n == 0) return;
  int stop = c.range(1, n), k = 0;
  bool r = s.ForEachFragment([&](void*, int) { return ++k != stop; });
  c.equal(k, stop, "fragments visited before the callback stopped");
  c.equal(r, false, "result of an interrupted iteration");
  c.check(s.ForEachFragment([&](void*, int) { return true; }),
          "uninterrupted iteration reported an interruption");
}

// Moves forward by a number of bytes or by fragment and position.
bool advance(pbt::Case& c, FragmentInputStream& s, std::string& m,
             const char* what) {
  switch (c.weighted({4, 3, 1})) {
    case 0: {
      size_t n = c.chance(1, 5) ? m.size()
                                : std::min<size_t>(c.size(m.size()), m.size());
      bool done = Consume({&s}, static_cast<int>(n));
      c.note(what, " consume ", n);
      c.equal(done, n == m.size(), "Consume of " + std::to_string(n) + " of " +
                                       std::to_string(m.size()));
      m.erase(0, n);
      return n > 0;
    }
    case 1: {
      auto sz = sizes(s);
      std::vector<int> ok;
      for (size_t i = 0; i < sz.size(); ++i) {
        if (sz[i] > 0) ok.push_back(i);
      }
      if (ok.empty()) return false;
      int f = ok[c.draw(ok.size() - 1)];
      int pos = c.range(0, sz[f] - 1);
      c.note(what, " seek ", f, ",", pos);
      s.Seek(f, pos);
      size_t n = pos;
      for (int i = 0; i < f; ++i) n += sz[i];
      m.erase(0, n);
      return n > 0;
    }
    default:
      c.note(what, " clear");
      s.Clear();
      m.clear();
      return false;
  }
}

//------------------------------------------------------------------------ P02
PROPERTY(chained_stream, p.check_memory = true;) {
  int backups = 0;
  bool crossed = false;
  std::unique_ptr<ChainedStream> s{new ChainedStream};
  std::string m = fill(c, *s, 12, &backups, &crossed);
  s->CloseOutput();
  agree(c, *s, m, "after closing");
  stop_early(c, *s);
  int steps = c.range(0, 6);
  bool moved = false;
  for (int i = 0; i < steps; ++i) {
    moved |= advance(c, *s, m, "");
    agree(c, *s, m, "after repositioning");
    stop_early(c, *s);
  }
  if (crossed && backups > 0) c.nontrivial();
  c.classify("more than one block", crossed);
  c.classify("backed up", backups > 0);
  c.classify("repositioned inside", moved);
  c.classify("nothing written", m.empty() && !moved);
}

//------------------------------------------------------------------------ P03
struct Built {
  std::string kind;
  std::unique_ptr<FragmentInputStream> stream;
  std::vector<std::unique_ptr<std::string>> storage;
  std::string bytes;
};
Built make_stream(pbt::Case& c) {
  Built b;
  if (c.boolean()) {
    b.kind = "array";
    auto s = new FragmentArrayInputStream;
    b.stream.reset(s);
    int n = c.range(0, 8);
    bool zero = c.chance(1, 4);
    std::string t;
    if (c.boolean()) s->Reserve(n);
    for (int i = 0; i < n; ++i) {
      std::string x = c.bytes(c.range(zero ? 0 : 1, 20));
      b.storage.emplace_back(new std::string(x));
      b.bytes += x;
      t += " " + std::to_string(x.size());
      s->Add(Fragment{&(*b.storage.back())[0], static_cast<int>(x.size())});
    }
    c.note("array", t);
  } else {
    b.kind = "chain";
    // appended in any grouping: the order of the bytes is the same
    std::vector<std::unique_ptr<ChainedStream>> list;
    int n = c.range(1, 6);
    for (int i = 0; i < n; ++i) {
      int k = 0;
      bool x = false;
      std::unique_ptr<ChainedStream> s{new ChainedStream};
      auto bytes = fill(c, *s, 3, &k, &x);
      s->CloseOutput();
      if (c.chance(1, 6)) advance(c, *s, bytes, "link");
      b.bytes += bytes;
      list.push_back(std::move(s));
    }
    bool left = c.boolean();
    std::string order;
    while (list.size() > 1) {
      size_t i = left ? 0 : c.draw(list.size() - 2);
      order += " " + std::to_string(i);
      list[i]->Append(std::move(list[i + 1]));
      list.erase(list.begin() + i + 1);
    }
    c.note("appended in order", order);
    b.stream = std::move(list[0]);
  }
  return b;
}
PROPERTY(fragment_streams, p.check_memory = true;) {
  int n = c.range(1, 4);
  std::vector<Built> v;
  size_t total = 0;
  for (int i = 0; i < n; ++i) {
    v.push_back(make_stream(c));
    total += v.back().bytes.size();
    agree(c, *v.back().stream, v.back().bytes, "new stream");
    stop_early(c, *v.back().stream);
  }
  int steps = c.range(1, 8);
  bool inside = false;
  for (int i = 0; i < steps; ++i) {
    if (c.boolean()) {
      int j = c.draw(n - 1);
      advance(c, *v[j].stream, v[j].bytes, v[j].kind.c_str());
    } else {  // consume across all of them
      size_t left = 0;
      for (auto& b : v) left += b.bytes.size();
      size_t k = c.range(0, left);
      if (c.chance(1, 5)) {  // right at a boundary between streams
        k = 0;
        int upto = c.range(0, n);
        for (int j = 0; j < upto; ++j) k += v[j].bytes.size();
      }
      c.note("consume ", k, " of ", left, " across ", n);
      bool done;
      switch (n) {
        case 1: done = Consume({v[0].stream.get()}, k); break;
        case 2: done = Consume({v[0].stream.get(), v[1].stream.get()}, k);
          break;
        case 3: done = Consume({v[0].stream.get(), v[1].stream.get(),
                                v[2].stream.get()}, k);
          break;
        default: done = Consume({v[0].stream.get(), v[1].stream.get(),
                                 v[2].stream.get(), v[3].stream.get()}, k);
      }
      c.equal(done, k == left, "Consume result");
      inside |= k > 0 && k < left;
      for (auto& b : v) {
        size_t x = std::min(k, b.bytes.size());
        b.bytes.erase(0, x);
        k -= x;
      }
    }
    for (auto& b : v) {
      agree(c, *b.stream, b.bytes, b.kind.c_str());
      stop_early(c, *b.stream);
    }
    // an array stream can be assigned at any time and refilled when cleared
    for (auto& b : v) {
      if (b.kind == "array" && c.chance(1, 4)) {
        auto s = static_cast<FragmentArrayInputStream*>(b.stream.get());
        std::string x = c.bytes(c.range(1, 9)), y = c.bytes(c.range(1, 9));
        b.storage.emplace_back(new std::string(x));
        Fragment f{&(*b.storage.back())[0], static_cast<int>(x.size())};
        b.storage.emplace_back(new std::string(y));
        Fragment g{&(*b.storage.back())[0], static_cast<int>(y.size())};
        bool assign = c.boolean();
        c.note(assign ? "assign " : "refill ", x.size());
        if (assign) {
          *s = {f, g};
        } else {
          s->Clear();
          s->Add(f);
          s->Add(g);
        }
        b.bytes = x + y;
        agree(c, *b.stream, b.bytes, "refilled array");
      }
    }
  }
  if (total > 20 && inside) c.nontrivial();
}
// An input stream over memory yields exactly that memory.
PROPERTY(memory_stream) {
  std::string b = c.bytes(c.size(400));
  in_memory_stream is{b.data(), b.size()};
  std::string got;
  c.note(b.size(), " bytes");
  while (is.good() && got.size() <= b.size()) {
    if (c.boolean()) {
      char ch;
      if (is.get(ch)) got += ch;
    } else {
      char buf[64];
      is.read(buf, c.range(1, 64));
      got.append(buf, is.gcount());
    }
  }
  c.equal(got, b, "bytes read");
  c.check(is.eof(), "no end of stream");
  if (b.size() > 10) c.nontrivial();
}
PROPERTY(c_string_fragment) {
  std::string b = c.over("ab/: \xff\x01", c.size(40));
  auto f = MakeFragment(b.c_str());
  c.equal(f.second, static_cast<int>(b.size()), "fragment length");
  c.check(f.first == b.c_str(), "fragment start");
  if (!b.empty()) c.nontrivial();
}

//------------------------------------------------------------------------ P04
struct Net {
  bool on = false;
  int fd = -1;
  std::string accepted;
  pbt::Case* c = nullptr;
  int mode = 0;   // which outcomes are generated
  int calls = 0, shorts = 0, blocks = 0, errors = 0, after_stop = 0;
  int max_iov = 0;
  bool stopped = false;
  void begin() {
    stopped = false;
    calls = shorts = blocks = errors = after_stop = 0;
  }
} net;

ssize_t mock_send(const struct iovec* iov, int n, int flags = 0) {
  auto& c = *net.c;
  ++net.calls;
  if (net.stopped) ++net.after_stop;
  net.max_iov = std::max(net.max_iov, n);
  if (n > IOV_MAX || n < 0) {
    errno = EINVAL;
    ++net.errors;
    net.stopped = true;
    return -1;
  }
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += iov[i].iov_len;
  size_t take = total;
  switch (c.weighted({6, net.mode >= 1 ? 4u : 0u, net.mode >= 1 ? 2u : 0u,
                      net.mode >= 2 ? 2u : 0u})) {
    case 0: break;
    case 1: {
      if (c.chance(1, 3) && n > 1) {  // exactly at a fragment boundary
        int k = c.range(0, n - 1);
        take = 0;
        for (int i = 0; i < k; ++i) take += iov[i].iov_len;
      } else {
        take = c.range(0, total);
      }
      if (take == 0 && total > 0) take = 1;
      break;
    }
    case 2:
      ++net.blocks;
      net.stopped = true;
      errno = c.boolean() ? EAGAIN : EWOULDBLOCK;
      return -1;
    default:
      ++net.errors;
      net.stopped = true;
      errno = c.pick({EPIPE, ECONNRESET, EBADF, ENOTCONN});
      // as the kernel does: this ends a process that did not ask otherwise
      if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) {
        raise(SIGPIPE);
        errno = EPIPE;
      }
      return -1;
  }
  if (take < total) {
    ++net.shorts;
    net.stopped = true;
  }
  size_t left = take;
  for (int i = 0; i < n && left > 0; ++i) {
    size_t k = std::min(left, iov[i].iov_len);
    net.accepted.append(static_cast<char*>(iov[i].iov_base), k);
    left -= k;
  }
  return static_cast<ssize_t>(take);
}
}  // namespace

extern "C" {
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_writev(int fd, const struct iovec* iov, int n) {
  if (net.on && fd == net.fd) return mock_send(iov, n);
  return __real_writev(fd, iov, n);
}
ssize_t __real_sendmsg(int, const struct msghdr*, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int flags) {
  if (net.on && fd == net.fd) {
    return mock_send(m->msg_iov, static_cast<int>(m->msg_iovlen), flags);
  }
  return __real_sendmsg(fd, m, flags);
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (net.on && fd == net.fd) {
    struct iovec v = {const_cast<void*>(b), n};
    return mock_send(&v, 1);
  }
  return __real_write(fd, b, n);
}
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
  if (net.on && fd == net.fd) {
    struct iovec v = {const_cast<void*>(b), n};
    return mock_send(&v, 1, f);
  }
  return __real_send(fd, b, n, f);
}
}

namespace {
void run_writes(pbt::Case& c, bool real) {
  int n = c.range(1, 3);
  std::vector<Built> v;
  std::string all;
  int fragments = 0;
  bool many = c.chance(1, 4);
  int many_at = c.draw(n - 1);
  for (int i = 0; i < n; ++i) {
    if (many && i == many_at) {
      Built b;
      b.kind = "many";
      auto s = new FragmentArrayInputStream;
      b.stream.reset(s);
      int k = c.pick({1023, 1024, 1025, 1100, 2047, 2048, 2049, 2500});
      uint64_t x = c.draw(~0ull);
      for (int j = 0; j < k; ++j) {
        x = pbt::mix(x);
        b.storage.emplace_back(
            new std::string(1 + x % 3, static_cast<char>('a' + x % 26)));
        b.bytes += *b.storage.back();
        s->Add(Fragment{&(*b.storage.back())[0],
                        static_cast<int>(b.storage.back()->size())});
      }
      c.note("array of ", k);
      v.push_back(std::move(b));
    } else {
      v.push_back(make_stream(c));
    }
    all += v.back().bytes;
    fragments += v.back().stream->num_fragments();
  }
  int fds[2] = {-1, -1};
  if (real) {
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fds)) c.fail("socketpair");
    int small = 2048;
    setsockopt(fds[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
    net.on = false;
  } else {
    net = Net{};
    net.on = true;
    net.fd = 12345;
    net.c = &c;
    net.mode = c.draw(2);
    c.note("mode ", net.mode);
  }
  std::string drained;
  auto drain = [&](size_t max) {
    char buf[512];
    while (max > 0) {
      ssize_t r = read(fds[1], buf, std::min(max, sizeof buf));
      if (r <= 0) break;
      drained.append(buf, r);
      max -= r;
    }
  };
  bool threw = false, closed = false;
  int partial = 0;
  int calls = c.range(1, 12);
  int close_before = real && c.chance(1, 3) ? c.draw(calls) : -1;
  std::string rest = all;
  for (int i = 0; i < calls; ++i) {
    net.begin();
    bool done = false;
    threw = false;
    if (i == close_before) {
      c.note("the peer closes, ", rest.size(), " bytes left");
      close(fds[1]);
      fds[1] = -1;
      closed = true;
    }
    auto before = rest;
    try {
      int fd = real ? fds[0] : net.fd;
      switch (n) {
        case 1: done = Write(fd, {v[0].stream.get()}); break;
        case 2: done = Write(fd, {v[0].stream.get(), v[1].stream.get()}); break;
        default: done = Write(fd, {v[0].stream.get(), v[1].stream.get(),
                                   v[2].stream.get()});
      }
    } catch (const std::runtime_error& e) {
      threw = true;
    }
    rest.clear();
    for (auto& b : v) rest += content(*b.stream);
    if (real && !closed) drain(c.pick({0, 100, 5000, 1 << 20}));
    if (!real) {
      c.note("call: ", net.calls, " writes, ", net.shorts, " short, ",
             net.blocks, " blocked, ", net.errors, " failed");
      partial += net.shorts + net.blocks;
      c.check(net.max_iov <= IOV_MAX, "more than IOV_MAX pieces in one call");
      c.check(net.accepted + rest == all,
              "bytes accepted by the socket plus bytes left in the streams "
              "are not the original bytes (", net.accepted.size(), " + ",
              rest.size(), " of ", all.size(), ")");
      c.equal(threw, net.errors > 0, "exception");
      if (!threw) {
        c.equal(done, rest.empty(), "result with " +
                                        std::to_string(rest.size()) +
                                        " bytes left");
        if (!net.stopped) {
          c.check(done, "gave up although the socket never refused data");
        }
      }
    } else {
      c.check(!threw || closed, "exception on a healthy socket");
      if (!threw) c.equal(done, rest.empty(), "result");
      if (closed) {
        c.equal(threw, !before.empty(), "exception on a closed connection");
        c.equal(rest, before, "bytes left after writing to a closed connection");
      }
      if (!closed) {
        // everything not left over is in the socket, in order
        c.check(all.size() - rest.size() >= drained.size() &&
                    all.compare(0, drained.size(), drained) == 0,
                "the peer received other bytes");
        c.check(all.compare(all.size() - rest.size(), std::string::npos,
                            rest) == 0,
                "the bytes left are not the end of the original");
      }
      if (done && !closed) {
        drain(1 << 30);
        c.check(drained == all, "the peer received ", drained.size(), " of ",
                all.size(), " bytes after a complete write");
      }
      partial += !done;
    }
  }
  if (real) {
    close(fds[0]);
    if (fds[1] >= 0) close(fds[1]);
    c.classify("closed with bytes left", closed && !rest.empty());
  }
  net.on = false;
  if (fragments > 2 && partial > 0) c.nontrivial();
  c.classify("beyond IOV_MAX", fragments > IOV_MAX);
  c.classify("partial", partial > 0);
}
PROPERTY(vector_write) { run_writes(c, false); }
PROPERTY(vector_write_socket, p.check_fds = true;) { run_writes(c, true); }

//------------------------------------------------------------------------ P05
std::string random_name(pbt::Case& c) {
  return c.over("abz09-_ ", c.range(0, 12));
}
collector::Span random_span(pbt::Case& c) {
  collector::Span s;
  s.mutable_span_context()->set_trace_id(c.u64());
  s.mutable_span_context()->set_span_id(c.u64());
  s.set_operation_name(random_name(c));
  s.set_duration_micros(c.u64());
  int tags = c.range(0, 4);
  for (int i = 0; i < tags; ++i) {
    auto t = s.add_tags();
    t->set_key(random_name(c));
    t->set_string_value(c.over("xyz", c.size(700)));
  }
  return s;
}
// The framed span, after `reserved` bytes which the stream was moved past.
std::unique_ptr<ChainedStream> frame(const collector::Span& span,
                                     int reserved) {
  auto body = span.SerializeAsString();
  std::array<char, ReportRequestSpansMaxHeaderSize> h;
  auto n = WriteReportRequestSpansHeader(h.data(), h.size(),
                                         static_cast<uint32_t>(body.size()));
  std::unique_ptr<ChainedStream> r{new ChainedStream};
  {
    google::protobuf::io::CodedOutputStream cs{r.get()};
    cs.WriteString(std::string(reserved, '!'));
    cs.WriteRaw(h.data() + h.size() - n, static_cast<int>(n));
    cs.WriteString(body);
  }
  r->CloseOutput();
  if (reserved) r->Seek(0, reserved);
  return r;
}
PROPERTY(report_request, p.check_memory = true;) {
  collector::ReportRequest want;
  want.mutable_reporter()->set_reporter_id(c.u64());
  int tags = c.range(0, 3);
  for (int i = 0; i < tags; ++i) {
    auto t = want.mutable_reporter()->add_tags();
    t->set_key(random_name(c));
    t->set_string_value(random_name(c));
  }
  want.mutable_auth()->set_access_token(random_name(c));
  auto header = std::make_shared<const std::string>(want.SerializeAsString());
  int dropped = c.weighted({2, 3}) == 0
                    ? 0
                    : static_cast<int>(c.draw(c.pick({5u, 200u, 70000u, 2147483647u})));
  if (dropped) {
    auto m = want.mutable_internal_metrics()->add_counts();
    m->set_name("spans.dropped");
    m->set_int_value(dropped);
  }
  std::unique_ptr<ReportRequest> r{new ReportRequest{header, dropped}};
  int spans = c.range(0, 8);
  c.note(dropped, " dropped, ", spans, " spans");
  for (int i = 0; i <= spans; ++i) {
    if (c.chance(1, 5)) {  // requests can be moved
      std::unique_ptr<ReportRequest> x{new ReportRequest{std::move(*r)}};
      r = std::move(x);
      c.note("moved");
    }
    c.equal(r->num_spans(), want.spans_size(), "num_spans");
    c.equal(r->num_dropped_spans(), dropped, "num_dropped_spans");
    std::vector<std::string> frags;
    typedef std::pair<std::vector<std::string>*, size_t> Ctx;
    Ctx ctx{&frags, 0};
    auto cb = [](void* p, const void* d, size_t n) {
      auto x = static_cast<Ctx*>(p);
      x->first->emplace_back(static_cast<const char*>(d), n);
      return x->second == 0 || x->first->size() != x->second;
    };
    c.check(r->ForEachFragment(cb, &ctx), "iteration interrupted");
    std::string all;
    for (auto& f : frags) all += f;
    c.equal(r->num_bytes(), all.size(), "num_bytes");
    c.equal(r->num_fragments(), frags.size(), "num_fragments");
    std::string out(r->num_bytes() + c.range(0, 3), '#');
    r->CopyOut(&out[0], out.size());
    c.check(out.compare(0, all.size(), all) == 0, "CopyOut differs");
    for (size_t k = all.size(); k < out.size(); ++k) {
      c.check(out[k] == '#', "CopyOut wrote past the content");
    }
    collector::ReportRequest got;
    c.check(got.ParseFromString(all), "not a report request");
    c.equal(got.SerializeAsString(), want.SerializeAsString(),
            "decoded request");
    // interrupted iteration
    Ctx stop{&frags, static_cast<size_t>(c.range(1, frags.size()))};
    frags.clear();
    c.check(!r->ForEachFragment(cb, &stop),
            "interrupted iteration reported completion");
    c.equal(frags.size(), stop.second, "fragments before interruption");
    if (i == spans) break;
    auto s = random_span(c);
    r->AddSpan(frame(s, c.chance(1, 3) ? c.range(1, 40) : 0));
    *want.add_spans() = s;
  }
  if (spans > 1) c.nontrivial();
  c.classify("metrics", dropped > 0);
  c.classify("large", r->num_bytes() > 1000);
}
}  // namespace
