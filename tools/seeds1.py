SEEDS = []


def seed(**k):
    SEEDS.append(k)


seed(id='span-clear-newcomers', property='P07',
     edits=[('src/recorder/stream_recorder/span_stream.cpp',
             '  span_buffer_.Consume(allotment_.size());\n', '  span_buffer_.Clear();\n')],
     needs='a span that is recorded between the moment the allotment is taken and the moment the write of all of it completes',
     breaks='Such a span is removed from the buffer although it was never written: it is lost, neither sent nor counted as dropped.',
     demo=r'''
#include <cstdio>
#include <cstring>
#include "recorder/stream_recorder/span_stream.h"
using namespace lightstep;
static std::unique_ptr<ChainedStream> span(const char* s) {
  std::unique_ptr<ChainedStream> r{new ChainedStream{}};
  void* p; int n;
  r->Next(&p, &n);
  memcpy(p, s, strlen(s));
  r->BackUp(n - static_cast<int>(strlen(s)));
  r->CloseOutput();
  return r;
}
int main() {
  MetricsObserver observer;
  MetricsTracker metrics{observer};
  CircularBuffer<ChainedStream> buffer{10};
  SpanStream stream{buffer, metrics};
  auto a = span("first"), b = span("second");
  buffer.Add(a);
  stream.Allot();
  buffer.Add(b);      // another thread finishes a span during the write
  stream.Clear();     // the write took everything that was allotted
  stream.Allot();
  std::string left;
  stream.ForEachFragment([&](void* p, int n) {
    left.append(static_cast<char*>(p), n);
    return true;
  });
  printf("left in the buffer: \"%s\"\n", left.c_str());
  return left == "second" ? 0 : 1;
}
''')

seed(id='writev-after-block', property='P04',
     edits=[('src/network/vector_write.cpp',
             '''    do_write();
    fragment_iter = fragments;
    batch_num_bytes = 0;
    return !(error || blocked);
''', '''    do_write();
    if (error || blocked) {
      return false;
    }
    fragment_iter = fragments;
    batch_num_bytes = 0;
    return true;
''')],
     needs='more fragments than one writev takes, a socket that takes a part of a full batch and has room again by the next call',
     breaks='The whole batch is offered to the socket a second time, so bytes it already took are sent twice and what is left to send is miscounted.',
     flags='-Wl,--wrap=writev -Wl,--wrap=sendmsg',
     demo=r'''
#include <sys/socket.h>
#include <sys/uio.h>
#include <limits.h>
#include <cstdio>
#include <string>
#include <vector>
#include "common/fragment_array_input_stream.h"
#include "network/vector_write.h"
using namespace lightstep;
static std::string got;
static int calls = 0;
extern "C" ssize_t __wrap_writev(int, const iovec* v, int n) {
  // a slow socket: it takes half of the first batch, then has room again
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  size_t take = calls++ == 0 ? total / 2 : total, left = take;
  for (int i = 0; i < n && left; ++i) {
    size_t k = std::min(left, v[i].iov_len);
    got.append(static_cast<char*>(v[i].iov_base), k);
    left -= k;
  }
  return take;
}
extern "C" ssize_t __wrap_sendmsg(int s, const msghdr* m, int) {
  return __wrap_writev(s, m->msg_iov, m->msg_iovlen);
}
int main() {
  std::string data;
  for (int i = 0; i < 3 * IOV_MAX; ++i) data += char('a' + i % 26);
  FragmentArrayInputStream stream;
  for (auto& c : data) stream.Add({static_cast<void*>(&c), 1});
  while (calls < 100 && !Write(0, {&stream})) {
  }
  printf("%zu bytes, expected %zu\n", got.size(), data.size());
  return got == data ? 0 : 1;
}
''')

seed(id='append-chain', property='P03',
     edits=[('src/common/composable_fragment_input_stream.cpp',
             '''  prev_last->Append(std::move(stream));
''', '''  prev_last->next_ = std::move(stream);
''')],
     needs='a stream appended second that already has streams appended to it, followed by a third append',
     breaks='What had been appended to the second stream is destroyed; its bytes are never iterated, counted or sent.',
     demo=r'''
#include <cstdio>
#include <cstring>
#include <string>
#include "common/chained_stream.h"
using namespace lightstep;
static std::unique_ptr<ChainedStream> text(const char* s) {
  std::unique_ptr<ChainedStream> r{new ChainedStream{}};
  void* p; int n;
  r->Next(&p, &n);
  memcpy(p, s, strlen(s));
  r->BackUp(n - static_cast<int>(strlen(s)));
  r->CloseOutput();
  return r;
}
int main() {
  auto a = text("a"), b = text("b");
  b->Append(text("c"));
  a->Append(std::move(b));
  a->Append(text("d"));
  a->Append(text("e"));
  std::string all;
  a->ForEachFragment([&](void* p, int n) {
    all.append(static_cast<char*>(p), n);
    return true;
  });
  printf("%s\n", all.c_str());
  return all == "abcde" && a->num_fragments() == 5 ? 0 : 1;
}
''')

seed(id='unconsume-overwrites', property='P06',
     edits=[('src/recorder/metrics_tracker.cpp',
             '''  return num_dropped_spans_.exchange(0);
''', '''  auto result = num_dropped_spans_.load();
  num_dropped_spans_.store(0);
  return result;
''')],
     needs='a span dropped by another thread between the two operations that take the count for a report',
     breaks='The drop is counted in no report.',
     demo=r'''
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include "recorder/metrics_tracker.h"
using namespace lightstep;
int main() {
  MetricsObserver observer;
  for (int round = 0; round < 30; ++round) {
    MetricsTracker metrics{observer};
    std::atomic<int> running{4};
    std::vector<std::thread> threads;
    const int each = 100000;
    for (int i = 0; i < 4; ++i)
      threads.emplace_back([&] {
        for (int k = 0; k < each; ++k) metrics.OnSpansDropped(1);
        --running;
      });
    long taken = 0;
    while (running > 0) taken += metrics.ConsumeDroppedSpans();
    for (auto& t : threads) t.join();
    taken += metrics.ConsumeDroppedSpans();
    if (taken != 4l * each) {
      printf("%ld of %ld drops were reported\n", taken, 4l * each);
      return 1;
    }
  }
  return 0;
}
''')

seed(id='fork-entropy', property='P09',
     edits=[('src/common/random.cpp',
             '''  static void OnFork() noexcept { Seed(); }
''', '''  // Reading the random device is slow, so go on from what the parent had.
  static void OnFork() noexcept {
    std::seed_seq seed_seq{engine_(), engine_()};
    engine_.seed(seed_seq);
  }
''')],
     needs='two children forked from the same process, which makes no id in between',
     breaks='Both are seeded alike and generate the same trace and span ids.',
     demo=r'''
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <set>
#include "common/random.h"
using namespace lightstep;
int main() {
  std::set<uint64_t> seen;
  int n = 0;
  for (int i = 0; i < 50; ++i) seen.insert(GenerateId()), ++n;
  for (int child = 0; child < 4; ++child) {
    int fd[2];
    if (pipe(fd)) return 2;
    pid_t p = fork();
    if (p == 0) {
      for (int i = 0; i < 50; ++i) {
        uint64_t id = GenerateId();
        if (write(fd[1], &id, sizeof id) != sizeof id) _exit(1);
      }
      _exit(0);
    }
    close(fd[1]);
    uint64_t id;
    while (read(fd[0], &id, sizeof id) == sizeof id) seen.insert(id), ++n;
    close(fd[0]);
    waitpid(p, nullptr, 0);
  }
  printf("%zu different ids of %d\n", seen.size(), n);
  return seen.size() == static_cast<size_t>(n) ? 0 : 1;
}
''')

seed(id='report-bytes-of-sought-span', property='P05',
     edits=[('src/recorder/serialization/report_request.cpp',
             '''  span->ForEachFragment([&](void* /*data*/, int length) {
    num_bytes_ += static_cast<size_t>(length);
    return true;
  });
''', '''  num_bytes_ += static_cast<int>(span->ByteCount());
''')],
     needs='a span whose stream was positioned past reserved space before it was added',
     breaks='The size of the report counts bytes that are not part of it, so whoever sends the report announces a length it does not have.',
     demo=r'''
#include <cstdio>
#include <cstring>
#include "recorder/serialization/report_request.h"
using namespace lightstep;
int main() {
  std::unique_ptr<ChainedStream> span{new ChainedStream{}};
  void* p; int n;
  span->Next(&p, &n);
  memset(p, 'x', 20);
  span->BackUp(n - 20);
  span->CloseOutput();
  span->Seek(0, 6);  // reserved header space that was not needed
  ReportRequest report{std::make_shared<const std::string>("header"), 0};
  report.AddSpan(std::move(span));
  size_t total = 0;
  report.ForEachFragment(
      [](void* t, const void*, size_t k) { *static_cast<size_t*>(t) += k; return true; },
      &total);
  printf("num_bytes %zu, bytes %zu\n", static_cast<size_t>(report.num_bytes()), total);
  return report.num_bytes() == total ? 0 : 1;
}
''')

seed(id='varint-not-minimal', property='P34',
     edits=[('src/common/direct_coded_output_stream.h', '(1ull << 56)', '(1ull << 49)')],
     needs='a 64-bit number (an id) between 2^49 and 2^56: one in 256 random ids',
     breaks='The number is written with a superfluous zero byte, one more than the size that was computed for it: the message is cut short or overruns its buffer.',
     demo=r'''
#include <cstdio>
#include <cstring>
#include "common/direct_coded_output_stream.h"
using namespace lightstep;
int main() {
  for (int bit = 0; bit < 64; ++bit)
    for (int d = -1; d <= 1; ++d) {
      uint64_t x = (1ull << bit) + d;
      google::protobuf::uint8 got[16] = {}, want[16] = {};
      DirectCodedOutputStream s{got};
      s.WriteBigVarint64(x);
      auto e = google::protobuf::io::CodedOutputStream::WriteVarint64ToArray(x, want);
      if (s.data() - got != e - want || memcmp(got, want, 16)) {
        printf("%llu is written in %d bytes instead of %d\n", (unsigned long long)x,
               int(s.data() - got), int(e - want));
        return 1;
      }
    }
  return 0;
}
''')

seed(id='steady-not-negative', property='P08',
     edits=[('src/common/timestamp.cpp',
             '''  auto time_since_epoch = std::chrono::nanoseconds{
      ComputeNanosecondsSinceEpoch(system_timestamp) - timestamp_delta};
''', '''  auto time_since_epoch = std::chrono::nanoseconds{std::max<int64_t>(
      0, ComputeNanosecondsSinceEpoch(system_timestamp) - timestamp_delta)};
'''), ('src/common/timestamp.cpp', '#include "common/timestamp.h"\n', '#include "common/timestamp.h"\n\n#include <algorithm>\n')],
     needs='a start or log time given on the system clock that lies before the steady clock\'s epoch (the boot of the machine)',
     breaks='All such times are converted to the same instant: durations and intervals are wrong.',
     demo=r'''
#include <cstdio>
#include <initializer_list>
#include "common/timestamp.h"
using namespace lightstep;
int main() {
  int64_t delta = ComputeSystemSteadyTimestampDelta();
  auto now = std::chrono::system_clock::now();
  for (int hours : {0, 1, 24, 24 * 400, 24 * 4000}) {
    auto t = now - std::chrono::hours{hours};
    auto back = ToSystemTimestamp(delta, ToSteadyTimestamp(delta, t));
    if (back != t) {
      printf("%d hours ago is off by %lld s\n", hours,
             (long long)std::chrono::duration_cast<std::chrono::seconds>(back - t).count());
      return 1;
    }
  }
  return 0;
}
''')

seed(id='sockaddr-scope', property='P10',
     edits=[('src/network/ip_address.cpp',
             '''    reinterpret_cast<sockaddr_in6&>(data_) =
        reinterpret_cast<const sockaddr_in6&>(addr);
''', '''    auto& other = reinterpret_cast<const sockaddr_in6&>(addr);
    auto& ipv6_addr = reinterpret_cast<sockaddr_in6&>(data_);
    ipv6_addr.sin6_family = AF_INET6;
    ipv6_addr.sin6_addr = other.sin6_addr;
    ipv6_addr.sin6_port = other.sin6_port;
    ipv6_addr.sin6_flowinfo = other.sin6_flowinfo;
''')],
     needs='a link-local IPv6 address with a scope, given in system form',
     breaks='The scope is lost: addresses on different links compare equal and cannot be connected to.',
     demo=r'''
#include <arpa/inet.h>
#include <cstdio>
#include <cstring>
#include "network/ip_address.h"
using namespace lightstep;
static sockaddr_in6 make(unsigned scope) {
  sockaddr_in6 a;
  memset(&a, 0, sizeof a);
  a.sin6_family = AF_INET6;
  inet_pton(AF_INET6, "fe80::1:2", &a.sin6_addr);
  a.sin6_scope_id = scope;
  return a;
}
int main() {
  auto a = make(2), b = make(3);
  IpAddress x{reinterpret_cast<const sockaddr&>(a)}, y{reinterpret_cast<const sockaddr&>(b)};
  printf("%u %u equal: %d\n", x.ipv6_address().sin6_scope_id,
         y.ipv6_address().sin6_scope_id, x == y);
  return x.ipv6_address().sin6_scope_id == 2 && !(x == y) ? 0 : 1;
}
''')

seed(id='socket-descriptor-zero', property='P11',
     edits=[('src/network/socket.cpp',
             '''  if (file_descriptor_ != InvalidSocket) {
    CloseSocket''', '''  if (file_descriptor_ > 0) {
    CloseSocket''')],
     needs='a process that has closed its standard input, so that a socket gets descriptor 0',
     breaks='The socket is never closed: the connection stays open.',
     demo=r'''
#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include "network/socket.h"
using namespace lightstep;
int main() {
  close(0);
  {
    Socket a;
    printf("descriptor %d\n", a.file_descriptor());
  }
  bool leaked = fcntl(0, F_GETFD) >= 0;
  printf("leaked: %d\n", leaked);
  return leaked;
}
''')

seed(id='head-before-tail', property='P01',
     edits=[('src/common/circular_buffer.h',
             '''      int64_t tail = tail_;
      int64_t head = head_;

''', '''      int64_t head = head_;
      int64_t tail = tail_;

''')],
     needs='other producers and the consumer to pass a producer between its two loads',
     breaks='The difference of the two positions is negative, and a buffer that is nearly empty refuses the element as if it were full.',
     demo=r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include "common/circular_buffer.h"
using namespace lightstep;
int main() {
  // so many that no delay of a producer fits as many additions
  CircularBuffer<int> buffer{20000000};
  std::atomic<bool> stop{false};
  std::atomic<long> refused{0};
  std::atomic<int> waiting{0};
  // at most one element each is in the buffer
  std::thread a[3];
  for (auto& t : a)
    t = std::thread{[&] {
      while (!stop) {
        if (waiting >= 3) continue;
        ++waiting;
        std::unique_ptr<int> p{new int{1}};
        if (!buffer.Add(p)) {
          ++refused;
          stop = true;
        }
      }
    }};
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds{60};
  long n = 0;
  while (!stop && std::chrono::steady_clock::now() < end) {
    for (int i = 0; i < 100 && !stop; ++i) {
      auto k = buffer.size();
      if (k == 0) {
        std::unique_ptr<int> p{new int{2}};
        if (!buffer.Add(p)) {
          ++refused;
          stop = true;
        }
        ++n;
        k = 1;
      }
      buffer.Consume(k);
      waiting = 0;
    }
  }
  stop = true;
  for (auto& t : a) t.join();
  printf("%ld additions here, %ld refused\n", n, refused.load());
  return refused ? 1 : 0;
}
''')
