# What an earlier call left behind, and clocks that step.
SR = 'src/recorder/stream_recorder/'
seed(id='traceparent-memo', property='P16',
     edits=[('src/tracer/propagation/trace_context.cpp',
             '''        std::make_error_code(std::errc::invalid_argument));
  }
  size_t offset = 0;
''', '''        std::make_error_code(std::errc::invalid_argument));
  }
  size_t offset = 0;

  // Spans of a request are mostly extracted from the same header.
  struct Memo {
    char header[TraceContextLength];
    TraceContext trace_context;
    bool valid;
  };
  static thread_local Memo memo = {};
  constexpr auto memo_length = TraceContextLength - Num8BitHexDigits;
  if (memo.valid && std::equal(s.data(), s.data() + memo_length, memo.header)) {
    trace_context = memo.trace_context;
    return {};
  }
'''),
            ('src/tracer/propagation/trace_context.cpp',
             '''  trace_context.trace_flags = *trace_flags_maybe;

  return {};''', '''  trace_context.trace_flags = *trace_flags_maybe;

  std::copy(s.data(), s.data() + TraceContextLength, memo.header);
  memo.trace_context = trace_context;
  memo.valid = true;
  return {};'''),
            ('src/tracer/propagation/trace_context.cpp',
             '#include "common/hex_conversion.h"\n',
             '#include <algorithm>\n\n#include "common/hex_conversion.h"\n')],
     needs='two extractions in a row, in one thread, of traceparent headers that differ in nothing but the flags',
     breaks='The second context has the sampling decision of the first; invalid flags are accepted.',
     demo=r'''
#include <cstdio>
#include "tracer/propagation/trace_context.h"
using namespace lightstep;
int main() {
  TraceContext a, b;
  if (!ParseTraceContext("00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", a)) return 1;
  if (!ParseTraceContext("00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-00", b)) return 1;
  printf("%d %d\n", a.trace_flags, b.trace_flags);
  return a.trace_flags == 1 && b.trace_flags == 0 ? 0 : 1;
}
''', kind='tracer')
seed(id='host-header-suffix', property='P35',
     edits=[(SR + 'host_header.cpp', '''  auto rcode =
      std::snprintf(''', '''  // Reconnecting to the same host needs no formatting.
  auto length = std::strlen(host);
  auto end = header_.data() + header_.size() - 3 /*strlen("\\r\\n") + 1*/;
  if (length < header_.size() - 3 &&
      std::memcmp(end - length, host, length) == 0) {
    return;
  }
  auto rcode =
      std::snprintf(''')],
     needs='two satellite hosts of which one ends with the name of the other, on one connection, the longer one first',
     breaks='The request to the second satellite carries the Host header of the first.',
     demo=r'''
#include <cassert>
#include <string>
#include <cstdio>
#include "recorder/stream_recorder/host_header.h"
using namespace lightstep;
int main() {
  LightStepTracerOptions o;
  o.satellite_endpoints = {{"eu.example.com", 80}, {"example.com", 80}};
  HostHeader h{o};
  auto text = [&] {
    auto f = h.fragment();
    return std::string(static_cast<char*>(f.first), f.second);
  };
  h.set_host("eu.example.com");
  if (text() != "Host:eu.example.com\r\n") return 1;
  h.set_host("example.com");
  printf("%s", text().c_str());
  return text() == "Host:   example.com\r\n" ? 0 : 1;
}
''', kind='tracer')
seed(id='delta-small-steps', property='P08',
     edits=[(SR + 'stream_recorder_impl.cpp',
             '  timestamp_delta_ = ComputeSystemSteadyTimestampDelta();\n',
             '''  auto timestamp_delta = ComputeSystemSteadyTimestampDelta();
  // Don't let the time of spans run backwards when the clock is slewed.
  if (timestamp_delta < timestamp_delta_ &&
      timestamp_delta_ - timestamp_delta < 60 * int64_t{1000000000}) {
    return;
  }
  timestamp_delta_ = timestamp_delta;
''')],
     needs='the system clock being set back by less than a minute while a streaming recorder is running',
     breaks='The recorder keeps the old offset: all later spans are stamped up to a minute late.',
     demo=r'''
#include <time.h>
#include <chrono>
#include <cstdio>
#include <thread>
#include <atomic>
#include "recorder/stream_recorder/stream_recorder.h"
static std::atomic<int64_t> step{0};
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return time_point{duration_cast<duration>(seconds{t.tv_sec} + nanoseconds{t.tv_nsec + step})};
}
}}}
using namespace lightstep;
int main() {
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions o;
  o.satellite_endpoints = {{"127.0.0.1", 1}};
  StreamRecorderOptions r;
  r.timestamp_delta_period = std::chrono::milliseconds{20};
  StreamRecorder recorder{logger, std::move(o), std::move(r)};
  auto delta = recorder.ComputeSystemSteadyTimestampDelta();
  std::this_thread::sleep_for(std::chrono::milliseconds{100});
  step = -30 * int64_t{1000000000};
  std::this_thread::sleep_for(std::chrono::milliseconds{500});
  auto change = recorder.ComputeSystemSteadyTimestampDelta() - delta;
  printf("%lld\n", (long long)change);
  return change < -29 * int64_t{1000000000} ? 0 : 1;
}
''', kind='tracer')
