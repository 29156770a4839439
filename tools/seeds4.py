OOM = r'''
#include <new>
static thread_local long fail_at = -1;
void* operator new(std::size_t n) {
  if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc{};
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc{};
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
'''

seed(id='baggage-lock-left', property='P37', kind='tracer',
     edits=[('src/tracer/span.cpp',
             '''  auto lowercase_key = ToLower(restricted_key);
  SpinLockGuard lock_guard{mutex_};
  if (is_finished_) {
    return;
  }
  baggage_.insert_or_assign(std::move(lowercase_key), std::string{value});
''', '''  auto lowercase_key = ToLower(restricted_key);
  // Don't hold the lock while freeing the key.
  mutex_.lock();
  if (!is_finished_) {
    baggage_.insert_or_assign(std::move(lowercase_key), std::string{value});
  }
  mutex_.unlock();
''')],
     needs='an allocation that fails while a baggage item is stored, then any other call on the span',
     breaks='The span stays locked: the next call on it spins for ever.',
     demo=HEAD + '#include <unistd.h>\n' + OOM + r'''
int main() {
  alarm(60);
  std::vector<collector::ReportRequest> reports;
  LightStepTracerOptions o;
  o.access_token = "token";
  o.use_thread = false;
  o.transporter.reset(new Out{&reports});
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  auto t = MakeLightStepTracer(std::move(o));
  std::string key(100, 'k'), value(200, 'v');
  for (long at = 0; at < 8; ++at) {
    auto span = t->StartSpan("a");
    fail_at = at;
    span->SetBaggageItem(key, value);
    fail_at = -1;
    auto got = span->BaggageItem(key);
    if (!got.empty() && got != value) return 1;
    span->Finish();
  }
  t->Flush();
  size_t n = 0;
  for (auto& r : reports) n += r.spans_size();
  printf("%zu spans\n", n);
  return n == 8 ? 0 : 1;
}
''')

seed(id='drops-cleared-early', property='P37', kind='tracer',
     edits=[('src/recorder/legacy_manual_recorder.cpp',
             '''  saved_dropped_spans_ = dropped_spans_;
  builder_.set_pending_client_dropped_spans(dropped_spans_);
''', '''  saved_dropped_spans_ = dropped_spans_;
  dropped_spans_ = 0;
  builder_.set_pending_client_dropped_spans(saved_dropped_spans_);
'''), ('src/recorder/legacy_manual_recorder.cpp',
             '''      static_cast<int>(saved_pending_spans_));
  dropped_spans_ = 0;
  std::swap''', '''      static_cast<int>(saved_pending_spans_));
  std::swap''')],
     needs='a failed report, then an allocation that fails while the next report is completed',
     breaks='The spans lost with the failed report are never reported as dropped.',
     demo=HEAD + OOM + r'''
struct Legacy : LegacyAsyncTransporter {
  int sends = 0;
  long dropped = 0, spans = 0;
  void Send(const google::protobuf::Message& request, google::protobuf::Message&,
            Callback& cb) override {
    if (++sends == 1) {
      cb.OnFailure(std::make_error_code(std::errc::network_down));
      return;
    }
    auto& r = static_cast<const collector::ReportRequest&>(request);
    spans += r.spans_size();
    for (auto& c : r.internal_metrics().counts()) dropped += c.int_value();
    cb.OnSuccess();
  }
};
int main() {
  for (long at = 0; at < 12; ++at) {
    LightStepTracerOptions o;
    o.access_token = "token";
    o.use_thread = false;
    auto* legacy = new Legacy;
    o.transporter.reset(legacy);
    o.logger_sink = [](LogLevel, opentracing::string_view) {};
    auto t = MakeLightStepTracer(std::move(o));
    t->StartSpan("a")->Finish();
    t->Flush();  // fails
    t->StartSpan("b")->Finish();
    fail_at = at;
    t->Flush();
    fail_at = -1;
    t->Flush();
    t->StartSpan("c")->Finish();
    t->Flush();
    printf("%ld: %ld spans, %ld dropped\n", at, legacy->spans, legacy->dropped);
    if (legacy->dropped != 1 || legacy->spans != 2) return 1;
  }
  return 0;
}
''')
