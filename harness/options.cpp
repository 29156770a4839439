// What a set of options makes: a tracer or an error, and what its reports say
// about it (P30); the factory behind the plugin entry point.
#include <fcntl.h>
#include <opentracing/dynamic_load.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <filesystem>
#include <map>
#include <mutex>
#include <thread>
#include "gen.hpp"
#include "lightstep/version.h"
#include "tracing.hpp"

using namespace lightstep;
typedef std::chrono::steady_clock Steady;

namespace {
struct Shared {
  std::mutex mutex;
  std::vector<collector::ReportRequest> reports;
  std::vector<std::pair<LogLevel, std::string>> logs;
  std::atomic<int> transporters{0}, observers{0}, flushes{0};
  std::string error;
  size_t num_reports() {
    std::lock_guard<std::mutex> g{mutex};
    return reports.size();
  }
  void add(const std::string& s) {
    std::lock_guard<std::mutex> g{mutex};
    reports.emplace_back();
    if (!reports.back().ParseFromString(s)) error = "a report does not parse";
  }
};
typedef std::shared_ptr<Shared> S;

struct Counted {
  S s;
  explicit Counted(S x) : s(std::move(x)) { ++s->transporters; }
  ~Counted() { --s->transporters; }
};
struct Async : AsyncTransporter, Counted {
  using Counted::Counted;
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    std::string t(m->num_bytes(), '\0');
    m->CopyOut(&t[0], t.size());
    s->add(t);
    cb.OnSuccess(*m);
  }
};
struct LegacyAsync : LegacyAsyncTransporter, Counted {
  using Counted::Counted;
  void Send(const google::protobuf::Message& request,
            google::protobuf::Message& response, Callback& cb) override {
    s->add(request.SerializeAsString());
    response.Clear();
    cb.OnSuccess();
  }
};
struct Sync : SyncTransporter, Counted {
  using Counted::Counted;
  opentracing::expected<void> Send(const google::protobuf::Message& request,
                                   google::protobuf::Message& response) override {
    s->add(request.SerializeAsString());
    response.Clear();
    return {};
  }
};
struct Bare : Transporter, Counted {
  using Counted::Counted;
};
struct Observer : MetricsObserver {
  S s;
  explicit Observer(S x) : s(std::move(x)) { ++s->observers; }
  ~Observer() override { --s->observers; }
  void OnFlush() noexcept override { ++s->flushes; }
};

enum Kind { None, AsyncKind, LegacyKind, SyncKind, BareKind };
const char* const kind_names[] = {"none", "async", "legacy", "sync", "bare"};

std::string program_name() {
  char buf[4096];
  ssize_t n = readlink("/proc/self/exe", buf, sizeof buf);
  std::string s(buf, n > 0 ? n : 0);
  return s.substr(s.rfind('/') + 1);
}

std::map<std::string, const collector::KeyValue*> tags_of(
    const collector::Reporter& r, std::string& error) {
  std::map<std::string, const collector::KeyValue*> m;
  for (auto& t : r.tags()) {
    if (!m.emplace(t.key(), &t).second) error = "tag " + t.key() + " repeated";
  }
  return m;
}
}  // namespace

PROPERTY(tracer_options, p.concurrent = true; p.hang_seconds = 30;
         p.check_fds = true;) {
  auto s = std::make_shared<Shared>();
  gen::Holder holder;
  Kind kind = static_cast<Kind>(c.draw(4));
  LightStepTracerOptions o;
  o.use_thread = c.boolean();
  o.use_stream_recorder = c.chance(1, 3);
  if (o.use_stream_recorder && c.boolean()) kind = None;
  o.collector_plaintext = c.boolean();
  o.verbose = c.boolean();
  o.satellite_endpoints = {{"127.0.0.1", static_cast<uint16_t>(1)}};
  o.max_buffered_spans = static_cast<size_t>(c.range(8, 50));
  o.component_name = c.boolean() ? gen::utf8(c, 30) : "";
  o.access_token = c.boolean() ? gen::utf8(c, 30) : "";
  static const char* const reserved[] = {
      "lightstep.tracer_platform", "lightstep.tracer_platform_version",
      "lightstep.tracer_version", "lightstep.opentracing_version",
      "lightstep.component_name"};
  int n = c.range(0, 6);
  for (int i = 0; i < n; ++i) {
    std::string k = c.chance(1, 3) ? c.pick(reserved) : gen::utf8(c, 12);
    o.tags[k] = gen::value(c, holder, 1);
  }
  auto expected = o.tags;
  expected["lightstep.tracer_platform"] = "c++";
  expected["lightstep.tracer_platform_version"] = static_cast<int64_t>(201103);
  expected["lightstep.tracer_version"] = LIGHTSTEP_VERSION;
  expected["lightstep.opentracing_version"] = OPENTRACING_VERSION;
  if (!expected.count("lightstep.component_name"))
    expected["lightstep.component_name"] =
        o.component_name.empty() ? program_name() : o.component_name;
  std::string token = o.access_token;
  // zero selects the documented default of half a second
  bool zero = c.chance(1, 4);
  o.reporting_period = zero ? Steady::duration::zero()
                            : Steady::duration(std::chrono::microseconds{
                                  c.range(500, 5000)});
  bool verbose = o.verbose;
  switch (kind) {
    case None: break;
    case AsyncKind: o.transporter.reset(new Async(s)); break;
    case LegacyKind: o.transporter.reset(new LegacyAsync(s)); break;
    case SyncKind: o.transporter.reset(new Sync(s)); break;
    case BareKind: o.transporter.reset(new Bare(s)); break;
  }
  bool observed = c.chance(3, 4);
  if (observed) o.metrics_observer.reset(new Observer(s));
  o.logger_sink = [s](LogLevel l, opentracing::string_view m) {
    std::lock_guard<std::mutex> g{s->mutex};
    s->logs.emplace_back(l, std::string(m.data(), m.size()));
  };
  bool stream = o.use_thread && o.use_stream_recorder;
  bool ok = !o.use_thread ? kind == AsyncKind || kind == LegacyKind
            : stream      ? o.collector_plaintext && kind == None
                          : kind == SyncKind;
  std::string what = std::string(o.use_thread ? "threaded" : "manual") +
                     (o.use_stream_recorder ? " stream" : "") +
                     (o.collector_plaintext ? " plaintext" : "") +
                     " transporter=" + kind_names[kind];
  c.note(what, zero ? " period=0" : "", observed ? " observed" : "",
         verbose ? " verbose" : "", " max=", o.max_buffered_spans.value(), " component=", pbt::Case::quote(o.component_name),
         " tags=", o.tags.size());
  c.classify(what);
  bool threaded = o.use_thread;

  auto begin = Steady::now();
  auto tracer = MakeLightStepTracer(LightStepTracerOptions(std::move(o)));
  c.equal(tracer != nullptr, ok, "a tracer is made (" + what + ")");
  if (!ok) {
    c.equal(s->transporters.load(), 0, "transporters left after the failure");
    c.equal(s->observers.load(), 0, "observers left after the failure");
    bool error = false;
    for (auto& l : s->logs) error |= l.first == LogLevel::error;
    c.check(error, "nothing says why there is no tracer");
    c.nontrivial();
    return;
  }
  c.equal(s->transporters.load(), kind == None ? 0 : 1, "transporters kept");
  c.equal(s->observers.load(), observed ? 1 : 0, "observers kept");

  int spans = c.range(1, 3);
  for (int i = 0; i < spans; ++i) {
    auto span = tracer->StartSpan("op");
    c.check(span != nullptr, "no span");
    auto& ctx = tracing::ctx(span->context());
    auto ids = tracer->GetTraceSpanIdsSampled(span->context());
    c.check(static_cast<bool>(ids), "ids of a span's own context refused");
    c.check((*ids)[0] == ctx.trace_id_low() && (*ids)[1] == ctx.span_id() &&
                (*ids)[2] == (ctx.sampled() ? 1 : 0),
            "ids differ from the context's");
    c.check((*ids)[0] != 0 || (*ids)[1] != 0, "null ids");
    span->Finish();
  }
  if (zero && threaded) {
    // nothing is due before half a second has passed
    std::this_thread::sleep_for(std::chrono::milliseconds{c.range(2, 20)});
    size_t reports = s->num_reports();
    int flushes = s->flushes;
    if (Steady::now() - begin < std::chrono::milliseconds{400}) {
      c.equal(reports, 0u, "reports before the default period ended");
      c.equal(flushes, 0, "flushes before the default period ended");
      c.classify("default period");
      c.nontrivial();
    }
  }
  if (!threaded) {
    c.check(tracer->Flush(), "flush failed");
    c.equal(s->num_reports(), 1u, "reports after a flush");
  }
  bool closed = threaded && !stream && !(zero && c.chance(15, 16));
  if (closed) tracer->Close();
  tracer.reset();
  c.equal(s->transporters.load(), 0, "transporters left at the end");
  c.equal(s->observers.load(), 0, "observers left at the end");
  std::lock_guard<std::mutex> g{s->mutex};
  bool info = false;
  for (auto& l : s->logs) {
    info |= l.first == LogLevel::info;
    c.check(l.first == LogLevel::error || (verbose && l.first >= LogLevel::info),
            "a message of level ", static_cast<int>(l.first), ": ", l.second);
  }
  if (stream) {
    c.equal(info, verbose, "information is logged");
    c.nontrivial();
    return;
  }
  c.check(s->error.empty(), s->error);
  int total = 0;
  uint64_t reporter = 0;
  for (auto& r : s->reports) {
    total += r.spans_size();
    c.equal(r.auth().access_token(), token, "access token");
    c.check(r.reporter().reporter_id() != 0, "reporter id is zero");
    if (reporter)
      c.equal(r.reporter().reporter_id(), reporter, "reporter id of a later report");
    reporter = r.reporter().reporter_id();
    std::string error;
    auto got = tags_of(r.reporter(), error);
    c.check(error.empty(), error);
    c.equal(got.size(), expected.size(), "number of reporter tags");
    for (auto& e : expected) {
      auto it = got.find(e.first);
      c.check(it != got.end(), "tag ", pbt::Case::quote(e.first), " is missing");
      auto m = gen::kv_mismatch(*it->second, e.first, e.second);
      c.check(m.empty(), "tag ", pbt::Case::quote(e.first), ": ", m);
    }
  }
  if (!threaded || closed) c.equal(total, spans, "spans reported");
  if (n > 1) c.nontrivial();
}

// The executable's name is the default component name, wherever it lies.
namespace {
int tell_name(int, char**) {
  auto s = std::make_shared<Shared>();
  LightStepTracerOptions o;
  o.use_thread = false;
  o.transporter.reset(new Async(s));
  auto tracer = MakeLightStepTracer(std::move(o));
  if (!tracer) return 2;
  tracer->StartSpan("x")->Finish();
  tracer->Flush();
  if (s->reports.size() != 1) return 3;
  for (auto& t : s->reports[0].reporter().tags()) {
    if (t.key() != "lightstep.component_name") continue;
    auto& v = t.string_value();
    return write(1, v.data(), v.size()) == static_cast<ssize_t>(v.size()) ? 0
                                                                         : 4;
  }
  return 5;
}
const bool tells_name = (pbt::other_main() = tell_name, true);
}  // namespace

PROPERTY(program_names, p.hang_seconds = 30; p.check_fds = true;) {
  namespace fs = std::filesystem;
  (void)tells_name;
  auto part = [&](int max) {
    std::string s = "p";
    for (int n = c.range(0, max); n > 0; --n)
      s += c.pick(std::vector<std::string>{"a", "b", "-", ".", " ", "\xc3\xa4"});
    return s;
  };
  fs::path root = fs::current_path() / ("program-" + std::to_string(getpid()));
  fs::path dir = root;
  // the kernel refuses paths of more than 4095 bytes
  size_t depth = c.chance(1, 2) ? c.size(100) : c.range(700, 3300);
  while (dir.native().size() + 1 < root.native().size() + depth)
    dir /= "directory-" + part(100);
  std::string name = part(c.chance(1, 4) ? 120 : 20);
  fs::path exe = dir / name;
  c.note(exe.native().size(), " bytes, name ", pbt::Case::quote(name));
  struct Clean {
    fs::path p;
    ~Clean() {
      std::error_code e;
      fs::remove_all(p, e);
    }
  } clean{root};
  std::error_code error;
  fs::create_directories(dir, error);
  c.check(!error, "create_directories: ", error.message());
  auto self = fs::read_symlink("/proc/self/exe");
  fs::create_hard_link(self, exe, error);
  if (error) {
    error.clear();
    fs::copy_file(self, exe, error);
  }
  c.check(!error, "linking the executable: ", error.message());
  int out[2];
  c.check(pipe(out) == 0, "pipe");
  pid_t pid = fork();
  if (pid == 0) {
    dup2(out[1], 1);
    close(out[0]);
    close(out[1]);
    execl(exe.c_str(), exe.c_str(), "--other", nullptr);
    _exit(99);
  }
  close(out[1]);
  std::string got;
  char buf[512];
  for (ssize_t r; (r = read(out[0], buf, sizeof buf)) > 0;) got.append(buf, r);
  close(out[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  c.equal(status, 0, "the process's exit status");
  c.equal(got, name, "default component name");
  c.classify("path of more than 1024 bytes", exe.native().size() > 1024);
  c.nontrivial();
}

// Contexts made from ids, as custom carriers do.
PROPERTY(context_ids) {
  auto f = tracing::make(c.boolean());
  uint64_t trace = c.u64(), span = c.u64();
  bool sampled = c.boolean(), plain = c.chance(1, 4);
  std::unordered_map<std::string, std::string> baggage;
  int n = c.range(0, 4);
  for (int i = 0; i < n; ++i)
    baggage[c.over("abcxyz-_09", c.size(10))] = gen::utf8(c, 20);
  auto copy = baggage;
  auto made = plain ? f.tracer->MakeSpanContext(trace, span, std::move(baggage))
                    : f.tracer->MakeSpanContext(trace, span, sampled,
                                                std::move(baggage));
  if (plain) sampled = true;
  c.note(trace, "/", span, " sampled=", sampled, " baggage=", copy.size());
  c.check(static_cast<bool>(made), "no context");
  auto ids = f.tracer->GetTraceSpanIdsSampled(**made);
  c.check(static_cast<bool>(ids), "no ids");
  c.equal((*ids)[0], trace, "trace id");
  c.equal((*ids)[1], span, "span id");
  c.equal((*ids)[2], static_cast<uint64_t>(sampled), "sampled");
  c.check(tracing::baggage_of(**made) ==
              std::map<std::string, std::string>(copy.begin(), copy.end()),
          "baggage differs: ", tracing::show(tracing::baggage_of(**made)));
  // a foreign context has no such ids
  tracing::Foreign foreign;
  auto none = f.tracer->GetTraceSpanIdsSampled(foreign);
  c.check(!none && none.error() == opentracing::invalid_span_context_error,
          "ids of a foreign context");
  // a child of it continues the trace
  auto ref = opentracing::ChildOf(made->get());
  auto child = f.tracer->StartSpan("child", {ref});
  c.check(child != nullptr, "no span");
  auto child_ids = f.tracer->GetTraceSpanIdsSampled(child->context());
  c.check(static_cast<bool>(child_ids), "no ids of the child");
  c.equal((*child_ids)[0], trace, "trace id of the child");
  c.equal((*child_ids)[2], static_cast<uint64_t>(sampled), "child sampled");
  c.check(tracing::baggage_of(child->context()) ==
              std::map<std::string, std::string>(copy.begin(), copy.end()),
          "baggage of the child differs");
  child->Finish();
  f.tracer->Flush();
  c.equal(f.sink->spans().size(), sampled ? 1u : 0u, "spans reported");
  if (n) c.nontrivial();
}

// The plugin: the exported entry point, its factory, and tracers from JSON.
PROPERTY(plugin, p.concurrent = true; p.hang_seconds = 30; p.check_fds = true;) {
  std::string ot = c.boolean() ? OPENTRACING_VERSION : c.over("0123456789.", 5);
  std::string abi = c.chance(3, 4) ? OPENTRACING_ABI_VERSION
                                   : c.over("0123456789.", c.size(4));
  const void* category = nullptr;
  std::string message;
  void* result = nullptr;
  int rc = (*OpenTracingMakeTracerFactory)(ot.c_str(), abi.c_str(), &category,
                                           &message, &result);
  bool compatible = abi == OPENTRACING_ABI_VERSION;
  c.note("abi=", pbt::Case::quote(abi));
  if (!compatible) {
    c.equal(rc, opentracing::incompatible_library_versions_error.value(), "result");
    c.check(category == &opentracing::dynamic_load_error_category(),
            "error category");
    c.check(message.find(abi) != std::string::npos &&
                message.find(OPENTRACING_ABI_VERSION) != std::string::npos,
            "the message does not name the versions: ", message);
    c.check(result == nullptr, "a factory for an incompatible version");
    c.classify("incompatible");
    return;
  }
  c.equal(rc, 0, "result");
  c.check(result != nullptr, "no factory");
  c.check(message.empty(), "a message on success");
  std::unique_ptr<opentracing::TracerFactory> factory{
      static_cast<opentracing::TracerFactory*>(result)};
  int tracers = c.range(1, 3);
  std::vector<std::shared_ptr<opentracing::Tracer>> kept;
  for (int i = 0; i < tracers; ++i) {
    bool stream = c.boolean(), plaintext = c.chance(3, 4);
    bool bad_port = c.chance(1, 6);
    int damage = c.chance(1, 4) ? c.range(1, 4) : 0;
    std::string port = std::to_string(bad_port ? (c.boolean() ? 0 : 65536 + c.range(0, 9)) : 1);
    std::string text = "{\"component_name\":\"" + c.over("abc", 3) +
                       "\",\"access_token\":\"t\"";
    if (stream) text += ",\"use_stream_recorder\":true";
    if (plaintext) text += ",\"collector_plaintext\":true";
    text += ",\"satellite_endpoints\":[{\"host\":\"127.0.0.1\",\"port\":" + port + "}]";
    if (c.boolean()) text += ",\"max_buffered_spans\":" + std::to_string(c.range(1, 100));
    if (c.boolean()) text += ",\"propagation_modes\":[\"b3\"]";
    switch (damage) {
      case 1: text += ",\"max_buffered_spans\":\"x\""; break;
      case 2: text += ",\"propagation_modes\":[\"b3\",\"nonsense\"]"; break;
      case 3: text += ",\"access_token\":[]"; break;
      case 4: text += ",\"satellite_endpoints\":[3]"; break;
    }
    text += "}";
    if (c.chance(1, 8)) {
      text.resize(c.draw(text.size() - 1));
      damage = 5;
    }
    c.note(" ", text);
    std::string error;
    // what the library writes to stderr is not of interest here
    int saved = dup(2), null = open("/dev/null", O_WRONLY);
    dup2(null, 2);
    close(null);
    auto tracer = factory->MakeTracer(text.c_str(), error);
    dup2(saved, 2);
    close(saved);
    bool ok = !damage && !bad_port && stream && plaintext;
    c.equal(static_cast<bool>(tracer), ok, "a tracer from " + text);
    if (ok) {
      c.check(*tracer != nullptr, "success without a tracer");
      c.check(dynamic_cast<LightStepTracer*>(tracer->get()) != nullptr,
              "not a LightStep tracer");
      auto span = (*tracer)->StartSpan("op");
      c.check(span != nullptr, "no span");
      span->Finish();
      if (c.boolean()) kept.push_back(*tracer);
      c.nontrivial();
    } else {
      c.check(static_cast<bool>(tracer.error()), "no error code");
      if (damage && damage != 2)
        c.check(tracer.error() == opentracing::configuration_parse_error,
                "error code ", tracer.error().message());
      else if (!damage && !bad_port)
        c.check(tracer.error() == opentracing::invalid_configuration_error,
                "error code ", tracer.error().message());
      if (damage || bad_port) c.check(!error.empty(), "no error message");
    }
    c.classify(ok ? "tracer" : damage == 5 ? "cut short" : damage ? "damaged" : bad_port ? "bad port" : "unsupported");
  }
}
