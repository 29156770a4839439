// Span contexts crossing process boundaries: round trips (P15), arbitrary
// carriers (P16), the header formats (P17), the binary carrier (P33).
#include <lightstep/binary_carrier.h>
#include <opentracing/noop.h>
#include <algorithm>
#include <sstream>
#include "foreign_locale.hpp"
#include "gen.hpp"
#include "tracing.hpp"

using namespace lightstep;
using tracing::Headers;
typedef std::map<std::string, std::string> Map;
typedef std::vector<PropagationMode> Modes;

namespace {
const PropagationMode AllModes[] = {
    PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy,
    PropagationMode::trace_context, PropagationMode::cloud_trace};

std::string name(PropagationMode m) {
  switch (m) {
    case PropagationMode::lightstep: return "lightstep";
    case PropagationMode::b3: return "b3";
    case PropagationMode::envoy: return "envoy";
    case PropagationMode::trace_context: return "trace_context";
    case PropagationMode::cloud_trace: return "cloud_trace";
  }
  return "?";
}
std::string name(const Modes& m) {
  std::string s = "[";
  for (auto x : m) s += (s.size() > 1 ? "," : "") + name(x);
  return s + "]";
}

struct Ctx {
  uint64_t hi = 0, lo = 0, span = 0;
  uint8_t flags = 0;
  std::string state;
  Map baggage;
  bool sampled() const { return flags & 1; }
};
std::string show(const Ctx& x) {
  char b[120];
  snprintf(b, sizeof b, "%016llx%016llx/%016llx flags %02x ",
           (unsigned long long)x.hi, (unsigned long long)x.lo,
           (unsigned long long)x.span, x.flags);
  return b + pbt::Case::quote(x.state, 60) + tracing::show(x.baggage);
}
Ctx read(const opentracing::SpanContext& sc) {
  auto& x = tracing::ctx(sc);
  Ctx r;
  r.hi = x.trace_id_high();
  r.lo = x.trace_id_low();
  r.span = x.span_id();
  r.flags = x.trace_flags();
  r.state = std::string(x.trace_state().data(), x.trace_state().size());
  r.baggage = tracing::baggage_of(sc);
  return r;
}

// ---- an independent description of the formats --------------------------
std::string lower(std::string s) {
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  return s;
}
std::string hex64(uint64_t v) {
  std::string s;
  for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15];
  return s;
}
std::string hex8(uint8_t v) { return hex64(v).substr(14); }
const char* B64 =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64_encode(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    int n = 0;
    for (; n < 3 && i + n < s.size(); ++n)
      v |= static_cast<uint32_t>(static_cast<unsigned char>(s[i + n]))
           << (16 - 8 * n);
    for (int k = 0; k <= n; ++k) r += B64[v >> (18 - 6 * k) & 63];
    for (int k = n; k < 3; ++k) r += '=';
  }
  return r;
}
bool b64_decode(const std::string& s, std::string& r) {
  r.clear();
  if (s.empty() || s.size() % 4) return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    uint32_t v = 0;
    int pad = 0;
    for (int k = 0; k < 4; ++k) {
      char ch = s[i + k];
      if (ch == '=' && i + 4 == s.size() && k >= 2) {
        ++pad;
        v <<= 6;
        continue;
      }
      const char* p = ch ? strchr(B64, ch) : nullptr;
      if (!p || pad) return false;
      v = v << 6 | static_cast<uint32_t>(p - B64);
    }
    if (pad && (v & ((1u << (8 * pad)) - 1))) return false;
    for (int k = 0; k < 3 - pad; ++k) r += static_cast<char>(v >> (16 - 8 * k));
  }
  return true;
}
// A number in hexadecimal, as the multi-header formats carry it.
bool loose_hex(const std::string& s, size_t digits, uint64_t& hi, uint64_t& lo) {
  size_t a = 0, b = s.size();
  auto space = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (a < b && space(s[a])) ++a;
  while (a < b && space(s[b - 1])) --b;
  if (a == b) return false;
  while (a < b && s[a] == '0') ++a;
  if (b - a > digits) return false;
  hi = lo = 0;
  for (; a < b; ++a) {
    const char* H = "0123456789abcdef";
    char ch = s[a] >= 'A' && s[a] <= 'F' ? static_cast<char>(s[a] + 32) : s[a];
    const char* p = ch ? strchr(H, ch) : nullptr;
    if (!p) return false;
    hi = hi << 4 | lo >> 60;
    lo = lo << 4 | static_cast<uint64_t>(p - H);
  }
  return true;
}
bool fixed_hex(const std::string& s, size_t at, size_t n, uint64_t& hi,
               uint64_t& lo) {
  if (at + n > s.size()) return false;
  for (size_t i = at; i < at + n; ++i)
    if (!isxdigit(static_cast<unsigned char>(s[i]))) return false;
  return loose_hex(s.substr(at, n), n, hi, lo);
}

enum Kind { None, Error, Found, Unspecified };
struct Outcome {
  Kind kind = None;
  Ctx ctx;
  bool loose_baggage = false;  // the same key twice
  bool loose_sampled = false;
};

bool same_key(const std::string& a, const std::string& b, bool sensitive) {
  return sensitive ? a == b : lower(a) == lower(b);
}
void take_baggage(const Headers& h, bool sensitive, Outcome& o) {
  const std::string prefix = "ot-baggage-";
  for (auto& x : h) {
    if (x.first.size() <= prefix.size() ||
        !same_key(x.first.substr(0, prefix.size()), prefix, sensitive))
      continue;
    std::string k = lower(x.first.substr(prefix.size()));
    auto r = o.ctx.baggage.emplace(k, x.second);
    if (!r.second && r.first->second != x.second) o.loose_baggage = true;
  }
}
Outcome ref_multi(const Headers& h, bool sensitive, const char* trace,
                  const char* span, const char* sampled) {
  Outcome o;
  int traces = 0, spans = 0, flags = 0;
  o.ctx.flags = 1;
  for (auto& x : h) {
    uint64_t unused;
    if (same_key(x.first, trace, sensitive)) {
      ++traces;
      if (!loose_hex(x.second, 32, o.ctx.hi, o.ctx.lo)) o.kind = Error;
    } else if (same_key(x.first, span, sensitive)) {
      ++spans;
      if (!loose_hex(x.second, 16, unused, o.ctx.span)) o.kind = Error;
    } else if (same_key(x.first, sampled, sensitive)) {
      ++flags;
      o.ctx.flags = !(x.second == "0" || x.second == "false");
    }
  }
  if (o.kind == Error) return o;
  if (traces + spans == 0) return o;
  if (traces == 1 && spans == 1) {
    o.kind = Found;
    o.loose_sampled = flags > 1;
    take_baggage(h, sensitive, o);
  } else {
    o.kind = Error;
  }
  return o;
}
Outcome ref_extract_one(PropagationMode mode, const Headers& h,
                        bool sensitive) {
  Outcome o;
  switch (mode) {
    case PropagationMode::lightstep:
      return ref_multi(h, sensitive, "ot-tracer-traceid", "ot-tracer-spanid",
                       "ot-tracer-sampled");
    case PropagationMode::b3:
      return ref_multi(h, sensitive, "X-B3-TraceId", "X-B3-SpanId",
                       "X-B3-Sampled");
    case PropagationMode::envoy: {
      int n = 0;
      std::string v;
      for (auto& x : h)
        if (same_key(x.first, "x-ot-span-context", sensitive) && n++ == 0)
          v = x.second;
      if (n == 0) return o;
      if (n > 1) {
        o.kind = Unspecified;
        return o;
      }
      o.kind = Error;
      std::string d;
      if (!b64_decode(v, d)) return o;
      BinaryCarrier carrier;
      if (!carrier.ParseFromString(d)) return o;
      o.kind = Found;
      auto& b = carrier.basic_ctx();
      o.ctx.lo = b.trace_id();
      o.ctx.span = b.span_id();
      o.ctx.flags = b.sampled();
      for (auto& kv : b.baggage_items()) {
        auto r = o.ctx.baggage.emplace(lower(kv.first), kv.second);
        if (!r.second) o.loose_baggage = true;
      }
      return o;
    }
    case PropagationMode::trace_context: {
      int parents = 0, states = 0;
      bool odd = false;
      for (auto& x : h) {
        if (same_key(x.first, "traceparent", sensitive)) {
          ++parents;
          auto& v = x.second;
          uint64_t hi, lo, version, fl;
          bool ok = v.size() >= 55 && fixed_hex(v, 0, 2, hi, version) &&
                    v[2] == '-' && fixed_hex(v, 3, 32, o.ctx.hi, o.ctx.lo) &&
                    v[35] == '-' && fixed_hex(v, 36, 16, hi, o.ctx.span) &&
                    v[52] == '-' && fixed_hex(v, 53, 2, hi, fl);
          if (!ok) {
            o.kind = Error;
            return o;
          }
          lo = fl;
          o.ctx.flags = static_cast<uint8_t>(lo);
          if (v.size() > 55) odd = true;
        } else if (same_key(x.first, "tracestate", sensitive)) {
          ++states;
          o.ctx.state = x.second;
        }
      }
      if (parents == 0) {
        o.ctx = Ctx();
        return o;
      }
      o.kind = parents > 1 || states > 1 || odd ? Unspecified : Found;
      take_baggage(h, sensitive, o);
      return o;
    }
    case PropagationMode::cloud_trace: {
      int n = 0;
      for (auto& x : h) {
        if (!same_key(x.first, "x-cloud-trace-context", sensitive)) continue;
        ++n;
        auto& v = x.second;
        o.ctx.flags = 1;
        o.ctx.span = 0;
        if (!fixed_hex(v, 0, 32, o.ctx.hi, o.ctx.lo)) {
          o.kind = Error;
          return o;
        }
        if (v.size() == 32) continue;
        if (v.size() == 33) {
          o.kind = Unspecified;
          continue;
        }
        if (v[32] != '/') {
          o.kind = Error;
          return o;
        }
        size_t i = 33;
        unsigned __int128 d = 0;
        while (i < v.size() && v[i] >= '0' && v[i] <= '9' && i < 33 + 30)
          d = d * 10 + static_cast<unsigned>(v[i++] - '0');
        if (d > ~0ull && i <= 33 + 20) {
          o.kind = Error;
          return o;
        }
        if (i == 33 || i > 33 + 20) {
          o.kind = Unspecified;
          continue;
        }
        o.ctx.span = static_cast<uint64_t>(d);
        if (i == v.size()) continue;
        std::string rest = v.substr(i);
        if (rest == ";o=0") {
          o.ctx.flags = 0;
        } else if (rest != ";o=1") {
          o.kind = Unspecified;
        }
      }
      if (n == 0) return Outcome();
      if (n > 1) o.kind = Unspecified;
      if (o.kind == None) o.kind = Found;
      take_baggage(h, sensitive, o);
      return o;
    }
  }
  return o;
}
Modes extract_order(const Modes& modes, bool single_key) {
  Modes in = modes, r;
  if (in.empty())
    in = {single_key ? PropagationMode::envoy : PropagationMode::lightstep};
  auto add = [&](PropagationMode m) {
    if (std::find(r.begin(), r.end(), m) == r.end()) r.push_back(m);
  };
  for (auto m : in) {
    add(m);
    if (m == PropagationMode::envoy) add(PropagationMode::lightstep);
  }
  return r;
}
Outcome ref_extract(const Modes& modes, bool single_key, const Headers& h,
                    bool sensitive) {
  for (auto m : extract_order(modes, single_key)) {
    Outcome o = ref_extract_one(m, h, sensitive);
    if (o.kind != None) return o;
  }
  return Outcome();
}
// Writes a context the way an implementation of the format does.
Headers ref_inject(PropagationMode m, const Ctx& x) {
  switch (m) {
    case PropagationMode::lightstep:
      return {{"ot-tracer-traceid", hex64(x.lo)},
              {"ot-tracer-spanid", hex64(x.span)},
              {"ot-tracer-sampled", x.sampled() ? "1" : "0"}};
    case PropagationMode::b3:
      return {{"X-B3-TraceId", (x.hi ? hex64(x.hi) : "") + hex64(x.lo)},
              {"X-B3-SpanId", hex64(x.span)},
              {"X-B3-Sampled", x.sampled() ? "1" : "0"}};
    case PropagationMode::envoy: {
      BinaryCarrier c;
      auto* b = c.mutable_basic_ctx();
      b->set_trace_id(x.lo);
      b->set_span_id(x.span);
      b->set_sampled(x.sampled());
      for (auto& kv : x.baggage)
        (*b->mutable_baggage_items())[kv.first] = kv.second;
      return {{"x-ot-span-context", b64_encode(c.SerializeAsString())}};
    }
    case PropagationMode::trace_context: {
      Headers h = {{"traceparent", "00-" + hex64(x.hi) + hex64(x.lo) + "-" +
                                       hex64(x.span) + "-" + hex8(x.flags)}};
      if (!x.state.empty()) h.emplace_back("tracestate", x.state);
      return h;
    }
    case PropagationMode::cloud_trace:
      return {{"x-cloud-trace-context",
               hex64(x.hi) + hex64(x.lo) + "/" + std::to_string(x.span) +
                   ";o=" + (x.sampled() ? "1" : "0")}};
  }
  return {};
}

// ---- generators -----------------------------------------------------------
Modes gen_modes(pbt::Case& c, int min) {
  Modes m;
  int n = c.range(min, 4);
  for (int i = 0; i < n; ++i) m.push_back(c.pick(AllModes));
  return m;
}
uint64_t gen_id(pbt::Case& c) {
  switch (c.draw(4)) {
    case 0: return c.u64();
    case 1: return c.range(0, 300);
    case 2: return ~0ull - c.draw(3);
    case 3: return 1ull << c.range(0, 63);
    default: return 10000000000000000000ull + c.draw(1000);
  }
}
std::string header_text(pbt::Case& c) {
  if (c.chance(1, 25)) {
    std::string s(c.chance(1, 6) ? c.range(8000, 40000) : c.range(64, 700), 'v');
    s[c.range(0, s.size() - 1)] = 'w';
    return s;
  }
  return c.chance(1, 6) ? gen::utf8(c, 12)
                        : c.over("abcXYZ019=,;/+ -_.%", c.size(30));
}
Map gen_baggage(pbt::Case& c) {
  Map m;
  int n = c.weighted({2, 2, 2, 1}) ;
  if (c.chance(1, 20)) n = c.range(5, 25);
  std::string last;
  for (int i = 0; i < n; ++i) {
    std::string k = c.over("abcXYZ019-_", c.chance(1, 8) ? c.range(11, 80) : c.range(1, 10));
    if (!last.empty() && c.chance(1, 4)) {  // much like the one before
      k = last;
      if (c.boolean()) k += c.over("ab0-", 1);
      else if (c.boolean()) k.back() = c.over("ab0-", 1)[0];
      else k.pop_back();
      if (k.empty()) k = "a";
    }
    last = k;
    m[lower(k)] = header_text(c);
  }
  return m;
}
Ctx gen_ctx(pbt::Case& c, bool wide) {
  Ctx x;
  if (wide && c.chance(2, 3)) x.hi = gen_id(c);
  x.lo = gen_id(c);
  x.span = gen_id(c);
  x.flags = wide && c.boolean() ? static_cast<uint8_t>(c.draw(255))
                                : static_cast<uint8_t>(c.boolean());
  if (wide && c.boolean())
    x.state = c.chance(1, 8) ? c.over("ab=,", 1)
                             : c.over("abc", c.range(1, 4)) + "=" + c.over("a1,=", c.size(20));
  x.baggage = gen_baggage(c);
  return x;
}
std::string random_case(pbt::Case& c, std::string s) {
  if (c.boolean()) return s;
  for (auto& ch : s)
    if (c.boolean()) {
      if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
      else if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
    }
  return s;
}
void shuffle(pbt::Case& c, Headers& h) {
  for (size_t i = h.size(); i > 1; --i)
    std::swap(h[i - 1], h[c.range(0, static_cast<int>(i) - 1)]);
}
// Headers that have nothing to do with tracing.
void add_noise(pbt::Case& c, Headers& h) {
  static const char* names[] = {
      "accept", "content-type", "", "x", "ot-baggage-", "ot-baggag", "ot-tracer",
      "ot-tracer-", "x-b3-", "x-b3-parentspanid", "X-B3-Flags", "traceparen",
      "traceparents", "x-ot-span-contex", "x-request-id",
      "x-cloud-trace-contexts", "ot-tracer-traceidx", "b3"};
  int n = c.weighted({2, 1, 1, 1});
  for (int i = 0; i < n; ++i) {
    std::string k = c.chance(1, 5) ? c.over("abc-", c.size(8)) : c.pick(names);
    h.emplace_back(k, header_text(c));
  }
}

LightStepTracerOptions with_modes(const Modes& m, bool single_key) {
  LightStepTracerOptions o;
  o.propagation_modes = m;
  o.use_single_key_propagation = single_key;
  return o;
}
typedef opentracing::expected<std::unique_ptr<opentracing::SpanContext>>
    Extracted;
struct Reading {
  bool http = false, lookup = false;
  int fail_after = -1, fail_at = -1;
  bool fail_lookup = false;
  int* failures = nullptr;
};
template <class R>
Extracted extract_with(const opentracing::Tracer& t, const Headers& h,
                       const Reading& r) {
  R rd(h);
  rd.lookup = r.lookup;
  rd.fail_after = r.fail_after;
  rd.fail_at = r.fail_at;
  rd.fail_lookup = r.fail_lookup;
  auto got = t.Extract(rd);
  if (r.failures) *r.failures = rd.failures;
  return got;
}
Extracted extract(const opentracing::Tracer& t, const Headers& h,
                  const Reading& r) {
  return r.http ? extract_with<tracing::HttpReader>(t, h, r)
                : extract_with<tracing::TextReader>(t, h, r);
}
std::string diff(const Ctx& got, const Ctx& want, bool any_baggage = false,
                 bool any_sampled = false) {
  bool ok = got.hi == want.hi && got.lo == want.lo && got.span == want.span &&
            got.state == want.state &&
            (any_sampled ? (got.flags | 1) == (want.flags | 1)
                         : got.flags == want.flags);
  if (any_baggage) {
    ok = ok && got.baggage.size() == want.baggage.size();
    for (auto& kv : want.baggage) ok = ok && got.baggage.count(kv.first);
  } else {
    ok = ok && got.baggage == want.baggage;
  }
  return ok ? "" : "got " + show(got) + ", expected " + show(want);
}
// A context as the tracer holds it.
struct Held {
  std::unique_ptr<opentracing::Span> span;
  std::unique_ptr<opentracing::SpanContext> context;
  const opentracing::SpanContext& get() const {
    return span ? span->context() : *context;
  }
};
Held hold(pbt::Case& c, const LightStepTracer& t, Ctx& x, bool wide) {
  Held h;
  int how = c.range(0, 2);
  if (how == 0 || wide) {
    if (!wide) {
      x.hi = 0;
      x.flags &= 1;
      x.state.clear();
      auto r = t.MakeSpanContext(
          x.lo, x.span, x.sampled(),
          std::unordered_map<std::string, std::string>(x.baggage.begin(),
                                                       x.baggage.end()));
      c.check(static_cast<bool>(r), "MakeSpanContext failed");
      h.context = std::move(*r);
    } else {
      // only another process has more than 64 bits to its trace id
      auto fx = tracing::make(false,
                              with_modes({PropagationMode::trace_context}, false));
      Headers hs = ref_inject(PropagationMode::trace_context, x);
      for (auto& kv : x.baggage) hs.emplace_back("ot-baggage-" + kv.first, kv.second);
      auto r = fx.tracer->Extract(tracing::TextReader(hs));
      c.check(r && *r, "cannot extract ", tracing::show(hs));
      h.context = std::move(*r);
    }
    if (how == 0) return h;
  }
  // a span, maybe the child of that context
  opentracing::StartSpanOptions o;
  if (h.context)
    o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef,
                              h.context.get());
  h.span = t.StartSpanWithOptions("s", o);
  c.check(h.span != nullptr, "StartSpan failed");
  for (auto& kv : x.baggage) h.span->SetBaggageItem(kv.first, kv.second);
  if (!h.context) {
    x.hi = 0;
    x.state.clear();
    h.span->SetTag("sampling.priority", x.sampled() ? 1 : 0);
    x.flags = x.sampled();
    x.lo = tracing::ctx(h.span->context()).trace_id_low();
  }
  x.span = tracing::ctx(h.span->context()).span_id();
  return h;
}
// What a format can carry of a context.
Ctx carried(Ctx x, PropagationMode m) {
  if (m != PropagationMode::trace_context) {
    x.flags &= 1;
    x.state.clear();
  }
  if (m == PropagationMode::lightstep || m == PropagationMode::envoy) x.hi = 0;
  return x;
}
}  // namespace

// ---------------------------------------------------------------------------
// P15
PROPERTY(context_round_trip, p.check_memory = true) {
  ForeignLocale locale{c};
  Modes out = gen_modes(c, 0), in = c.boolean() ? out : gen_modes(c, 0);
  bool out_single = c.chance(1, 4), in_single = c.chance(1, 4);
  auto a = tracing::make(c.chance(1, 4), with_modes(out, out_single));
  auto b = tracing::make(c.chance(1, 4), with_modes(in, in_single));
  bool wide = c.boolean();
  Ctx x = gen_ctx(c, wide);
  Held h = hold(c, *a.tracer, x, wide);
  Modes injected = out;
  if (injected.empty())
    injected = {out_single ? PropagationMode::envoy : PropagationMode::lightstep};
  c.note(name(out), out_single ? "single " : " ", show(x), " -> ", name(in),
         in_single ? "single" : "");
  std::string d = diff(read(h.get()), x);
  c.check(d.empty(), "context before it is sent: ", d);
  Reading r;
  r.http = c.boolean();
  r.lookup = c.boolean();
  Headers hs;
  if (r.http) {
    tracing::HttpWriter w;
    c.check(static_cast<bool>(a.tracer->Inject(h.get(), w)), "Inject failed");
    hs = w.headers;
    for (auto& k : hs) k.first = random_case(c, k.first);
  } else {
    tracing::TextWriter w;
    c.check(static_cast<bool>(a.tracer->Inject(h.get(), w)), "Inject failed");
    hs = w.headers;
  }
  add_noise(c, hs);
  shuffle(c, hs);
  // the first format both sides know
  bool found = false;
  Ctx want;
  for (auto m : extract_order(in, in_single)) {
    if (std::find(injected.begin(), injected.end(), m) == injected.end())
      continue;
    found = true;
    want = carried(x, m);
    break;
  }
  auto got = extract(*b.tracer, hs, r);
  c.check(static_cast<bool>(got), "Extract failed on ", tracing::show(hs));
  c.check((*got != nullptr) == found,
          found ? "nothing extracted from " : "something extracted from ",
          tracing::show(hs));
  if (!found) {
    c.classify("no common format");
    return;
  }
  d = diff(read(**got), want);
  c.check(d.empty(), d, " from ", tracing::show(hs));
  if (!x.baggage.empty() && hs.size() > 3) c.nontrivial();
}

// A carrier that fails while being written or read.
PROPERTY(carrier_failures, p.check_memory = true) {
  ForeignLocale locale{c};
  Modes modes = gen_modes(c, 1);
  auto a = tracing::make(c.chance(1, 4), with_modes(modes, false));
  bool wide = c.boolean();
  Ctx x = gen_ctx(c, wide);
  Held h = hold(c, *a.tracer, x, wide);
  bool http = c.boolean();
  auto inject = [&](int fail, Headers& hs) {
    if (http) {
      tracing::HttpWriter w;
      w.fail_after = fail;
      auto r = a.tracer->Inject(h.get(), w);
      hs = w.headers;
      return static_cast<bool>(r);
    }
    tracing::TextWriter w;
    w.fail_after = fail;
    auto r = a.tracer->Inject(h.get(), w);
    hs = w.headers;
    return static_cast<bool>(r);
  };
  Headers all, part;
  c.check(inject(-1, all), "Inject failed");
  int fail = c.range(0, static_cast<int>(all.size()));
  c.note(name(modes), " writer fails after ", fail, " of ", all.size());
  bool ok = inject(fail, part);
  c.equal(ok, fail == static_cast<int>(all.size()), "Inject succeeded");
  c.equal(part.size(), static_cast<size_t>(fail), "headers written");
  // reading
  Reading r;
  r.http = http;
  r.lookup = c.chance(1, 3);
  int failures = 0;
  r.failures = &failures;
  if (c.boolean())
    r.fail_after = c.range(0, static_cast<int>(all.size()) - 1);
  else
    r.fail_at = c.range(0, static_cast<int>(all.size()) * 2);
  r.fail_lookup = r.lookup && c.chance(1, 4);
  shuffle(c, all);
  auto got = extract(*a.tracer, all, r);
  if (failures > 0) {
    c.check(!got, "Extract hides that the carrier failed at ", r.fail_after,
            "/", r.fail_at, " of ", tracing::show(all));
  } else {
    c.check(got && *got, "not extracted although nothing failed");
    std::string d = diff(read(**got), carried(x, modes[0]));
    c.check(d.empty(), d);
  }
  c.classify(failures ? "failed" : "did not fail");
  if (fail > 0 && failures > 0) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P16
namespace {
void mutate_value(pbt::Case& c, std::string& v) {
  size_t n = v.size();
  switch (c.draw(9)) {
    case 0:
      if (n) v.resize(c.range(0, n - 1));
      break;
    case 1:
      if (c.boolean()) {
        v += c.over("0aF-/;o=1 \t", c.range(1, 3));
      } else {  // another delimiter
        size_t at = v.find_first_of("-/;=");
        if (at != std::string::npos && c.boolean())
          at = std::min(v.find_first_of("-/;=", at + 1), v.size());
        if (at < n) v[at] = c.over("-/;=o:, _", 1)[0];
      }
      break;
    case 2: v.insert(c.range(0, n), c.over("0aFgz-/;=+ \n\x80\xff", 1)); break;
    case 3:
      if (n) v[c.range(0, n - 1)] = c.over("09afAFgG-/;o= +\x80\xff", 1)[0];
      break;
    case 4:
      if (n) v.erase(c.range(0, n - 1), c.range(1, 3));
      break;
    case 5: v = random_case(c, v); break;
    case 6: v = c.bytes(c.size(64)); break;
    case 7: v = (c.boolean() ? " " : "\t") + v + (c.boolean() ? " " : "");
      break;
    case 8: v = std::string(c.range(1, 40), '0') + v; break;
    default: v = c.over("0123456789abcdefABCDEF", c.size(40)); break;
  }
}
// A value at the edge of what its field can hold.
void edge_value(pbt::Case& c, const std::string& key, std::string& v) {
  std::string k = lower(key);
  static const char* const decimals[] = {
      "18446744073709551615", "18446744073709551616", "18446744073709551625",
      "20000000000000000000", "99999999999999999999", "0", "00", "1",
      "9223372036854775808", "00000000000000000001", "018446744073709551615",
      "10000000000000000000", "4294967296"};
  static const char* const hexes[] = {
      "0000000000000000", "ffffffffffffffff", "10000000000000000",
      "00000000000000001", "0ffffffffffffffff", "8000000000000000", "1", "0",
      "ffffffffffffffffffffffffffffffff", "00000000000000010000000000000000",
      "100000000000000000000000000000000", "0000000000000000ffffffffffffffff"};
  if (k == "x-cloud-trace-context") {
    size_t slash = v.find('/'), semi = v.find(';');
    if (slash == std::string::npos) v += "/", slash = v.size() - 1;
    if (semi == std::string::npos || semi < slash) semi = v.size();
    std::string d = c.chance(1, 4) ? std::to_string(c.u64()) : c.pick(decimals);
    if (c.chance(1, 8)) d = c.over("0123456789", 18 + c.draw(3));
    v = v.substr(0, slash + 1) + d + v.substr(semi);
  } else if (k == "traceparent") {
    static const size_t at[] = {0, 2, 3, 19, 35, 36, 52, 53};
    size_t i = c.pick(at);
    size_t n = i == 0 || i == 53 ? 2 : i == 3 || i == 19 || i == 36 ? 16 : 1;
    if (i + n <= v.size())
      v.replace(i, n, std::string(n, c.over("0f1-_g", 1)[0]));
  } else {
    v = c.chance(1, 4) ? hex64(c.u64()) : c.pick(hexes);
  }
}
std::string binary(pbt::Case& c, const Ctx& x) {
  std::string s;
  BinaryCarrier carrier;
  auto* b = carrier.mutable_basic_ctx();
  b->set_trace_id(x.lo);
  b->set_span_id(x.span);
  b->set_sampled(x.sampled());
  for (auto& kv : x.baggage)
    (*b->mutable_baggage_items())[random_case(c, kv.first)] = kv.second;
  if (c.chance(1, 4)) carrier.add_deprecated_text_ctx(c.bytes(c.size(10)));
  if (c.chance(1, 10)) carrier.clear_basic_ctx();
  s = carrier.SerializeAsString();
  if (c.chance(1, 4)) {  // a field of a later version
    s += "\x1a\x03xyz";
  }
  return s;
}
}  // namespace

PROPERTY(extract_any_headers, p.check_memory = true) {
  ForeignLocale locale{c};
  Modes modes = gen_modes(c, 0);
  bool single = c.chance(1, 4);
  auto fx = tracing::make(c.chance(1, 4), with_modes(modes, single));
  Reading r;
  r.http = c.boolean();
  r.lookup = c.boolean();
  Headers hs;
  Ctx x = gen_ctx(c, true);
  int formats = c.range(0, 3);
  for (int i = 0; i < formats; ++i) {
    PropagationMode m =
        c.boolean() || modes.empty() ? c.pick(AllModes) : c.pick(modes);
    Headers more;
    if (m == PropagationMode::envoy && c.boolean()) {
      std::string s = binary(c, x);
      if (c.chance(1, 3)) mutate_value(c, s);
      more = {{"x-ot-span-context", b64_encode(s)}};
    } else {
      more = ref_inject(m, x);
    }
    for (auto& h : more) hs.push_back(h);
    if (c.chance(1, 2)) x = gen_ctx(c, true);
  }
  for (auto& kv : x.baggage)
    hs.emplace_back("ot-baggage-" + random_case(c, kv.first), kv.second);
  add_noise(c, hs);
  int mutations = c.weighted({2, 4, 2, 1});
  for (int i = 0; i < mutations && !hs.empty(); ++i) {
    size_t at = c.range(0, static_cast<int>(hs.size()) - 1);
    switch (c.weighted({6, 2, 1, 1, 1, 4})) {
      case 0: mutate_value(c, hs[at].second); break;
      case 5: edge_value(c, hs[at].first, hs[at].second); break;
      case 1: hs.erase(hs.begin() + at); break;
      case 2: {
        auto copy = hs[at];
        hs.push_back(copy);
        break;
      }
      case 3: mutate_value(c, hs[at].first); break;
      default: hs[at].second = hs[c.range(0, hs.size() - 1)].second;
    }
  }
  if (r.http || c.chance(1, 6))
    for (auto& h : hs) h.first = random_case(c, h.first);
  shuffle(c, hs);
  c.note(name(modes), single ? " single" : "", r.http ? " http " : " text ",
         tracing::show(hs));
  Outcome o = ref_extract(modes, single, hs, !r.http);
  auto got = extract(*fx.tracer, hs, r);
  switch (o.kind) {
    case None:
      c.check(static_cast<bool>(got), "error although there is no context");
      if (*got)
        c.fail("found a context where there is none: ", show(read(**got)));
      c.classify("none");
      break;
    case Error:
      c.check(!got, "damaged context accepted: ",
              got && *got ? show(read(**got)) : "as none");
      c.check(static_cast<bool>(got.error()), "no error code");
      c.classify("error");
      break;
    case Found: {
      c.check(static_cast<bool>(got), "context refused");
      c.check(*got != nullptr, "context not found");
      std::string d =
          diff(read(**got), o.ctx, o.loose_baggage, o.loose_sampled);
      c.check(d.empty(), d);
      c.classify("context");
      break;
    }
    case Unspecified:
      if (got && *got) read(**got);
      c.classify("unspecified");
  }
  if (formats && o.kind != None) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P17
PROPERTY(injected_headers, p.check_memory = true) {
  ForeignLocale locale{c};
  Modes modes = gen_modes(c, 0);
  bool single = c.chance(1, 4);
  auto fx = tracing::make(c.chance(1, 4), with_modes(modes, single));
  bool wide = c.boolean();
  Ctx x = gen_ctx(c, wide);
  Held h = hold(c, *fx.tracer, x, wide);
  Headers got;
  if (c.boolean()) {
    tracing::HttpWriter w;
    c.check(static_cast<bool>(fx.tracer->Inject(h.get(), w)), "Inject failed");
    got = w.headers;
  } else {
    tracing::TextWriter w;
    c.check(static_cast<bool>(fx.tracer->Inject(h.get(), w)), "Inject failed");
    got = w.headers;
  }
  c.note(name(modes), single ? " single " : " ", show(x), " -> ",
         tracing::show(got));
  Modes m = modes;
  if (m.empty())
    m = {single ? PropagationMode::envoy : PropagationMode::lightstep};
  Headers want;
  Modes done;
  bool only_envoy = true;
  for (auto k : m) {
    only_envoy = only_envoy && k == PropagationMode::envoy;
    if (std::find(done.begin(), done.end(), k) != done.end()) continue;
    done.push_back(k);
    for (auto& e : ref_inject(k, x)) want.push_back(e);
  }
  if (!only_envoy)
    for (auto& kv : x.baggage)
      want.emplace_back("ot-baggage-" + kv.first, kv.second);
  // baggage next to a repeated envoy is redundant but harmless
  if (only_envoy && m.size() > 1)
    got.erase(std::remove_if(got.begin(), got.end(),
                             [](const std::pair<std::string, std::string>& e) {
                               return e.first.compare(0, 11, "ot-baggage-") == 0;
                             }),
              got.end());
  // the order of the items of a serialized map is not defined
  auto normal = [&](Headers& hs) {
    for (auto& e : hs) {
      if (e.first != "x-ot-span-context") continue;
      std::string s;
      c.check(b64_decode(e.second, s), "not base64: ", e.second);
      BinaryCarrier b;
      c.check(b.ParseFromString(s), "not a binary carrier");
      Ctx y;
      y.lo = b.basic_ctx().trace_id();
      y.span = b.basic_ctx().span_id();
      y.flags = b.basic_ctx().sampled();
      y.baggage = Map(b.basic_ctx().baggage_items().begin(),
                      b.basic_ctx().baggage_items().end());
      e.second = show(y) + std::to_string(b.deprecated_text_ctx_size());
    }
    std::sort(hs.begin(), hs.end());
  };
  normal(got);
  normal(want);
  c.equal(tracing::show(got), tracing::show(want), "headers");
  if (got.size() > 3 && !x.baggage.empty()) c.nontrivial();
}

// Contexts as other implementations of the formats write them.
PROPERTY(foreign_headers, p.check_memory = true) {
  ForeignLocale locale{c};
  PropagationMode m = c.pick(AllModes);
  Modes modes = {m};
  if (c.chance(1, 3)) modes.insert(modes.begin() + c.range(0, 1), c.pick(AllModes));
  auto fx = tracing::make(c.chance(1, 4), with_modes(modes, false));
  Ctx x = gen_ctx(c, true);
  Headers hs = ref_inject(m, x);
  Ctx want = carried(x, m);
  auto digits = [&](std::string& s) {  // another spelling of a number
    if (c.boolean()) s = random_case(c, s);
    if (c.chance(1, 3)) {
      size_t i = s.find_first_not_of('0');
      s.erase(0, i == std::string::npos ? s.size() - 1 : i);
    } else if (c.chance(1, 4)) {
      s.insert(0, c.range(1, 20), '0');
    }
    if (c.chance(1, 5)) s = " " + s;
    if (c.chance(1, 5)) s += " ";
  };
  if (m == PropagationMode::lightstep || m == PropagationMode::b3) {
    if (m == PropagationMode::lightstep && c.boolean()) {
      want.hi = x.hi;  // a 128-bit id is read in full
      hs[0].second = hex64(x.hi) + hex64(x.lo);
    }
    digits(hs[0].second);
    digits(hs[1].second);
    if (c.chance(1, 3)) {
      hs.pop_back();  // left to the receiver: sampled
      want.flags = 1;
    } else if (c.chance(1, 2)) {
      hs[2].second = x.sampled() ? "true" : "false";
    }
  } else if (m == PropagationMode::trace_context) {
    hs[0].second = random_case(c, hs[0].second);
    if (c.chance(1, 4))  // a later version with the fields of the first
      hs[0].second.replace(0, 2, hex8(static_cast<uint8_t>(c.range(0, 254))));
  } else if (m == PropagationMode::cloud_trace) {
    std::string& s = hs[0].second;
    switch (c.draw(3)) {
      case 0: break;
      case 1:
        s.resize(s.find(';'));
        want.flags = 1;
        break;
      case 2:
        s.resize(32);
        want.flags = 1;
        want.span = 0;
        break;
      default: break;
    }
    s = random_case(c, s.substr(0, 32)) + s.substr(32);
  } else {
    std::string d = binary(c, x);
    if (d.empty()) d = std::string("\x12\x00", 2);
    hs[0].second = b64_encode(d);
    BinaryCarrier b;
    b64_decode(hs[0].second, d);
    b.ParseFromString(d);
    want.lo = b.basic_ctx().trace_id();
    want.span = b.basic_ctx().span_id();
    want.flags = b.basic_ctx().sampled();
    want.baggage.clear();
    for (auto& kv : b.basic_ctx().baggage_items())
      want.baggage[lower(kv.first)] = kv.second;
  }
  if (m != PropagationMode::envoy)
    for (auto& kv : x.baggage)
      hs.emplace_back("ot-baggage-" + random_case(c, kv.first), kv.second);
  Reading r;
  r.http = c.boolean();
  r.lookup = c.boolean();
  if (r.http)
    for (auto& h : hs) h.first = random_case(c, h.first);
  add_noise(c, hs);
  shuffle(c, hs);
  c.note(name(modes), r.http ? " http " : " text ", tracing::show(hs));
  auto got = extract(*fx.tracer, hs, r);
  c.check(static_cast<bool>(got), "Extract failed");
  c.check(*got != nullptr, "nothing extracted");
  std::string d = diff(read(**got), want);
  c.check(d.empty(), d);
  if (hs.size() > 2) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P33
namespace {
// Accepts a number of bytes, then fails.
struct Limited : std::streambuf {
  std::string data;
  size_t limit;
  bool fail_sync;
  explicit Limited(size_t n, bool fs) : limit(n), fail_sync(fs) {}
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t k = std::min<size_t>(n, limit - data.size());
    data.append(s, k);
    return static_cast<std::streamsize>(k);
  }
  int overflow(int ch) override {
    if (ch == EOF) return 0;
    if (data.size() >= limit) return EOF;
    data.push_back(static_cast<char>(ch));
    return ch;
  }
  int sync() override { return fail_sync ? -1 : 0; }
};
// Delivers its bytes in pieces, then the end.
struct Pieces : std::streambuf {
  long fail_at = -1;  // as of this byte
  bool failed = false;
  std::string data;
  std::vector<size_t> cuts;
  size_t at = 0, cut = 0;
  std::vector<char> piece;
  int underflow() override {
    if (fail_at >= 0 && at >= static_cast<size_t>(fail_at)) {
      failed = true;
      throw std::runtime_error{"read error"};
    }
    if (at == data.size()) return EOF;
    size_t n = cut < cuts.size() ? cuts[cut++] : data.size();
    n = std::min(std::max<size_t>(n, 1), data.size() - at);
    if (fail_at >= 0) n = std::min<size_t>(n, fail_at - at);
    piece.assign(data.begin() + at, data.begin() + at + n);
    at += n;
    setg(piece.data(), piece.data(), piece.data() + n);
    return static_cast<unsigned char>(piece[0]);
  }
};
}  // namespace

PROPERTY(binary_stream, p.check_memory = true) {
  ForeignLocale locale{c};
  Modes modes = gen_modes(c, 0);
  auto fx = tracing::make(c.chance(1, 4), with_modes(modes, c.boolean()));
  bool wide = c.boolean();
  Ctx x = gen_ctx(c, wide);
  Held h = hold(c, *fx.tracer, x, wide);
  std::stringstream ss;
  c.check(static_cast<bool>(
              fx.tracer->Inject(h.get(), static_cast<std::ostream&>(ss))),
          "Inject failed");
  std::string s = ss.str();
  c.note(show(x), " -> ", s.size(), " bytes");
  BinaryCarrier b;
  c.check(b.ParseFromString(s), "not a binary carrier");
  Ctx want = carried(x, PropagationMode::envoy), y;
  y.lo = b.basic_ctx().trace_id();
  y.span = b.basic_ctx().span_id();
  y.flags = b.basic_ctx().sampled();
  y.baggage = Map(b.basic_ctx().baggage_items().begin(),
                  b.basic_ctx().baggage_items().end());
  std::string d = diff(y, want);
  c.check(d.empty(), "written: ", d);
  // into a stream that fails
  Limited lim(c.range(0, static_cast<int>(s.size()) + 4), c.chance(1, 4));
  {
    std::ostream os(&lim);
    bool bad = c.chance(1, 8);
    if (bad) os.setstate(std::ios::badbit);
    bool ok = static_cast<bool>(fx.tracer->Inject(h.get(), os));
    c.equal(ok, !bad && lim.limit >= s.size() && !lim.fail_sync,
            "Inject into a failing stream succeeded");
    if (ok) c.equal(lim.data.size(), s.size(), "bytes written");
  }
  // read back, maybe changed
  int mutations = c.weighted({3, 2, 1});
  if (c.chance(1, 4)) s = binary(c, x);
  for (int i = 0; i < mutations; ++i) mutate_value(c, s);
  Pieces pieces;
  pieces.data = s;
  int n = c.range(0, 6);
  for (int i = 0; i < n; ++i) pieces.cuts.push_back(c.range(1, 20));
  if (c.chance(1, 5)) {
    pieces.fail_at = c.range(0, s.size());
    c.note("the stream fails at ", pieces.fail_at);
  }
  std::istream is(&pieces);
  int state = c.weighted({8, 1, 1});
  if (state == 1) is.setstate(std::ios::badbit);
  if (state == 2) is.setstate(std::ios::failbit);
  auto got = fx.tracer->Extract(is);
  BinaryCarrier in;
  if (state) {
    c.check(!got, "Extract from a broken stream succeeded");
  } else if (pieces.failed) {
    c.check(!got, "Extract from a failing stream succeeded");
    c.classify("read error");
  } else if (s.empty()) {
    c.check(got && *got == nullptr, "an empty stream holds a context");
    c.classify("empty");
  } else if (!in.ParseFromString(s)) {
    c.check(!got, "damaged context accepted");
    c.classify("damaged");
  } else {
    c.check(got && *got, "context refused");
    Ctx w;
    w.lo = in.basic_ctx().trace_id();
    w.span = in.basic_ctx().span_id();
    w.flags = in.basic_ctx().sampled();
    bool loose = false;
    for (auto& kv : in.basic_ctx().baggage_items())
      loose = !w.baggage.emplace(lower(kv.first), kv.second).second || loose;
    d = diff(read(**got), w, loose);
    c.check(d.empty(), "read: ", d);
    if (!w.baggage.empty()) c.nontrivial();
  }
}

PROPERTY(binary_message, p.check_memory = true) {
  ForeignLocale locale{c};
  auto fx = tracing::make(c.chance(1, 4));
  bool wide = c.boolean();
  Ctx x = gen_ctx(c, wide);
  Held h = hold(c, *fx.tracer, x, wide);
  c.note(show(x));
  BinaryCarrier carrier;
  if (c.boolean()) {  // left over from before
    auto* b = carrier.mutable_basic_ctx();
    b->set_trace_id(c.u64());
    (*b->mutable_baggage_items())["old"] = "item";
    carrier.add_deprecated_text_ctx("x");
  }
  LightStepBinaryWriter writer(carrier);
  c.check(static_cast<bool>(fx.tracer->Inject(h.get(), writer)),
          "Inject failed");
  LightStepBinaryReader reader(&carrier);
  auto got = fx.tracer->Extract(reader);
  c.check(got && *got, "Extract failed");
  std::string d =
      diff(read(**got), carried(x, PropagationMode::envoy));
  c.check(d.empty(), d);
  // the message and the stream are the same format
  std::stringstream ss;
  c.check(static_cast<bool>(
              fx.tracer->Inject(h.get(), static_cast<std::ostream&>(ss))),
          "Inject failed");
  BinaryCarrier other;
  c.check(other.ParseFromString(ss.str()), "stream does not parse");
  LightStepBinaryReader reader2(&other);
  auto got2 = fx.tracer->Extract(reader2);
  c.check(got2 && *got2, "Extract failed");
  d = diff(read(**got2), read(**got));
  c.check(d.empty(), "message and stream differ: ", d);
  // nothing, and things that do not belong together
  LightStepBinaryReader none(nullptr);
  auto r = fx.tracer->Extract(none);
  c.check(r && *r == nullptr, "context from no message");
  auto noop = opentracing::MakeNoopTracer();
  c.check(!reader.Extract(*noop), "extracted with a foreign tracer");
  c.check(!writer.Inject(*noop, h.get()), "injected with a foreign tracer");
  tracing::Foreign foreign;
  c.check(!fx.tracer->Inject(foreign, writer), "injected a foreign context");
  std::stringstream fs;
  c.check(!fx.tracer->Inject(foreign, static_cast<std::ostream&>(fs)) &&
              fs.str().empty(),
          "injected a foreign context");
  if (!x.baggage.empty()) c.nontrivial();
}
