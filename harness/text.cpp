// Values and their JSON, HTTP chunk framing and status lines, hexadecimal ids,
// configuration files, logging.
#include <fcntl.h>
#include <sys/mman.h>
#include <atomic>
#include <iostream>
#include <locale>
#include <mutex>
#include <set>
#include <thread>
#include "common/chunked_http_framing.h"
#include "common/hex_conversion.h"
#include "common/logger.h"
#include "common/serialization.h"
#include "common/utility.h"
#include "gen.hpp"
#include "lightstep-tracer-configuration/tracer_configuration.pb.h"
#include "recorder/stream_recorder/status_line_parser.h"
#include "tracer/json_options.h"
#include "tracer/serialization.h"

#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/util/json_util.h>
#include <google/protobuf/util/message_differencer.h>

using namespace lightstep;
using google::protobuf::io::CodedOutputStream;
using google::protobuf::io::StringOutputStream;

// ---------------------------------------------------------------------------
// P14
namespace {
struct Grouping : std::numpunct<char> {
  std::string do_grouping() const override { return "\3"; }
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
};
bool is_compound(const opentracing::Value& v) {
  return v.is<opentracing::Values>() || v.is<opentracing::Dictionary>();
}
}  // namespace

PROPERTY(value_encoding) {
  gen::Holder h;
  std::string key = gen::utf8(c, 30);
  opentracing::Value v = gen::value(c, h, c.range(0, 4));
  // a process may run under any locale
  bool locale = c.chance(1, 6);
  std::locale old;
  if (locale) std::locale::global(std::locale(std::locale(), new Grouping));
  std::string js, error;
  collector::KeyValue kv;
  std::string s;
  try {
    js = ToJson(v);
    kv = ToKeyValue(key, v);
    StringOutputStream os{&s};
    CodedOutputStream co{&os};
    WriteKeyValue<6>(co, key, v);
  } catch (const std::exception& e) {
    error = e.what();
  }
  std::locale::global(old);
  c.note(locale ? "locale " : "", pbt::Case::quote(key), "=",
         pbt::Case::quote(js, 400));
  c.check(error.empty(), "threw ", error);
  try {
    std::string m = gen::json_mismatch(json::parse(js), v);
    c.check(m.empty(), "JSON: ", m);
  } catch (const std::runtime_error& e) {
    c.fail("JSON is not well-formed: ", e.what());
  }
  std::string m = gen::kv_mismatch(kv, key, v);
  c.check(m.empty(), "key-value: ", m);
  // the streaming encoder writes the same tag
  collector::Span span;
  c.check(span.ParseFromString(s), "written key-value does not parse");
  c.equal(span.tags_size(), 1, "tags");
  m = gen::kv_mismatch(span.tags(0), key, v);
  c.check(m.empty(), "written key-value: ", m);
  if (is_compound(v)) c.nontrivial();
}

// Several values through one JSON array, as a span's serialization does it.
PROPERTY(value_sequences) {
  gen::Holder h;
  int n = c.chance(1, 4) ? c.range(1, 30) : c.range(1, 6);
  std::vector<std::string> keys;
  std::vector<opentracing::Value> values;
  std::vector<std::string> jsons(n);
  std::vector<size_t> sizes;
  int counter = 0, compounds = 0;
  for (int i = 0; i < n; ++i) {
    keys.push_back(gen::utf8(c, 8));
    values.push_back(gen::value(c, h, c.range(0, 2)));
    int before = counter;
    sizes.push_back(ComputeKeyValueSerializationSize(
        keys[i], values[i], jsons[counter], counter));
    bool compound = is_compound(values[i]);
    c.equal(counter - before, compound ? 1 : 0, "JSON values used");
    compounds += compound;
  }
  std::string s;
  {
    StringOutputStream os{&s};
    CodedOutputStream co{&os};
    counter = 0;
    for (int i = 0; i < n; ++i) {
      int before = co.ByteCount();
      WriteKeyValue<6>(co, sizes[i], keys[i], values[i], jsons.data(), counter);
      c.equal(static_cast<size_t>(co.ByteCount() - before),
              ComputeLengthDelimitedSerializationSize<6>(sizes[i]),
              "size of key-value");
    }
    c.equal(counter, compounds, "JSON values consumed");
  }
  collector::Span span;
  c.note(n, " values, ", compounds, " compound");
  c.check(span.ParseFromString(s), "does not parse");
  c.equal(span.tags_size(), n, "tags");
  for (int i = 0; i < n; ++i) {
    std::string m = gen::kv_mismatch(span.tags(i), keys[i], values[i]);
    c.check(m.empty(), "tag ", i, ": ", m);
  }
  // and as a log record
  std::vector<std::pair<std::string, opentracing::Value>> fields;
  for (int i = 0; i < n; ++i) fields.emplace_back(keys[i], values[i]);
  int64_t us = c.range(0, 4000000000000000ll);
  auto log = ToLog(std::chrono::system_clock::time_point{
                       std::chrono::duration_cast<std::chrono::system_clock::duration>(
                           std::chrono::microseconds{us})},
                   fields.begin(), fields.end());
  c.equal(log.fields_size(), n, "log fields");
  for (int i = 0; i < n; ++i) {
    std::string m = gen::kv_mismatch(log.fields(i), keys[i], values[i]);
    c.check(m.empty(), "log field ", i, ": ", m);
  }
  c.equal(log.timestamp().seconds() * 1000000 + log.timestamp().nanos() / 1000,
          us, "log timestamp");
  // and as the tracer writes logs and tags into a span
  s.clear();
  {
    StringOutputStream os{&s};
    CodedOutputStream co{&os};
    std::chrono::system_clock::time_point when{
        std::chrono::duration_cast<std::chrono::system_clock::duration>(
            std::chrono::microseconds{us})};
    if (c.boolean()) {
      WriteLog(co, when, fields.data(), fields.data() + n);
    } else {
      std::vector<std::pair<opentracing::string_view, opentracing::Value>> views;
      for (auto& f : fields) views.emplace_back(f.first, f.second);
      WriteLog(co, when, views.data(), views.data() + n);
    }
    for (int i = 0; i < n; ++i) WriteTag(co, keys[i], values[i]);
  }
  span.Clear();
  c.check(span.ParseFromString(s), "tags and a log do not parse");
  c.equal(span.logs_size(), 1, "logs");
  c.equal(span.tags_size(), n, "tags");
  c.equal(span.logs(0).fields_size(), n, "written log fields");
  for (int i = 0; i < n; ++i) {
    std::string m = gen::kv_mismatch(span.tags(i), keys[i], values[i]);
    c.check(m.empty(), "written tag ", i, ": ", m);
    m = gen::kv_mismatch(span.logs(0).fields(i), keys[i], values[i]);
    c.check(m.empty(), "written log field ", i, ": ", m);
  }
  c.equal(span.logs(0).timestamp().seconds() * 1000000 +
              span.logs(0).timestamp().nanos() / 1000,
          us, "written log timestamp");
  if (compounds > 1 && compounds < n) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P23
namespace {
// Delivers a string in generated pieces.
class PieceStream : public google::protobuf::io::ZeroCopyInputStream {
 public:
  PieceStream(const std::string& s, pbt::Case& c) {
    size_t at = 0;
    while (at < s.size()) {
      size_t n = c.boolean() ? c.range(1, 4) : c.range(1, 200);
      n = std::min(n, s.size() - at);
      pieces_.emplace_back(s.begin() + at, s.begin() + at + n);
      at += n;
    }
  }
  bool Next(const void** data, int* size) override {
    while (i_ < pieces_.size() && off_ == pieces_[i_].size()) {
      ++i_;
      off_ = 0;
    }
    if (i_ >= pieces_.size()) return false;
    *data = pieces_[i_].data() + off_;
    *size = static_cast<int>(pieces_[i_].size() - off_);
    off_ = pieces_[i_].size();
    count_ += *size;
    return true;
  }
  void BackUp(int n) override {
    if (n < 0 || static_cast<size_t>(n) > off_) abort();
    off_ -= n;
    count_ -= n;
  }
  bool Skip(int n) override {
    while (n > 0) {
      const void* d;
      int k;
      if (!Next(&d, &k)) return false;
      if (k > n) {
        BackUp(k - n);
        return true;
      }
      n -= k;
    }
    return true;
  }
  int64_t ByteCount() const override { return count_; }

 private:
  std::vector<std::vector<char>> pieces_;
  size_t i_ = 0, off_ = 0;
  int64_t count_ = 0;
};
}  // namespace

PROPERTY(chunk_header) {
  uint32_t body = static_cast<uint32_t>(c.u64());
  if (c.boolean()) body = c.range(0, 5000);
  size_t size = ChunkedHttpMaxHeaderSize + c.size(20);
  c.note("chunk ", body, " buffer ", size);
  std::unique_ptr<char[]> buf{new char[size]};
  char fill = static_cast<char>(c.range(1, 255));
  memset(buf.get(), fill, size);
  size_t n = WriteHttpChunkHeader(buf.get(), size, body);
  c.check(n >= 3 && n <= ChunkedHttpMaxHeaderSize, "header size ", n);
  for (size_t i = 0; i + n < size; ++i) {
    c.check(buf[i] == fill, "wrote before the header");
  }
  std::string s(buf.get() + size - n, n);
  c.equal(s.substr(n - 2), std::string("\r\n"), "end of the header");
  uint64_t v = 0;
  for (size_t i = 0; i + 2 < n; ++i) {
    c.check(isxdigit(static_cast<unsigned char>(s[i])), "not a hex digit");
    v = v * 16 + strtoul(std::string(1, s[i]).c_str(), nullptr, 16);
  }
  c.equal(v, static_cast<uint64_t>(body), "chunk size");
  // and reads back
  std::string rest = c.bytes(c.range(0, 10));
  std::string all = s + rest;
  PieceStream in{all, c};
  size_t got = 12345;
  c.check(ReadChunkHeader(in, got), "own header not readable");
  c.equal(got, static_cast<size_t>(body), "chunk size read back");
  c.equal(in.ByteCount(), static_cast<int64_t>(n), "position after the header");
  if (body > 255) c.nontrivial();
}

PROPERTY(chunked_body) {
  std::vector<std::string> chunks;
  std::string s;
  int n = c.range(1, 6);
  for (int i = 0; i < n; ++i) {
    chunks.push_back(c.bytes(c.boolean() ? c.range(1, 20) : c.range(1, 700)));
    char head[40];
    snprintf(head, sizeof head,
             c.boolean() ? (c.boolean() ? "%zx" : "%zX") : "%08zX",
             chunks.back().size());
    s += std::string(head) + "\r\n" + chunks.back() + "\r\n";
    c.note("chunk ", chunks.back().size());
  }
  s += "0\r\n\r\n";
  PieceStream in{s, c};
  for (int i = 0; i <= n; ++i) {
    size_t size = 777;
    c.check(ReadChunkHeader(in, size), "header of chunk ", i);
    size_t want = i < n ? chunks[i].size() : 0;
    c.equal(size, want, "size of chunk " + std::to_string(i));
    std::string body;
    while (body.size() < want) {
      const void* d;
      int k;
      c.check(in.Next(&d, &k), "body ended early");
      int use = std::min<int>(k, want - body.size());
      body.append(static_cast<const char*>(d), use);
      if (use < k) in.BackUp(k - use);
    }
    if (i < n) c.equal(body, chunks[i], "body of chunk " + std::to_string(i));
    in.Skip(2);
  }
  c.equal(in.ByteCount(), static_cast<int64_t>(s.size()), "bytes read");
  // bad headers are refused
  std::string bad;
  switch (c.draw(3)) {
    case 0: bad = ""; break;
    case 1: bad = std::string(c.range(17, 30), '1') + "\r\n"; break;
    case 2: bad = "\r\n"; break;
    default: bad = c.over("ghxyz-;", c.range(1, 8)) + "\r\n";
  }
  PieceStream bin{bad, c};
  size_t unused = 0;
  c.check(!ReadChunkHeader(bin, unused), "bad header accepted: ",
          pbt::Case::quote(bad));
  if (n > 1) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P24
PROPERTY(status_line) {
  StatusLineParser parser;
  int responses = c.range(1, 4);
  bool split = false;
  for (int r = 0; r < responses; ++r) {
    int kind = c.weighted({6, 1, 1});  // valid, malformed, cut off
    int code = c.boolean() ? 200 : c.chance(1, 8) ? c.range(0, 99) : c.range(100, 999);
    std::string reason = c.over("abcOK ", c.size(25));
    if (c.chance(1, 4)) reason = c.over("\x80\xff~ \t", c.size(5));
    std::string version = c.boolean() ? "HTTP/1.1" : c.over("HTP/1.0", c.range(0, 12));
    std::string line;
    if (kind == 1) {
      line = c.over("abcHTTP/1.", c.size(12));
      if (c.boolean()) line += " " + c.over("2004x", c.size(4));
    } else {
      std::string digits = std::to_string(1000 + code).substr(1);
      line = version + " " + digits + " " + reason;
    }
    std::string text = line;
    if (kind != 2) {
      text += "\r\n";
      if (c.boolean()) text += "Content-Length: 0\r\n\r\nHTTP/1.1 500 no\r\n";
    }
    c.note(pbt::Case::quote(text));
    parser.Reset();
    c.check(!parser.completed(), "complete after reset");
    size_t at = 0, end = kind == 2 ? std::string::npos : line.size();
    bool threw = false;
    while (at < text.size() && !threw) {
      size_t n = c.boolean() ? c.range(1, 5) : c.range(0, text.size() - at);
      n = std::min(n, text.size() - at);
      // a copy, so that the parser cannot depend on the caller's buffer
      std::unique_ptr<char[]> buf{new char[n]};
      memcpy(buf.get(), text.data() + at, n);
      bool was = parser.completed();
      try {
        parser.Parse(opentracing::string_view{buf.get(), n});
      } catch (const std::exception&) {
        threw = true;
      }
      buf.reset();
      if (n && n < text.size() && at < line.size()) split = true;
      at += n;
      if (threw) {
        c.check(kind == 1 && !was && at > end, "unexpected error");
        c.check(!parser.completed(), "complete after an error");
        break;
      }
      bool done = end != std::string::npos && at > end;
      c.check(!(done && kind == 1), "malformed line accepted");
      c.equal(parser.completed(), done, "complete");
      if (done) {
        c.equal(parser.status_code(), code, "status code");
        c.equal(std::string(parser.reason().data(), parser.reason().size()),
                reason, "reason");
      }
    }
    if (kind == 1) c.check(threw, "no error for a malformed line");
  }
  if (split) c.nontrivial();
}

// Pieces do not matter, whatever the bytes.
PROPERTY(status_line_bytes) {
  std::string s = c.boolean() ? c.over("HTTP/1.1 200 OK\r\n", c.size(40))
                              : c.bytes(c.size(30));
  auto run = [&](StatusLineParser& p, bool whole) -> std::string {
    std::ostringstream os;
    size_t at = 0;
    while (at < s.size()) {
      size_t n = whole ? s.size()
                       : std::min<size_t>(c.range(1, 6), s.size() - at);
      std::string piece(s, at, n);
      at += n;
      try {
        p.Parse(opentracing::string_view{piece.data(), piece.size()});
      } catch (const std::exception&) {
        return "error";
      }
    }
    if (!p.completed()) return "incomplete";
    os << p.status_code() << "/"
       << std::string(p.reason().data(), p.reason().size());
    return os.str();
  };
  StatusLineParser a, b;
  c.note(pbt::Case::quote(s));
  std::string ra = run(a, true), rb = run(b, false);
  c.equal(rb, ra, "outcome in pieces");
  bool has_cr = s.find('\r') != std::string::npos;
  c.equal(ra == "incomplete", !has_cr, "incomplete");
  if (has_cr && ra != "error") c.nontrivial();
}

// ---------------------------------------------------------------------------
// P27
namespace {
std::string gen_hex_text(pbt::Case& c, bool& clean) {
  std::string s;
  clean = true;
  std::string digits = c.over("0123456789abcdefABCDEF", c.boolean() ? c.size(40) : c.range(14, 34));
  if (c.chance(1, 3)) digits = std::string(c.range(0, 40), '0') + digits;
  if (c.chance(1, 3)) digits = c.over(" \t\n\r\v\f", c.range(1, 3)) + digits;
  if (c.chance(1, 3)) digits += c.over(" \t\n", c.range(1, 3));
  if (c.chance(1, 3)) {
    clean = false;
    size_t i = c.range(0, digits.size());
    std::string x = c.boolean() ? c.bytes(1) : c.over("gG/:@` -+x\xff\x80", 1);
    digits.insert(i, x);
  }
  return digits;
}
// Trimmed digits, or false.
bool model_hex(const std::string& s, unsigned __int128& v, size_t max_digits) {
  size_t a = 0, b = s.size();
  while (a < b && strchr(" \t\n\r\v\f", s[a]) && s[a]) ++a;
  while (a < b && strchr(" \t\n\r\v\f", s[b - 1]) && s[b - 1]) --b;
  if (a == b) return false;
  size_t first = a;
  while (a < b && s[a] == '0') ++a;
  (void)first;
  if (b - a > max_digits) return false;
  v = 0;
  for (; a < b; ++a) {
    char ch = s[a];
    int d;
    if (ch >= '0' && ch <= '9') d = ch - '0';
    else if (ch >= 'a' && ch <= 'f') d = ch - 'a' + 10;
    else if (ch >= 'A' && ch <= 'F') d = ch - 'A' + 10;
    else return false;
    v = v << 4 | static_cast<unsigned>(d);
  }
  return true;
}
}  // namespace

PROPERTY(hex_parse) {
  bool clean;
  std::string s = gen_hex_text(c, clean);
  c.note(pbt::Case::quote(s));
  std::unique_ptr<char[]> exact{new char[s.size()]};
  memcpy(exact.get(), s.data(), s.size());
  opentracing::string_view sv{exact.get(), s.size()};
  unsigned __int128 want = 0;
  bool ok64 = model_hex(s, want, 16);
  auto r64 = HexToUint64(sv);
  c.equal(static_cast<bool>(r64), ok64, "64-bit text accepted");
  if (ok64) c.equal(*r64, static_cast<uint64_t>(want), "64-bit value");
  bool ok128 = model_hex(s, want, 32);
  uint64_t hi = 1, lo = 2;
  auto r128 = HexToUint128(sv, hi, lo);
  c.equal(static_cast<bool>(r128), ok128, "128-bit text accepted");
  if (ok128) {
    c.equal(hi, static_cast<uint64_t>(want >> 64), "high half");
    c.equal(lo, static_cast<uint64_t>(want), "low half");
  }
  if (ok128 && want != 0) c.nontrivial();
  c.classify("128 bits", ok128 && !ok64);
  c.classify("rejected", !ok128);
}

PROPERTY(hex_normalized) {
  auto make = [&](size_t n) {
    std::string s = c.over("0123456789abcdef", n);
    if (c.chance(1, 3)) s[c.range(0, n - 1)] = c.bytes(1)[0];
    return s;
  };
  auto valid = [](const std::string& s) {
    return s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
  };
  std::string s2 = make(2), s16 = make(16), s32 = make(32);
  c.note(pbt::Case::quote(s2), pbt::Case::quote(s16), pbt::Case::quote(s32));
  auto r2 = NormalizedHexToUint8(s2);
  c.equal(static_cast<bool>(r2), valid(s2), "two digits accepted");
  if (r2) c.equal(static_cast<unsigned long>(*r2), strtoul(s2.c_str(), nullptr, 16), "8-bit value");
  auto r16 = NormalizedHexToUint64(s16);
  c.equal(static_cast<bool>(r16), valid(s16), "16 digits accepted");
  if (r16) c.equal(*r16, static_cast<uint64_t>(strtoull(s16.c_str(), nullptr, 16)), "64-bit value");
  uint64_t hi = 0, lo = 0;
  auto r32 = NormalizedHexToUint128(s32, hi, lo);
  c.equal(static_cast<bool>(r32), valid(s32), "32 digits accepted");
  if (r32) {
    c.equal(hi, static_cast<uint64_t>(strtoull(s32.substr(0, 16).c_str(), nullptr, 16)), "high half");
    c.equal(lo, static_cast<uint64_t>(strtoull(s32.substr(16).c_str(), nullptr, 16)), "low half");
    c.nontrivial();
  }
}

PROPERTY(hex_write) {
  uint64_t hi = c.boolean() ? c.u64() : 0, lo = c.u64();
  c.note(hi, ",", lo);
  char want[40];
  snprintf(want, sizeof want, "%016llx", static_cast<unsigned long long>(lo));
  char buf[18];
  memset(buf, '#', sizeof buf);
  auto v = Uint64ToHex(lo, buf);
  c.equal(std::string(v.data(), v.size()), std::string(want), "64-bit hex");
  c.check(buf[16] == '#', "wrote past its end");
  auto back = HexToUint64(v);
  c.check(static_cast<bool>(back) && *back == lo, "does not read back");
  char b32[10];
  memset(b32, '#', sizeof b32);
  auto v32 = Uint32ToHex(static_cast<uint32_t>(lo), b32);
  snprintf(want, sizeof want, "%08x", static_cast<uint32_t>(lo));
  c.equal(std::string(v32.data(), v32.size()), std::string(want), "32-bit hex");
  c.check(b32[8] == '#', "wrote past its end");
  char b8[4];
  memset(b8, '#', sizeof b8);
  auto v8 = Uint8ToHex(static_cast<uint8_t>(lo), b8);
  snprintf(want, sizeof want, "%02x", static_cast<unsigned>(static_cast<uint8_t>(lo)));
  c.equal(std::string(v8.data(), v8.size()), std::string(want), "8-bit hex");
  c.check(b8[2] == '#', "wrote past its end");
  HexSerializer s;
  auto v128 = s.Uint128ToHex(hi, lo);
  if (hi == 0) {
    snprintf(want, sizeof want, "%016llx", static_cast<unsigned long long>(lo));
  } else {
    snprintf(want, sizeof want, "%016llx%016llx",
             static_cast<unsigned long long>(hi),
             static_cast<unsigned long long>(lo));
  }
  c.equal(std::string(v128.data(), v128.size()), std::string(want), "128-bit hex");
  uint64_t h2 = 1, l2 = 1;
  c.check(static_cast<bool>(HexToUint128(v128, h2, l2)) && h2 == hi && l2 == lo,
          "128-bit hex does not read back");
  HexSerializer s2;
  auto w = s2.Uint64ToHex(lo);
  c.equal(w.size(), size_t(16), "length");
  std::string text = c.bytes(c.size(20)), low = text;
  for (auto& ch : low) {
    if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
  }
  c.equal(ToLower(text), low, "lower case");
  if (hi && lo) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P26
namespace {
namespace tc = lightstep::tracer_configuration;
std::string quote_json(pbt::Case& c, const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += static_cast<char>(ch);
    } else if (ch < 32 || (ch < 127 && c.chance(1, 16))) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += static_cast<char>(ch);
    }
  }
  return r + "\"";
}
std::string camel(const std::string& s) {
  std::string r;
  bool up = false;
  for (char ch : s) {
    if (ch == '_') {
      up = true;
    } else {
      r += up ? static_cast<char>(toupper(ch)) : ch;
      up = false;
    }
  }
  return r;
}
}  // namespace

PROPERTY(json_configuration) {
  std::vector<std::pair<std::string, std::string>> members;
  auto str = [&](const char* name, const std::string& v) {
    members.emplace_back(name, quote_json(c, v));
  };
  auto num = [&](const char* name, uint64_t v) {
    std::string t = std::to_string(v);
    members.emplace_back(name, c.chance(1, 6) ? "\"" + t + "\"" : t);
  };
  auto boolean = [&](const char* name, bool v) {
    members.emplace_back(name, v ? "true" : "false");
  };
  auto maybe = [&] { return c.chance(1, 2); };
  auto u32 = [&]() -> uint64_t {
    return c.chance(1, 12) ? c.u64() : c.range(0, c.boolean() ? 100000 : 4294967295ll);
  };
  if (maybe()) str("component_name", gen::utf8(c, 20));
  if (maybe()) str("access_token", gen::utf8(c, 20));
  if (maybe()) str("collector_host", gen::utf8(c, 20));
  if (maybe()) num("collector_port", u32());
  if (maybe()) boolean("collector_plaintext", c.boolean());
  if (maybe()) boolean("use_single_key_propagation", c.boolean());
  if (maybe()) num("max_buffered_spans", u32());
  if (maybe()) num("reporting_period", u32());
  if (maybe()) num("report_timeout", u32());
  if (maybe()) str("ssl_root_certificates", gen::utf8(c, 20));
  if (maybe()) boolean("use_stream_recorder", c.boolean());
  if (maybe()) boolean("verbose", c.boolean());
  if (maybe()) {
    std::string t = "[";
    int n = c.chance(1, 4) ? c.range(0, 20) : c.range(0, 4);
    for (int i = 0; i < n; ++i) {
      t += i ? "," : "";
      t += "{";
      bool host = c.chance(7, 8);
      if (host) t += "\"host\":" + quote_json(c, gen::utf8(c, 10));
      if (c.chance(15, 16)) {
        t += host ? "," : "";
        uint64_t p = c.chance(1, 10) ? c.range(65530, 65540)
                     : c.chance(1, 10) ? c.u64() : c.range(1, 65535);
        t += "\"port\":" + std::to_string(p);
      }
      t += "}";
    }
    members.emplace_back("satellite_endpoints", t + "]");
  }
  if (maybe()) {
    static const char* modes[] = {"lightstep", "b3", "envoy", "trace_context",
                                  "cloud_trace"};
    std::string t = "[";
    int n = c.range(0, 5);
    for (int i = 0; i < n; ++i) {
      std::string m = c.pick(modes);
      if (c.chance(1, 20)) {  // almost one
        switch (c.draw(3)) {
          case 0: m[c.draw(m.size() - 1)] ^= 32; break;
          case 1: m.insert(c.draw(m.size()), 1, c.over("b3_- t", 1)[0]); break;
          case 2: m.erase(c.draw(m.size() - 1), 1); break;
          default: m = c.over("bl3 ", c.size(4));
        }
      }
      t += (i ? "," : "") + quote_json(c, m);
    }
    members.emplace_back("propagation_modes", t + "]");
  }
  if (maybe()) {
    std::string t = "{";
    std::set<std::string> used;
    int n = c.chance(1, 4) ? c.range(0, 40) : c.range(0, 4);
    for (int i = 0; i < n; ++i) {
      std::string k = gen::utf8(c, 6);
      if (!used.insert(k).second) continue;
      t += (t.size() > 1 ? "," : "") + quote_json(c, k) + ":" +
           quote_json(c, gen::utf8(c, 8));
    }
    members.emplace_back("tags", t + "}");
  }
  if (c.chance(1, 20)) members.emplace_back("unknown_setting", "1");
  std::string text = "{";
  while (!members.empty()) {
    size_t i = c.range(0, members.size() - 1);
    std::string name = members[i].first;
    if (c.chance(1, 4)) name = camel(name);
    text += (text.size() > 1 ? "," : "") + std::string(c.chance(1, 8) ? "\n " : "") +
            "\"" + name + "\":" + members[i].second;
    members.erase(members.begin() + i);
  }
  text += "}";
  if (c.chance(1, 8)) {  // damage it
    size_t i = c.range(0, text.size() - 1);
    switch (c.draw(2)) {
      case 0: text.resize(i); break;
      case 1: text[i] = c.over("{}[]\":,x0\\", 1)[0]; break;
      default: text.erase(i, 1);
    }
  }
  text = text.c_str();
  c.note(pbt::Case::quote(text, 1000));
  tc::TracerConfiguration m;
  bool ok = google::protobuf::util::JsonStringToMessage(text, &m).ok();
  bool valid = ok;
  static const std::map<std::string, PropagationMode> modes = {
      {"lightstep", PropagationMode::lightstep},
      {"b3", PropagationMode::b3},
      {"envoy", PropagationMode::envoy},
      {"trace_context", PropagationMode::trace_context},
      {"cloud_trace", PropagationMode::cloud_trace}};
  for (auto& e : m.satellite_endpoints()) {
    if (e.port() == 0 || e.port() > 65535) valid = false;
  }
  for (auto& p : m.propagation_modes()) {
    if (!modes.count(p)) valid = false;
  }
  std::cerr.setstate(std::ios::badbit);
  std::string error;
  auto r = MakeTracerOptions(text.c_str(), error);
  std::cerr.clear();
  c.equal(static_cast<bool>(r), valid, "configuration accepted");
  if (!valid) {
    c.check(!error.empty(), "no error message");
    c.check(static_cast<bool>(r.error()), "no error code");
    c.classify(ok ? "invalid value" : "not valid JSON");
    return;
  }
  c.check(error.empty(), "error message on success: ", error);
  const LightStepTracerOptions d;
  auto& o = *r;
  c.equal(o.component_name, m.component_name(), "component_name");
  c.equal(o.access_token, m.access_token(), "access_token");
  c.equal(o.collector_host, m.collector_host().empty() ? d.collector_host : m.collector_host(), "collector_host");
  c.equal(o.collector_port, m.collector_port() ? m.collector_port() : d.collector_port, "collector_port");
  c.equal(o.collector_plaintext, m.collector_plaintext(), "collector_plaintext");
  c.equal(o.use_single_key_propagation, m.use_single_key_propagation(), "use_single_key_propagation");
  c.equal(o.max_buffered_spans.value(), m.max_buffered_spans() ? static_cast<size_t>(m.max_buffered_spans()) : d.max_buffered_spans.value(), "max_buffered_spans");
  auto us = [](uint32_t n) { return std::chrono::microseconds{n}; };
  c.check(o.reporting_period == (m.reporting_period() ? std::chrono::steady_clock::duration(us(m.reporting_period())) : d.reporting_period), "reporting_period");
  c.check(o.report_timeout == (m.report_timeout() ? std::chrono::system_clock::duration(us(m.report_timeout())) : d.report_timeout), "report_timeout");
  c.equal(o.ssl_root_certificates, m.ssl_root_certificates(), "ssl_root_certificates");
  c.equal(o.use_stream_recorder, m.use_stream_recorder(), "use_stream_recorder");
  c.equal(o.verbose, m.verbose(), "verbose");
  std::vector<std::pair<std::string, uint16_t>> ends;
  for (auto& e : m.satellite_endpoints()) {
    ends.emplace_back(e.host(), static_cast<uint16_t>(e.port()));
  }
  if (ends.empty()) ends = d.satellite_endpoints;
  c.check(o.satellite_endpoints == ends, "satellite_endpoints");
  std::vector<PropagationMode> pm;
  for (auto& p : m.propagation_modes()) pm.push_back(modes.at(p));
  c.check(o.propagation_modes == pm, "propagation_modes");
  c.equal(o.tags.size(), static_cast<size_t>(m.tags_size()), "number of tags");
  for (auto& t : m.tags()) {
    c.check(o.tags.count(t.first) &&
                o.tags.at(t.first) == opentracing::Value{t.second},
            "tag ", pbt::Case::quote(t.first));
  }
  c.check(o.use_thread, "use_thread");
  if (ends != d.satellite_endpoints || !pm.empty() || m.tags_size()) c.nontrivial();
}

// ---------------------------------------------------------------------------
// P29
namespace {
const LogLevel levels[] = {LogLevel::debug, LogLevel::info, LogLevel::warn,
                           LogLevel::error};
const LogLevel thresholds[] = {LogLevel::debug, LogLevel::info, LogLevel::warn,
                               LogLevel::error, LogLevel::off};
typedef std::vector<std::pair<int, std::string>> Lines;

void log_steps(pbt::Case& c, Logger& log, const std::function<bool()>& throws,
               Lines& want, int& dropped) {
  int threshold = static_cast<int>(LogLevel::error);
  c.equal(static_cast<int>(log.level()), threshold, "initial level");
  int steps = c.range(1, 25);
  for (int i = 0; i < steps; ++i) {
    if (c.chance(1, 5)) {
      LogLevel t = c.pick(thresholds);
      c.note("threshold ", static_cast<int>(t));
      log.set_level(t);
      threshold = static_cast<int>(t);
      c.equal(static_cast<int>(log.level()), threshold, "level");
      continue;
    }
    LogLevel l = c.pick(levels);
    std::string text = c.over(std::string("ab% \xff\n\0", 7), c.size(30));
    if (c.chance(1, 10)) {
      size_t n = c.range(1, 400);
      std::string t = text + "x";
      text.clear();
      while (text.size() < n * 7) text += t;
    }
    int n = c.range(-1000, 1000);
    int form = c.range(0, 3);
    bool t = throws();
    std::string full = text;
    c.note("log ", static_cast<int>(l), " form ", form);
    switch (form) {
      case 0: log.Log(l, opentracing::string_view{text}); break;
      case 1:
        text = text.c_str();
        full = text;
        log.log(l, text.c_str());
        break;
      case 2:
        full = text + std::to_string(n) + "x" + text;
        log.Log(l, text, n, 'x', text);
        break;
      default:
        full = text + "=" + std::to_string(n);
        if (l == LogLevel::debug) log.Debug(text, "=", n);
        if (l == LogLevel::info) log.Info(text, "=", n);
        if (l == LogLevel::warn) log.Warn(text, "=", n);
        if (l == LogLevel::error) log.Error(text, "=", n);
    }
    if (static_cast<int>(l) >= threshold) {
      if (!t) want.emplace_back(static_cast<int>(l), full);
    } else {
      ++dropped;
    }
  }
}
}  // namespace

PROPERTY(logger_levels) {
  Lines got, want;
  bool throw_next = false;
  int dropped = 0;
  Logger log{[&](LogLevel l, opentracing::string_view s) {
    if (throw_next) throw std::runtime_error{"sink"};
    got.emplace_back(static_cast<int>(l), std::string(s.data(), s.size()));
  }};
  log_steps(c, log, [&] { return throw_next = c.chance(1, 6); }, want, dropped);
  c.equal(got.size(), want.size(), "messages delivered");
  for (size_t i = 0; i < want.size(); ++i) {
    c.equal(got[i].first, want[i].first, "level of message");
    c.equal(got[i].second, want[i].second, "text of message");
  }
  if (dropped && !want.empty()) c.nontrivial();
}

// Without a sink messages go to the standard error stream.
PROPERTY(logger_default) {
  Lines want;
  int dropped = 0;
  int fd = memfd_create("log", 0);
  if (fd < 0) {
    c.exclude("no memfd");
    return;
  }
  std::string failed;
  int saved = dup(2);
  dup2(fd, 2);
  try {
    if (c.boolean()) {
      Logger log;
      log_steps(c, log, [] { return false; }, want, dropped);
    } else {
      Logger log{std::function<void(LogLevel, opentracing::string_view)>{}};
      log_steps(c, log, [] { return false; }, want, dropped);
    }
  } catch (const pbt::Failure& f) {
    failed = f.message;
  }
  fflush(stderr);
  dup2(saved, 2);
  close(saved);
  std::string got;
  char buf[4096];
  ssize_t n;
  lseek(fd, 0, SEEK_SET);
  while ((n = read(fd, buf, sizeof buf)) > 0) got.append(buf, n);
  close(fd);
  c.check(failed.empty(), failed);
  std::string expect;
  for (auto& w : want) {
    expect += w.first == 1 ? "Debug: " : w.first == 2 ? "Info: "
              : w.first == 3 ? "Warn: " : "Error: ";
    expect += w.second + "\n";
  }
  c.equal(got, expect, "standard error");
  if (!want.empty()) c.nontrivial();
}

// Threads that log at the same time do not cut into each other's messages.
PROPERTY(logger_threads, p.concurrent = true; p.hang_seconds = 60;) {
  int threads = c.range(2, 6), per = c.range(1, 150);
  bool sink = c.chance(1, 4);
  int threshold = static_cast<int>(c.pick(thresholds));
  std::vector<Lines> lines(threads);
  std::vector<std::string> names = {"Debug: ", "Info: ", "Warn: ", "Error: "};
  std::vector<std::string> bodies;
  for (int i = 0; i < 5; ++i) bodies.push_back(std::string(c.chance(1, 8) ? c.range(0, 6000) : c.range(0, 40), 'a' + i));
  std::vector<int> form;
  for (int i = 0; i < 7; ++i) form.push_back(c.range(0, 3));
  c.note(threads, " threads x ", per, sink ? " to a sink" : "", ", threshold ", threshold);
  for (int t = 0; t < threads; ++t) {
    for (int i = 0; i < per; ++i) {
      lines[t].emplace_back(1 + (t + i * 3) % 4, bodies[(t * 3 + i) % 5]);
    }
  }
  int fd = memfd_create("log", 0);
  if (fd < 0) {
    c.exclude("no memfd");
    return;
  }
  fcntl(fd, F_SETFL, O_APPEND);
  int saved = dup(2);
  std::mutex mutex;
  std::string got;
  {
    std::function<void(LogLevel, opentracing::string_view)> f;
    if (sink) {
      f = [&](LogLevel l, opentracing::string_view s) {
        std::lock_guard<std::mutex> lock{mutex};
        got += names[static_cast<int>(l) - 1] + std::string(s.data(), s.size()) + "\n";
      };
    } else {
      dup2(fd, 2);
    }
    Logger log{std::move(f)};
    log.set_level(static_cast<LogLevel>(threshold));
    std::atomic<int> waiting{threads};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t] {
        --waiting;
        while (waiting > 0) std::this_thread::yield();
        for (int i = 0; i < per; ++i) {
          LogLevel l = static_cast<LogLevel>(lines[t][i].first);
          auto& body = lines[t][i].second;
          std::string whole = std::to_string(t) + "." + std::to_string(i) + "." + body;
          switch (form[(t + i) % 7]) {
            case 0: log.Log(l, opentracing::string_view{whole}); break;
            case 1: log.log(l, whole.c_str()); break;
            default: log.Log(l, t, '.', i, ".", body);
          }
        }
      });
    }
    for (auto& x : ts) x.join();
  }
  fflush(stderr);
  dup2(saved, 2);
  close(saved);
  if (!sink) {
    char buf[4096];
    ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, buf, sizeof buf)) > 0) got.append(buf, n);
  }
  close(fd);
  std::vector<int> next(threads, 0);
  size_t at = 0, expected = 0, seen = 0, switches = 0;
  int before = -1;
  auto skip = [&](int t) {
    while (next[t] < per && lines[t][next[t]].first < threshold) ++next[t];
  };
  for (auto& l : lines) for (auto& x : l) expected += x.first >= threshold;
  while (at < got.size()) {
    size_t end = got.find('\n', at);
    c.check(end != std::string::npos, "a line without an end");
    std::string line = got.substr(at, end - at);
    at = end + 1;
    size_t colon = line.find(": ");
    int t = colon == std::string::npos ? -1 : atoi(line.c_str() + colon + 2);
    c.check(t >= 0 && t < threads, "not a message that was logged: ", pbt::Case::quote(line, 200));
    skip(t);
    c.check(next[t] < per, "a message too many: ", pbt::Case::quote(line, 200));
    auto& w = lines[t][next[t]];
    c.equal(line, names[w.first - 1] + std::to_string(t) + "." + std::to_string(next[t]) + "." + w.second,
            "next message of the thread");
    ++next[t];
    ++seen;
    switches += before != t;
    before = t;
  }
  c.equal(seen, expected, "messages delivered");
  if (switches > static_cast<size_t>(threads)) c.nontrivial();
}

PROPERTY(report_response) {
  Lines got;
  Logger log{[&](LogLevel l, opentracing::string_view s) {
    got.emplace_back(static_cast<int>(l), std::string(s.data(), s.size()));
  }};
  int threshold = static_cast<int>(c.pick(thresholds));
  log.set_level(static_cast<LogLevel>(threshold));
  collector::ReportResponse r;
  Lines want;
  bool verbose = c.boolean();
  auto add = [&](int l, const std::string& s) {
    if (l >= threshold) want.emplace_back(l, s);
  };
  int n = c.range(0, 3);
  for (int i = 0; i < n; ++i) r.add_errors(gen::utf8(c, 10));
  n = c.range(0, 3);
  for (int i = 0; i < n; ++i) r.add_warnings(gen::utf8(c, 10));
  n = c.range(0, 3);
  for (int i = 0; i < n; ++i) r.add_infos(gen::utf8(c, 10));
  for (auto& s : r.errors()) add(4, s);
  for (auto& s : r.warnings()) add(3, s);
  if (verbose) {
    for (auto& s : r.infos()) add(2, s);
  }
  c.note("threshold ", threshold, verbose ? " verbose " : " ",
         r.ShortDebugString());
  LogReportResponse(log, verbose, r);
  // the verbose dump of the whole response comes on top
  Lines rest;
  int dumps = 0;
  std::string dump = r.ShortDebugString();
  for (auto& g : got) {
    if (g.first == 2 && g.second.find("Report: resp=") == 0) {
      ++dumps;
    } else {
      rest.push_back(g);
    }
  }
  c.check(dumps == 0 || verbose, "response dumped although not verbose");
  c.equal(rest.size(), want.size(), "messages");
  for (int level = 2; level <= 4; ++level) {
    Lines a, b;
    for (auto& g : rest) if (g.first == level) a.push_back(g);
    for (auto& w : want) if (w.first == level) b.push_back(w);
    c.equal(a.size(), b.size(), "messages of a level");
    for (size_t i = 0; i < a.size(); ++i) {
      c.equal(a[i].second, b[i].second, "message of level " + std::to_string(level));
    }
  }
  if (want.size() > 1) c.nontrivial();
}
