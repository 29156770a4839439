// Decodes the bytes of one streaming report request.
#ifndef VERIF_HTTP_SESSION_HPP
#define VERIF_HTTP_SESSION_HPP
#include <string>
#include <vector>
#include "lightstep-tracer-common/collector.pb.h"
#include "pbt.hpp"
namespace http_session {
namespace collector = lightstep::collector;
struct Decoded {
  bool header_complete = false;  // through the first chunk
  bool terminated = false;
  collector::ReportRequest head;
  std::vector<std::string> spans;  // names of complete chunks after the first
  std::string partial;             // bytes of an incomplete chunk
  std::string error;
  int64_t drops() const {
    int64_t n = 0;
    for (auto& k : head.internal_metrics().counts())
      if (k.name() == "spans.dropped") n += k.int_value();
    return n;
  }
};
// `http` is the expected text before the first chunk.
inline Decoded decode(const std::string& s, const std::string& http) {
  Decoded d;
  size_t n0 = std::min(s.size(), http.size());
  if (s.compare(0, n0, http, 0, n0) != 0) {
    d.error = "wrong request header " + pbt::Case::quote(s.substr(0, n0)) +
              ", expected " + pbt::Case::quote(http);
    return d;
  }
  if (s.size() < http.size()) return d;
  size_t pos = http.size();
  bool first = true;
  std::string whole;
  while (pos < s.size()) {
    size_t eol = s.find("\r\n", pos);
    if (eol == std::string::npos) break;
    std::string hex = s.substr(pos, eol - pos);
    if (hex.empty() || hex.size() > 16 ||
        hex.find_first_not_of("0123456789ABCDEFabcdef") != std::string::npos) {
      d.error = "bad chunk size " + pbt::Case::quote(hex);
      return d;
    }
    size_t n = strtoull(hex.c_str(), nullptr, 16);
    if (n == 0) {
      if (s.size() < eol + 4) break;
      if (s.compare(eol, std::string::npos, "\r\n\r\n") != 0) {
        d.error = "bytes after the last chunk";
        return d;
      }
      d.terminated = true;
      pos = s.size();
      break;
    }
    if (s.size() < eol + 2 + n + 2) break;
    std::string body = s.substr(eol + 2, n);
    if (s.compare(eol + 2 + n, 2, "\r\n") != 0) {
      d.error = "chunk not terminated";
      return d;
    }
    if (first) {
      if (!d.head.ParseFromString(body)) {
        d.error = "first chunk is not a report request";
        return d;
      }
      d.header_complete = true;
      first = false;
    } else {
      collector::ReportRequest r;
      if (!r.ParseFromString(body) || r.spans_size() != 1) {
        d.error = "chunk is not one span";
        return d;
      }
      d.spans.push_back(r.spans(0).operation_name());
    }
    whole += body;
    pos = eol + 2 + n + 2;
  }
  if (d.terminated && first) d.error = "request without a header chunk";
  d.partial = s.substr(pos);
  if (d.header_complete && d.error.empty()) {
    collector::ReportRequest all;
    if (!all.ParseFromString(whole) ||
        all.spans_size() != static_cast<int>(d.spans.size()))
      d.error = "the chunks do not make up one report";
  }
  return d;
}
}  // namespace http_session
#endif
