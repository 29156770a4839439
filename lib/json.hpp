// A strict JSON reader, independent of the code under test.
#ifndef VERIF_JSON_HPP
#define VERIF_JSON_HPP
#include <stdint.h>
#include <stdlib.h>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace json {
struct Value {
  enum Kind { Null, Bool, Number, String, Array, Object } kind = Null;
  bool boolean = false;
  std::string text;  // of a number as written, or of a string decoded
  std::vector<Value> items;
  std::vector<std::pair<std::string, Value>> members;
};

class Parser {
 public:
  explicit Parser(const std::string& s) : s_(s) {}
  Value parse() {
    ws();
    Value v = value(0);
    ws();
    if (i_ != s_.size()) err("trailing characters");
    return v;
  }

 private:
  [[noreturn]] void err(const char* m) {
    throw std::runtime_error(std::string(m) + " at offset " +
                             std::to_string(i_));
  }
  void ws() {
    while (i_ < s_.size() && (s_[i_] == ' ' || s_[i_] == '\t' ||
                              s_[i_] == '\n' || s_[i_] == '\r'))
      ++i_;
  }
  char peek() { return i_ < s_.size() ? s_[i_] : '\0'; }
  void expect(char c) {
    if (i_ >= s_.size() || s_[i_] != c) err("unexpected character");
    ++i_;
  }
  void word(const char* w) {
    for (; *w; ++w) expect(*w);
  }
  Value value(int depth) {
    if (depth > 200) err("too deep");
    Value v;
    switch (peek()) {
      case 'n': word("null"); return v;
      case 't': word("true"); v.kind = Value::Bool; v.boolean = true; return v;
      case 'f': word("false"); v.kind = Value::Bool; return v;
      case '"': v.kind = Value::String; v.text = string(); return v;
      case '[': {
        ++i_;
        v.kind = Value::Array;
        ws();
        if (peek() == ']') { ++i_; return v; }
        while (true) {
          ws();
          v.items.push_back(value(depth + 1));
          ws();
          if (peek() == ',') { ++i_; continue; }
          expect(']');
          return v;
        }
      }
      case '{': {
        ++i_;
        v.kind = Value::Object;
        ws();
        if (peek() == '}') { ++i_; return v; }
        while (true) {
          ws();
          if (peek() != '"') err("member name expected");
          std::string k = string();
          ws();
          expect(':');
          ws();
          v.members.emplace_back(k, value(depth + 1));
          ws();
          if (peek() == ',') { ++i_; continue; }
          expect('}');
          return v;
        }
      }
      default: return number();
    }
  }
  Value number() {
    size_t b = i_;
    if (peek() == '-') ++i_;
    if (peek() == '0') {
      ++i_;
    } else if (peek() >= '1' && peek() <= '9') {
      while (isdigit(static_cast<unsigned char>(peek()))) ++i_;
    } else {
      err("value expected");
    }
    if (peek() == '.') {
      ++i_;
      if (!isdigit(static_cast<unsigned char>(peek()))) err("digit expected");
      while (isdigit(static_cast<unsigned char>(peek()))) ++i_;
    }
    if (peek() == 'e' || peek() == 'E') {
      ++i_;
      if (peek() == '+' || peek() == '-') ++i_;
      if (!isdigit(static_cast<unsigned char>(peek()))) err("digit expected");
      while (isdigit(static_cast<unsigned char>(peek()))) ++i_;
    }
    Value v;
    v.kind = Value::Number;
    v.text = s_.substr(b, i_ - b);
    return v;
  }
  unsigned hex4() {
    unsigned r = 0;
    for (int k = 0; k < 4; ++k) {
      char c = peek();
      ++i_;
      r <<= 4;
      if (c >= '0' && c <= '9') r |= c - '0';
      else if (c >= 'a' && c <= 'f') r |= c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') r |= c - 'A' + 10;
      else err("hex digit expected");
    }
    return r;
  }
  static void utf8(std::string& out, unsigned c) {
    if (c < 0x80) {
      out += static_cast<char>(c);
    } else if (c < 0x800) {
      out += static_cast<char>(0xc0 | c >> 6);
      out += static_cast<char>(0x80 | (c & 63));
    } else if (c < 0x10000) {
      out += static_cast<char>(0xe0 | c >> 12);
      out += static_cast<char>(0x80 | (c >> 6 & 63));
      out += static_cast<char>(0x80 | (c & 63));
    } else {
      out += static_cast<char>(0xf0 | c >> 18);
      out += static_cast<char>(0x80 | (c >> 12 & 63));
      out += static_cast<char>(0x80 | (c >> 6 & 63));
      out += static_cast<char>(0x80 | (c & 63));
    }
  }
  std::string string() {
    expect('"');
    std::string r;
    while (true) {
      if (i_ >= s_.size()) err("unterminated string");
      unsigned char c = s_[i_++];
      if (c == '"') return r;
      if (c < 0x20) err("control character in a string");
      if (c != '\\') {
        r += static_cast<char>(c);
        continue;
      }
      char e = peek();
      ++i_;
      switch (e) {
        case '"': r += '"'; break;
        case '\\': r += '\\'; break;
        case '/': r += '/'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'n': r += '\n'; break;
        case 'r': r += '\r'; break;
        case 't': r += '\t'; break;
        case 'u': {
          unsigned u = hex4();
          if (u >= 0xd800 && u < 0xdc00) {
            expect('\\');
            expect('u');
            unsigned l = hex4();
            if (l < 0xdc00 || l > 0xdfff) err("bad surrogate");
            u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
          }
          utf8(r, u);
          break;
        }
        default: err("bad escape");
      }
    }
  }
  const std::string& s_;
  size_t i_ = 0;
};
inline Value parse(const std::string& s) { return Parser(s).parse(); }
}  // namespace json
#endif
