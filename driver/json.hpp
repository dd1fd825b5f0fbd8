// Minimal JSON reader/writer for the script interpreter.
// Numbers written with '.', 'e', 'n' or 'i' are reals, all others are integers.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
  enum T { NUL, BOOL, INT, REAL, STR, ARR, OBJ } t = NUL;
  bool b = false;
  long i = 0;
  double d = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J() {}
  J(bool x) : t(BOOL), b(x) {}
  J(int x) : t(INT), i(x) {}
  J(long x) : t(INT), i(x) {}
  J(unsigned x) : t(INT), i(x) {}
  J(double x) : t(REAL), d(x) {}
  J(const char* x) : t(STR), s(x) {}
  J(const std::string& x) : t(STR), s(x) {}
  static J arr() { J j; j.t = ARR; return j; }
  static J obj() { J j; j.t = OBJ; return j; }
  bool has(const std::string& k) const {
    for (auto& p : o) if (p.first == k) return true;
    return false;
  }
  const J& at(const std::string& k) const {
    for (auto& p : o) if (p.first == k) return p.second;
    throw std::logic_error("script: missing field " + k);
  }
  const std::string& str(const std::string& k) const { return at(k).s; }
  double num(const std::string& k) const { return at(k).num(); }
  double num() const { return t == INT ? (double)i : d; }
  bool flag(const std::string& k) const { return at(k).b; }
  J& set(const std::string& k, const J& v) { o.emplace_back(k, v); return *this; }
  J& push(const J& v) { a.push_back(v); return *this; }
  void write(std::string& out) const {
    switch (t) {
      case NUL: out += "\"\""; break;
      case BOOL: out += b ? "true" : "false"; break;
      case INT: out += std::to_string(i); break;
      case REAL: {
        uint64_t u;
        memcpy(&u, &d, 8);
        if (d != d) u = 0x7ff8000000000000ull;
        char buf[40];
        snprintf(buf, sizeof buf, "[%d,%d]", (int32_t)(u >> 32), (int32_t)(u & 0xffffffffu));
        out += buf;
        break;
      }
      case STR:
        out += '"';
        for (char c : s) {
          if (c == '"' || c == '\\') { out += '\\'; out += c; }
          else if ((unsigned char)c < 32) out += ' ';
          else out += c;
        }
        out += '"';
        break;
      case ARR: {
        out += '[';
        bool f = true;
        for (auto& x : a) { if (!f) out += ','; f = false; x.write(out); }
        out += ']';
        break;
      }
      case OBJ: {
        out += '{';
        bool f = true;
        for (auto& x : o) {
          if (!f) out += ',';
          f = false;
          out += '"'; out += x.first; out += "\":";
          x.second.write(out);
        }
        out += '}';
        break;
      }
    }
  }
  std::string dump() const { std::string r; write(r); return r; }
};

struct JParser {
  const char* p;
  explicit JParser(const char* s) : p(s) {}
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
  J parse() {
    ws();
    if (*p == '{') {
      ++p; J j = J::obj(); ws();
      if (*p == '}') { ++p; return j; }
      for (;;) {
        ws(); J k = parse(); ws();
        if (*p != ':') throw std::logic_error("json: ':'");
        ++p;
        j.o.emplace_back(k.s, parse()); ws();
        if (*p == ',') { ++p; continue; }
        if (*p == '}') { ++p; return j; }
        throw std::logic_error("json: object");
      }
    }
    if (*p == '[') {
      ++p; J j = J::arr(); ws();
      if (*p == ']') { ++p; return j; }
      for (;;) {
        j.a.push_back(parse()); ws();
        if (*p == ',') { ++p; continue; }
        if (*p == ']') { ++p; return j; }
        throw std::logic_error("json: array");
      }
    }
    if (*p == '"') {
      ++p; J j; j.t = J::STR;
      while (*p && *p != '"') { if (*p == '\\') ++p; j.s += *p++; }
      ++p; return j;
    }
    if (!strncmp(p, "true", 4)) { p += 4; return J(true); }
    if (!strncmp(p, "false", 5)) { p += 5; return J(false); }
    if (!strncmp(p, "null", 4)) { p += 4; return J(); }
    if (!strncmp(p, "NaN", 3)) { p += 3; return J(std::nan("")); }
    if (!strncmp(p, "Infinity", 8)) { p += 8; return J(INFINITY); }
    if (!strncmp(p, "-Infinity", 9)) { p += 9; return J(-INFINITY); }
    const char* q = p;
    bool real = false;
    if (*q == '-') ++q;
    while ((*q >= '0' && *q <= '9') || *q == '.' || *q == 'e' || *q == 'E' || *q == '+' || *q == '-') {
      if (*q == '.' || *q == 'e' || *q == 'E') real = true;
      ++q;
    }
    if (q == p) throw std::logic_error(std::string("json: value at ") + p);
    J j = real ? J(strtod(p, nullptr)) : J((long)strtol(p, nullptr, 10));
    p = q;
    return j;
  }
};
