// Minimal stand-in for kazuho/picojson (the submodule is empty in this sandbox):
// same value model (object = std::map), same throwing get<T>(), same serialize().
#ifndef VP_PICOJSON_H
#define VP_PICOJSON_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <istream>
#include <iterator>
#include <map>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace picojson {
enum { null_type, boolean_type, number_type, string_type, array_type, object_type };
struct null {};
class value {
public:
  typedef std::vector<value> array;
  typedef std::map<std::string, value> object;
  value() : t(null_type), b(false), n(0) {}
  value(int type, bool) : t(type), b(false), n(0) {}
  explicit value(bool v) : t(boolean_type), b(v), n(0) {}
  explicit value(double v) : t(number_type), b(false), n(v) {}
  explicit value(int64_t v) : t(number_type), b(false), n((double)v) {}
  explicit value(const std::string &v) : t(string_type), b(false), n(0), s(v) {}
  explicit value(const char *v) : t(string_type), b(false), n(0), s(v) {}
  explicit value(const array &v) : t(array_type), b(false), n(0), a(v) {}
  explicit value(const object &v) : t(object_type), b(false), n(0), o(v) {}
  template <typename T> bool is() const;
  template <typename T> const T &get() const;
  template <typename T> T &get();
  template <typename T> void set(const T &v) { *this = value(v); }
  bool evaluate_as_boolean() const {
    switch (t) { case null_type: return false; case boolean_type: return b;
    case number_type: return n != 0; case string_type: return !s.empty(); default: return true; } }
  const value &get(size_t i) const { static value z; return t == array_type && i < a.size() ? a[i] : z; }
  value &get(size_t i) { static value z; return t == array_type && i < a.size() ? a[i] : z; }
  const value &get(const std::string &k) const { static value z; auto i = o.find(k); return i == o.end() ? z : i->second; }
  value &get(const std::string &k) { static value z; auto i = o.find(k); return i == o.end() ? z : i->second; }
  bool contains(size_t i) const { return i < a.size(); }
  bool contains(const std::string &k) const { return o.count(k) != 0; }
  std::string to_str() const { std::string r; ser(r, -1, 0); return r; }
  std::string serialize(bool prettify = false) const { std::string r; ser(r, prettify ? 2 : -1, 0); return r; }
  template <typename It> void serialize(It os, bool prettify = false) const {
    std::string r = serialize(prettify); for (char c : r) *os++ = c; }
  int t; bool b; double n; std::string s; array a; object o;
private:
  static void esc(std::string &r, const std::string &v) {
    r += '"';
    for (unsigned char c : v) switch (c) {
      case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '/': r += "\\/"; break;
      case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break; case '\t': r += "\\t"; break;
      default: if (c < 0x20 || c == 0x7f) { char buf[8]; snprintf(buf, 8, "\\u%04x", c); r += buf; } else r += (char)c; }
    r += '"';
  }
  static void nl(std::string &r, int ind, int d) { if (ind >= 0) { r += '\n'; r.append(d * ind, ' '); } }
  void ser(std::string &r, int ind, int d) const {
    switch (t) {
    case null_type: r += "null"; break;
    case boolean_type: r += b ? "true" : "false"; break;
    case number_type: { char buf[256]; double tmp;
      snprintf(buf, sizeof buf, std::fabs(n) < (1ull << 53) && std::modf(n, &tmp) == 0 ? "%.f" : "%.17g", n); r += buf; break; }
    case string_type: esc(r, s); break;
    case array_type: { r += '['; bool f = true;
      for (auto &e : a) { if (!f) r += ','; f = false; nl(r, ind, d + 1); e.ser(r, ind, d + 1); }
      if (!f) nl(r, ind, d); r += ']'; break; }
    case object_type: { r += '{'; bool f = true;
      for (auto &e : o) { if (!f) r += ','; f = false; nl(r, ind, d + 1); esc(r, e.first); r += ':'; if (ind >= 0) r += ' '; e.second.ser(r, ind, d + 1); }
      if (!f) nl(r, ind, d); r += '}'; break; }
    }
  }
};
typedef value::array array;
typedef value::object object;
#define VP_PJ(T, tag, field) \
  template <> inline bool value::is<T>() const { return t == tag; } \
  template <> inline const T &value::get<T>() const { if (t != tag) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()"); return field; } \
  template <> inline T &value::get<T>() { if (t != tag) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()"); return field; }
VP_PJ(bool, boolean_type, b)
VP_PJ(double, number_type, n)
VP_PJ(std::string, string_type, s)
VP_PJ(array, array_type, a)
VP_PJ(object, object_type, o)
#undef VP_PJ
template <> inline bool value::is<null>() const { return t == null_type; }

namespace vp_detail {
struct P {
  const std::string &x; size_t i; std::string err;
  P(const std::string &s) : x(s), i(0) {}
  void ws() { while (i < x.size() && (x[i] == ' ' || x[i] == '\t' || x[i] == '\n' || x[i] == '\r')) ++i; }
  bool fail(const char *m) { if (err.empty()) { size_t l = 1; for (size_t k = 0; k < i && k < x.size(); ++k) l += x[k] == '\n';
    err = std::string("syntax error at line ") + std::to_string(l) + " near: " + m; } return false; }
  bool lit(const char *w) { size_t k = 0; while (w[k]) { if (i + k >= x.size() || x[i + k] != w[k]) return fail(w); ++k; } i += k; return true; }
  bool str(std::string &r) {
    ++i;
    while (i < x.size()) {
      char c = x[i++];
      if (c == '"') return true;
      if ((unsigned char)c < 0x20) return fail("control character in string");
      if (c == '\\') { if (i >= x.size()) return fail("escape");
        char e = x[i++];
        switch (e) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break;
        case 'f': r += '\f'; break; case '"': case '\\': case '/': r += e; break;
        case 'u': { if (i + 4 > x.size()) return fail("\\u"); unsigned u = strtoul(x.substr(i, 4).c_str(), 0, 16); i += 4;
          if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xc0 | u >> 6); r += (char)(0x80 | (u & 63)); }
          else { r += (char)(0xe0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } break; }
        default: return fail("escape"); } }
      else r += c;
    }
    return fail("unterminated string");
  }
  bool val(value &v) {
    ws();
    if (i >= x.size()) return fail("");
    char c = x[i];
    if (c == '{') { ++i; v = value(object()); ws(); if (i < x.size() && x[i] == '}') { ++i; return true; }
      for (;;) { ws(); if (i >= x.size() || x[i] != '"') return fail("object key"); std::string k; if (!str(k)) return false;
        ws(); if (i >= x.size() || x[i] != ':') return fail(":"); ++i; if (!val(v.o[k])) return false; ws();
        if (i < x.size() && x[i] == ',') { ++i; continue; } if (i < x.size() && x[i] == '}') { ++i; return true; } return fail("}"); } }
    if (c == '[') { ++i; v = value(array()); ws(); if (i < x.size() && x[i] == ']') { ++i; return true; }
      for (;;) { v.a.push_back(value()); if (!val(v.a.back())) return false; ws();
        if (i < x.size() && x[i] == ',') { ++i; continue; } if (i < x.size() && x[i] == ']') { ++i; return true; } return fail("]"); } }
    if (c == '"') { std::string s; if (!str(s)) return false; v = value(s); return true; }
    if (c == 't') { v = value(true); return lit("true"); }
    if (c == 'f') { v = value(false); return lit("false"); }
    if (c == 'n') { v = value(); return lit("null"); }
    if (c == '-' || (c >= '0' && c <= '9')) { char *e; v = value(strtod(x.c_str() + i, &e)); i = e - x.c_str(); return true; }
    return fail("value");
  }
};
inline std::string &last() { static std::string s; return s; }
}
inline const std::string &get_last_error() { return vp_detail::last(); }
inline void set_last_error(const std::string &s) { vp_detail::last() = s; }
inline std::string parse(value &v, const std::string &s) { vp_detail::P p(s); p.val(v); return p.err; }
inline std::string parse(value &v, std::istream &is) {
  std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); return parse(v, s); }
inline std::istream &operator>>(std::istream &is, value &v) {
  set_last_error(std::string()); std::string e = parse(v, is);
  if (!e.empty()) { set_last_error(e); is.setstate(std::ios::failbit); } return is; }
inline std::ostream &operator<<(std::ostream &os, const value &v) { return os << v.serialize(); }
}
#endif
