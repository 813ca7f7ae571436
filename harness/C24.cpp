// Parsing and printing (vec_io.h, mat_io.h, bbox_io.h, plane_io.h, line_io.h, ray_io.h)
// BOUND: parsing one vector or matrix: every text of up to 5 characters (thorough: 8) over blanks, parentheses, digits, sign, point, comma and semicolon, one to four components, also as a view into a longer text; lists: up to three vectors of two components with symbolic digits, blanks and separators
// BOUND: the C library's conversion of a token to a number and the output of one number or character to a stream are models (decimal notation without exponent; a log of what is written)
// BOUND: printing: all values of one to four components, matrices up to 3x3
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vp.h"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
#include <vecmath/mat.h>
#include <vecmath/bbox.h>
#include <vecmath/line.h>
#include <vecmath/plane.h>
#include <vecmath/ray.h>
#include <vecmath/vec_io.h>
#include <vecmath/mat_io.h>
#include <vecmath/bbox_io.h>
#include <vecmath/line_io.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray_io.h>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
using namespace vp;

// ---- models of library functions, used by the symbolic executor only
extern "C" __attribute__((used)) double vp_ext_atof(const char* s) {
  while ((*s == ' ') | (*s == '\t') | (*s == '\n') | (*s == '\r')) ++s;
  bool neg = false;
  if (*s == '-') { neg = true; ++s; } else if (*s == '+') ++s;
  int v = 0, q = 1;
  while ((*s >= '0') & (*s <= '9')) { v = v * 10 + (*s - '0'); ++s; }
  if (*s == '.') { ++s; while ((*s >= '0') & (*s <= '9')) { v = v * 10 + (*s - '0'); q = q * 10; ++s; } }
  const double d = q == 1 ? double(v) : double(v) / double(q);
  return neg ? -d : d;
}
extern "C" __attribute__((used)) double vp_ext_strtod(const char* s, char** end) {
  if (end) vp_assume(false);
  return vp_ext_atof(s);
}
namespace { struct Item { int kind; int c; double d; }; struct Log { std::size_t n; Item e[96]; }; }
static void put(std::ostream& s, int kind, int c, double d) {
  Log& l = reinterpret_cast<Log&>(s);
  if (l.n < 96) { l.e[l.n].kind = kind; l.e[l.n].c = c; l.e[l.n].d = d; }
  ++l.n;
}
extern "C" {
// basic_ostream::_M_insert<double>, __ostream_insert, operator<<(ostream&, char), put, operator<<(ostream&, const char*), operator<<(int)
__attribute__((used)) std::ostream& vp_ext__ZNSo9_M_insertIdEERSoT_(std::ostream& s, double v) { put(s, 1, 0, v); return s; }
__attribute__((used)) std::ostream& vp_ext__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream& s, const char* c, std::ptrdiff_t n) {
  for (std::ptrdiff_t i = 0; i < n; ++i) put(s, 0, c[i], 0);
  return s;
}
__attribute__((used)) std::ostream& vp_ext__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(std::ostream& s, char c) { put(s, 0, c, 0); return s; }
__attribute__((used)) std::ostream& vp_ext__ZNSo3putEc(std::ostream& s, char c) { put(s, 0, c, 0); return s; }
__attribute__((used)) std::ostream& vp_ext__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(std::ostream& s, const char* c) { while (*c) put(s, 0, *c++, 0); return s; }
__attribute__((used)) std::ostream& vp_ext__ZNSolsEi(std::ostream& s, int v) { put(s, 2, v, 0); return s; }
__attribute__((used)) std::ostream& vp_ext__ZNSolsEd(std::ostream& s, double v) { put(s, 1, 0, v); return s; }
__attribute__((used)) std::ostream& vp_ext__ZNSolsEf(std::ostream& s, float v) { put(s, 1, 0, v); return s; }
}
// a stream: natively a string stream, symbolically the log
struct Out {
  Log log;
  std::ostringstream* real;
  Out() : real(nullptr) { log.n = 0; if (vp_is_replay()) { real = new std::ostringstream(); real->precision(17); } }
  std::ostream& s() { return vp_is_replay() ? static_cast<std::ostream&>(*real) : reinterpret_cast<std::ostream&>(log); }
};
static void same(Out& a, Out& b, const char* id) {
  if (vp_is_replay()) { vp_check(a.real->str() == b.real->str(), id); return; }
  vp_check(a.log.n == b.log.n && a.log.n <= 96, id);
  if (a.log.n != b.log.n || a.log.n > 96) return;
  for (std::size_t i = 0; i < a.log.n; ++i) {
    vp_check(a.log.e[i].kind == b.log.e[i].kind && a.log.e[i].c == b.log.e[i].c, id);
    if (a.log.e[i].kind == 1 && b.log.e[i].kind == 1) eq(a.log.e[i].d, b.log.e[i].d, id);
  }
}
template <typename T, std::size_t S> static void text(std::ostream& s, const vm::vec<T, S>& v) {
  for (std::size_t i = 0; i < S; ++i) { if (i > 0) s << " "; s << v.v[i]; }
}
template <typename T, std::size_t S> static void print() {
  const auto v = symvec<T, S>("v");
  Out a, b;
  vp_check(&(a.s() << v) == &a.s(), "printing returns the stream");
  text(b.s(), v);
  same(a, b, "the components of a vector are printed in order, separated by blanks");
}
VP_FP(print_d1) { print<double, 1>(); }
VP_FP(print_d2) { print<double, 2>(); }
VP_FP(print_f3) { print<float, 3>(); }
VP_FP(print_d4) { print<double, 4>(); }
VP_FP(print_i3) { print<int, 3>(); }
template <typename T, std::size_t R, std::size_t C> static void print_mat() {
  vm::mat<T, R, C> m;
  for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < R; ++r) m.v[c].v[r] = sym<T>("m");
  Out a, b;
  vp_check(&(a.s() << m) == &a.s(), "printing returns the stream");
  for (std::size_t r = 0; r < R; ++r) for (std::size_t c = 0; c < C; ++c) { if (r + c > 0) b.s() << " "; b.s() << m.v[c].v[r]; }
  same(a, b, "the entries of a matrix are printed row by row, separated by blanks");
}
VP_FP(print_m22) { print_mat<double, 2, 2>(); }
VP_FP(print_m33) { print_mat<float, 3, 3>(); }
VP_FP(print_m23) { print_mat<double, 2, 3>(); }
VP_FP(print_m31) { print_mat<double, 3, 1>(); }
template <typename T, std::size_t S> static void shapes() {
  const auto p = symvec<T, S>("p"), q = symvec<T, S>("q");
  const T d = sym<T>("d");
  { Out a, b; a.s() << vm::ray<T, S>(p, q); b.s() << "{ origin: ("; text(b.s(), p); b.s() << "), direction: ("; text(b.s(), q); b.s() << ") }"; same(a, b, "a ray is printed with its origin and direction"); }
  { Out a, b; a.s() << vm::line<T, S>(p, q); b.s() << "{ point: ("; text(b.s(), p); b.s() << "), direction: ("; text(b.s(), q); b.s() << ") }"; same(a, b, "a line is printed with its point and direction"); }
  { Out a, b; a.s() << vm::plane<T, S>(d, q); b.s() << "{ normal: ("; text(b.s(), q); b.s() << "), distance: "; b.s() << d; b.s() << " }"; same(a, b, "a plane is printed with its normal and distance"); }
  vm::bbox<T, S> x;
  x.min = p; x.max = q;
  { Out a, b; a.s() << x; b.s() << "{ min: ("; text(b.s(), p); b.s() << "), max: ("; text(b.s(), q); b.s() << ") }"; same(a, b, "a box is printed with its corners"); }
}
VP_FP(shapes_d2) { shapes<double, 2>(); }
VP_FP(shapes_f3) { shapes<float, 3>(); }

// ---- parsing
// the parsers branch on every character: explored path by path
VP_CFG(parse_d1, "merge=0") VP_CFG(parse_d2, "merge=0") VP_CFG(parse_f2_7, "merge=0") VP_CFG(parse_f3, "merge=0") VP_CFG(parse_d3_7, "merge=0") VP_CFG(parse_view, "merge=0") VP_CFG(parse_d2_8, "merge=0") VP_CFG(parse_vec_d3, "merge=0") VP_CFG(parse_vec_f4, "merge=0") VP_CFG(parse_m22, "merge=0") VP_CFG(parse_m23, "merge=0") VP_CFG(parse_m32, "merge=0") VP_CFG(parse_m33, "merge=0") VP_CFG(parse_list, "merge=0") VP_CFG(parse_list_partial, "merge=0")
static bool is_blank(char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') | (c == '(') | (c == ')'); }
static bool is_digit(char c) { return (c >= '0') & (c <= '9'); }
static bool allowed(char c) { return is_blank(c) | is_digit(c) | (c == '-') | (c == '.') | (c == ',') | (c == ';'); }
// the tokens of s[0, n): maximal runs of characters that are not blank; the value of token k
static int tokens(const char* s, int n) {
  int r = 0;
  bool in = false;
  for (int i = 0; i < n; ++i) { const bool b = is_blank(s[i]); if (!b && !in) ++r; in = !b; }
  return r;
}
static double token(const char* s, int n, int k) {
  int i = 0;
  for (;; --k) {
    while (i < n && is_blank(s[i])) ++i;
    char t[16];
    int m = 0;
    while (i < n && !is_blank(s[i])) { if (m < 15) t[m++] = s[i]; ++i; }
    t[m] = 0;
    if (k == 0) return std::atof(t);
  }
}
template <typename T> static void same_number(T a, double e, const char* id) { eq(a, T(e), id); }
template <typename T, std::size_t S> static void parse(int n, int beyond) {
  char* s = new char[n + beyond + 1];
  for (int i = 0; i < n + beyond; ++i) { s[i] = vp_i8("c"); vp_assume(allowed(s[i])); }
  // without a terminator if there is nothing beyond the view
  const auto r = vm::parse<T, S>(std::string_view(s, n));
  const int k = tokens(s, n);
  vp_check(r.has_value() == (k >= int(S)), "a vector is parsed iff there are enough numbers");
  if (r.has_value() && k >= int(S))
    for (int i = 0; i < int(S); ++i) same_number(r->v[i], token(s, n, i), "the numbers of the text in order");
  delete[] s;
}
VP_FP(parse_d1) { parse<double, 1>(vp_choose("n", 5), 0); }
VP_FP(parse_d2) { parse<double, 2>(vp_choose("n", 6), 0); }
VP_FP(parse_f3) { parse<float, 3>(5, 0); }
VP_FP_T(parse_f2_7) { parse<float, 2>(7, 0); }
VP_FP_T(parse_d3_7) { parse<double, 3>(7, 0); }
VP_FP(parse_view) { parse<double, 2>(4, 2); }
VP_FP_T(parse_d2_8) { parse<double, 2>(8, 0); }
// longer texts: tokens of one or two digits with an optional sign, symbolic blanks around and between them
struct Text {
  char s[64]; int n; double v[12]; int k;
  Text() : n(0), k(0) {}
  void c(char x) { s[n++] = x; }
  void blank() { const char x = vp_i8("blank"); vp_assume(is_blank(x)); c(x); }
  void number(int form) {
    const char a = vp_i8("digit"), b = vp_i8("digit");
    vp_assume(is_digit(a) & is_digit(b));
    if (form & 1) c('-');
    c(a);
    if (form & 2) c('.');
    c(b);
    const double x = (form & 2) ? double((a - '0') * 10 + (b - '0')) / 10.0 : double((a - '0') * 10 + (b - '0'));
    v[k++] = (form & 1) ? -x : x;
  }
};
template <typename T, std::size_t S> static void parse_vec() {
  Text t;
  const int lead = vp_choose("lead", 2), gap = vp_choose("gap", 2) + 1, trail = vp_choose("trail", 2);
  for (int i = 0; i < lead; ++i) t.blank();
  for (std::size_t i = 0; i < S; ++i) { if (i > 0) for (int j = 0; j < gap; ++j) t.blank(); t.number(int(i + lead) % 4); }
  for (int i = 0; i < trail; ++i) t.blank();
  const auto r = vm::parse<T, S>(std::string_view(t.s, t.n));
  vp_check(r.has_value(), "a text of as many numbers as components is a vector");
  if (r.has_value()) for (std::size_t i = 0; i < S; ++i) same_number(r->v[i], t.v[i], "the numbers of the text in order");
}
VP_FP(parse_vec_d3) { parse_vec<double, 3>(); }
VP_FP(parse_vec_f4) { parse_vec<float, 4>(); }
template <typename T, std::size_t R, std::size_t C> static void parse_mat(int missing) {
  Text t;
  const int lead = vp_choose("lead", 2), trail = vp_choose("trail", 2);
  for (int i = 0; i < lead; ++i) t.blank();
  for (std::size_t i = 0; i + missing < R * C; ++i) { if (i > 0) t.blank(); t.number(int(i + lead) % 4); }
  for (int i = 0; i < trail; ++i) t.blank();
  const auto r = vm::parse<T, R, C>(std::string_view(t.s, t.n));
  vp_check(r.has_value() == (missing == 0), "a text of as many numbers as entries is a matrix");
  if (r.has_value() && missing == 0) for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) same_number(r->v[j].v[i], t.v[i * C + j], "the entries row by row");
}
VP_FP(parse_m22) { parse_mat<double, 2, 2>(vp_choose("missing", 3)); }
VP_FP(parse_m23) { parse_mat<double, 2, 3>(vp_choose("missing", 2)); }
VP_FP(parse_m32) { parse_mat<float, 3, 2>(0); }
VP_FP(parse_m33) { parse_mat<float, 3, 3>(0); }
// lists: vectors separated by a blank, a comma or a semicolon; every vector starts with a blank or a parenthesis
VP_FP(parse_list) {
  Text t;
  const int n = vp_choose("vectors", 4), paren = vp_choose("parentheses", 3);
  for (int i = 0; i < n; ++i) {
    if (i > 0) {
      if (paren == 1) t.c(')');
      const char x = vp_i8("separator");
      vp_assume((x == ' ') | (x == '\t') | (x == '\n') | (x == '\r') | (x == ',') | (x == ';'));
      t.c(x);
      if (i == 1 && vp_choose("second separator", 2)) { const char y = vp_i8("separator"); vp_assume((y == ' ') | (y == '\t') | (y == '\n') | (y == '\r') | (y == ',') | (y == ';')); t.c(y); }
      if (paren != 0) t.c('('); else t.blank();
    } else if (paren == 1) t.c('(');
    t.number((i + paren) % 4); t.blank(); t.number(i % 2);
  }
  std::vector<vm::vec<double, 2>> r;
  vm::parse_all<double, 2>(std::string_view(t.s, t.n), std::back_inserter(r));
  vp_check(r.size() == std::size_t(n), "every vector of a list is parsed");
  if (r.size() == std::size_t(n)) for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) same_number(r[i].v[j], t.v[2 * i + j], "the vectors of a list in order");
}
VP_FP(parse_list_partial) {
  Text t;
  const int n = vp_choose("numbers", 6);
  for (int i = 0; i < n; ++i) { if (i > 0) t.blank(); t.number(0); }
  std::vector<vm::vec<double, 3>> r;
  vm::parse_all<double, 3>(std::string_view(t.s, t.n), std::back_inserter(r));
  vp_check(r.size() == std::size_t(n / 3), "incomplete vectors are left out");
}
