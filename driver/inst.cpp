// Instantiates the header-only operators of e_float for every built-in type, so that their
// bodies appear in the IR under analysis.  Nothing here is ever run.
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>

namespace vdrv {
#define ONE(T, N) \
  e_float add_ef_##N(const e_float& u, const T& n) { return u + n; } \
  e_float sub_ef_##N(const e_float& u, const T& n) { return u - n; } \
  e_float mul_ef_##N(const e_float& u, const T& n) { return u * n; } \
  e_float div_ef_##N(const e_float& u, const T& n) { return u / n; } \
  e_float add_bi_##N(const T& n, const e_float& u) { return n + u; } \
  e_float sub_bi_##N(const T& n, const e_float& u) { return n - u; } \
  e_float mul_bi_##N(const T& n, const e_float& u) { return n * u; } \
  e_float div_bi_##N(const T& n, const e_float& u) { return n / u; } \
  e_float& iadd_##N(e_float& u, const T& n) { return u += n; } \
  e_float& isub_##N(e_float& u, const T& n) { return u -= n; } \
  e_float& imul_##N(e_float& u, const T& n) { return u *= n; } \
  e_float& idiv_##N(e_float& u, const T& n) { return u /= n; } \
  e_float ctor_##N(const T& n) { return e_float(n); } \
  e_float& asg_##N(e_float& u, const T& n) { u = n; return u; } \
  bool lt_ef_##N(const e_float& u, const T& n) { return u <  n; } \
  bool le_ef_##N(const e_float& u, const T& n) { return u <= n; } \
  bool eq_ef_##N(const e_float& u, const T& n) { return u == n; } \
  bool ne_ef_##N(const e_float& u, const T& n) { return u != n; } \
  bool ge_ef_##N(const e_float& u, const T& n) { return u >= n; } \
  bool gt_ef_##N(const e_float& u, const T& n) { return u >  n; } \
  bool lt_bi_##N(const T& n, const e_float& u) { return n <  u; } \
  bool le_bi_##N(const T& n, const e_float& u) { return n <= u; } \
  bool eq_bi_##N(const T& n, const e_float& u) { return n == u; } \
  bool ne_bi_##N(const T& n, const e_float& u) { return n != u; } \
  bool ge_bi_##N(const T& n, const e_float& u) { return n >= u; } \
  bool gt_bi_##N(const T& n, const e_float& u) { return n >  u; }

ONE(bool, b) ONE(char, c) ONE(signed char, sc) ONE(unsigned char, uc) ONE(short, s) ONE(unsigned short, us)
ONE(int, i) ONE(unsigned, u) ONE(long, l) ONE(unsigned long, ul) ONE(long long, ll) ONE(unsigned long long, ull)
ONE(float, f) ONE(double, d) ONE(long double, ld)

  e_float add_ef_ef(const e_float& u, const e_float& v) { return u + v; }
  e_float sub_ef_ef(const e_float& u, const e_float& v) { return u - v; }
  e_float mul_ef_ef(const e_float& u, const e_float& v) { return u * v; }
  e_float div_ef_ef(const e_float& u, const e_float& v) { return u / v; }
  e_float& iadd_ef(e_float& u, const e_float& v) { return u += v; }
  e_float& isub_ef(e_float& u, const e_float& v) { return u -= v; }
  e_float& imul_ef(e_float& u, const e_float& v) { return u *= v; }
  e_float& idiv_ef(e_float& u, const e_float& v) { return u /= v; }
  e_float& asg_ef(e_float& u, const e_float& v) { return u = v; }
  e_float& asgmove_ef(e_float& u, e_float& v) { return u = static_cast<e_float&&>(v); }
  e_float neg_ef(const e_float& u) { return -u; }
  e_float pos_ef(const e_float& u) { return +u; }
  e_float& preinc(e_float& u) { return ++u; }
  e_float& predec(e_float& u) { return --u; }
  e_float postinc(e_float& u) { return u++; }
  e_float postdec(e_float& u) { return u--; }
  bool lt_ef_ef(const e_float& u, const e_float& v) { return u <  v; }
  bool le_ef_ef(const e_float& u, const e_float& v) { return u <= v; }
  bool eq_ef_ef(const e_float& u, const e_float& v) { return u == v; }
  bool ne_ef_ef(const e_float& u, const e_float& v) { return u != v; }
  bool ge_ef_ef(const e_float& u, const e_float& v) { return u >= v; }
  bool gt_ef_ef(const e_float& u, const e_float& v) { return u >  v; }

  // numeric_limits
  using NL = std::numeric_limits<e_float>;
  const e_float& nl_min() { return (NL::min)(); }
  const e_float& nl_max() { return (NL::max)(); }
  const e_float& nl_lowest() { return NL::lowest(); }
  const e_float& nl_epsilon() { return NL::epsilon(); }
  const e_float& nl_round_error() { return NL::round_error(); }
  const e_float& nl_infinity() { return NL::infinity(); }
  const e_float& nl_quiet_NaN() { return NL::quiet_NaN(); }
  const e_float& nl_signaling_NaN() { return NL::signaling_NaN(); }
  const e_float& nl_denorm_min() { return NL::denorm_min(); }
#define C(n) long long nlc_##n() { return static_cast<long long>(NL::n); }
  C(is_specialized) C(is_signed) C(is_integer) C(is_exact) C(is_bounded) C(is_modulo) C(is_iec559) C(digits) C(digits10) C(max_digits10)
  C(min_exponent) C(min_exponent10) C(max_exponent) C(max_exponent10) C(radix) C(round_style) C(has_infinity) C(has_quiet_NaN)
  C(has_signaling_NaN) C(has_denorm) C(has_denorm_loss)
#undef C
#define C(n) long long efc_##n() { return static_cast<long long>(e_float::n); }
  C(ef_digits10_setting) C(ef_digits10) C(ef_max_digits10) C(ef_digits) C(ef_radix) C(ef_min_exp) C(ef_min_exp10) C(ef_max_exp) C(ef_max_exp10)
#undef C

  // complex
  using C_ = ef::complex<e_float>;
  C_ cadd(const C_& u, const C_& v) { return u + v; }
  C_ csub(const C_& u, const C_& v) { return u - v; }
  C_ cmul(const C_& u, const C_& v) { return u * v; }
  C_ cdiv(const C_& u, const C_& v) { return u / v; }
  C_ cadd_r(const C_& u, const e_float& v) { return u + v; }
  C_ csub_r(const C_& u, const e_float& v) { return u - v; }
  C_ cmul_r(const C_& u, const e_float& v) { return u * v; }
  C_ cdiv_r(const C_& u, const e_float& v) { return u / v; }
  C_ radd_c(const e_float& u, const C_& v) { return u + v; }
  C_ rsub_c(const e_float& u, const C_& v) { return u - v; }
  C_ rmul_c(const e_float& u, const C_& v) { return u * v; }
  C_ rdiv_c(const e_float& u, const C_& v) { return u / v; }
  std::ostream& cput(std::ostream& os, const C_& z) { return os << z; }
  C_& ciadd(C_& u, const C_& v) { return u += v; }
  C_& cisub(C_& u, const C_& v) { return u -= v; }
  C_& cimul(C_& u, const C_& v) { return u *= v; }
  C_& cidiv(C_& u, const C_& v) { return u /= v; }
  C_& casg(C_& u, const C_& v) { return u = v; }
  C_& casg_r(C_& u, const e_float& v) { return u = v; }
  C_& ciadd_r(C_& u, const e_float& v) { return u += v; }
  C_& cisub_r(C_& u, const e_float& v) { return u -= v; }
  C_& cimul_r(C_& u, const e_float& v) { return u *= v; }
  C_& cidiv_r(C_& u, const e_float& v) { return u /= v; }
#define CI(T, N) \
  C_& ciadd_##N(C_& u, const T n) { return u += n; } \
  C_& cisub_##N(C_& u, const T n) { return u -= n; } \
  C_& cimul_##N(C_& u, const T n) { return u *= n; } \
  C_& cidiv_##N(C_& u, const T n) { return u /= n; } \
  C_ cctor_##N(const T n) { return C_(n); }
  CI(int, i) CI(unsigned, u) CI(long long, ll) CI(unsigned long long, ull)
  C_ cctor_d(const double n) { return C_(n); }
  C_ cctor_ef(const e_float& x) { return C_(x); }
  C_ cctor_efef(const e_float& x, const e_float& y) { return C_(x, y); }
  C_ cctor_copy(const C_& z) { return C_(z); }
  void cset_re(C_& z, const e_float& x) { z.real(x); }
  void cset_im(C_& z, const e_float& x) { z.imag(x); }
  C_ cneg(const C_& u) { return -u; }
  C_ cpos(const C_& u) { return +u; }
  bool ceq(const C_& u, const C_& v) { return u == v; }
  bool cne(const C_& u, const C_& v) { return u != v; }
  bool ceq_r(const C_& u, const e_float& v) { return u == v; }
  bool cne_r(const C_& u, const e_float& v) { return u != v; }
  bool req_c(const e_float& u, const C_& v) { return u == v; }
  bool rne_c(const e_float& u, const C_& v) { return u != v; }
#define CF(n) C_ c_##n(const C_& z) { return ef::n(z); }
  CF(conj) CF(proj) CF(acos) CF(asin) CF(atan) CF(asinh) CF(acosh) CF(atanh) CF(cos) CF(cosh) CF(exp) CF(log) CF(log10) CF(sin) CF(sinh) CF(sqrt) CF(tan) CF(tanh)
#define CR(n) e_float c_##n(const C_& z) { return ef::n(z); }
  CR(real) CR(imag) CR(abs) CR(arg) CR(norm)
  C_ c_polar(const e_float& r, const e_float& t) { return ef::polar(r, t); }
  C_ c_pow_i(const C_& z, std::int64_t n) { return ef::pow(z, n); }
  C_ c_pow_r(const C_& z, const e_float& a) { return ef::pow(z, a); }
  C_ c_pow_c(const C_& z, const C_& a) { return ef::pow(z, a); }
  C_ r_pow_c(const e_float& z, const C_& a) { return ef::pow(z, a); }
  C_ c_pow_p0(const C_& z) { return ef::pow(z, std::int64_t(0)); }
  C_ c_pow_p1(const C_& z) { return ef::pow(z, std::int64_t(1)); }
  C_ c_pow_p2(const C_& z) { return ef::pow(z, std::int64_t(2)); }
  C_ c_pow_p3(const C_& z) { return ef::pow(z, std::int64_t(3)); }
  C_ c_pow_p4(const C_& z) { return ef::pow(z, std::int64_t(4)); }
  C_ c_pow_p5(const C_& z) { return ef::pow(z, std::int64_t(5)); }
  C_ c_pow_p7(const C_& z) { return ef::pow(z, std::int64_t(7)); }
  C_ c_pow_p6(const C_& z) { return ef::pow(z, std::int64_t(6)); }
  C_ c_pow_p8(const C_& z) { return ef::pow(z, std::int64_t(8)); }
  C_ c_pow_p9(const C_& z) { return ef::pow(z, std::int64_t(9)); }
  C_ c_pow_p13(const C_& z) { return ef::pow(z, std::int64_t(13)); }
  C_ c_pow_m3(const C_& z) { return ef::pow(z, std::int64_t(-3)); }
  C_ c_pow_m6(const C_& z) { return ef::pow(z, std::int64_t(-6)); }
  C_ c_pow_m1(const C_& z) { return ef::pow(z, std::int64_t(-1)); }
  C_ c_pow_m2(const C_& z) { return ef::pow(z, std::int64_t(-2)); }
  // the generic class template, at double and long double
#define DCOMPLEX(T, P) \
  using CT_##P = ef::complex<T>; \
  void P##_out(const CT_##P& r, T* o) { o[0] = r.real(); o[1] = r.imag(); } \
  void P##_add(T a, T b, T c, T d, T* o) { CT_##P r(a, b); r += CT_##P(c, d); P##_out(r, o); } \
  void P##_sub(T a, T b, T c, T d, T* o) { CT_##P r(a, b); r -= CT_##P(c, d); P##_out(r, o); } \
  void P##_mul(T a, T b, T c, T d, T* o) { CT_##P r(a, b); r *= CT_##P(c, d); P##_out(r, o); } \
  void P##_div(T a, T b, T c, T d, T* o) { CT_##P r(a, b); r /= CT_##P(c, d); P##_out(r, o); } \
  void P##_addself(T a, T b, T* o) { CT_##P r(a, b); r += r; P##_out(r, o); } \
  void P##_subself(T a, T b, T* o) { CT_##P r(a, b); r -= r; P##_out(r, o); } \
  void P##_mulself(T a, T b, T* o) { CT_##P r(a, b); r *= r; P##_out(r, o); } \
  void P##_divself(T a, T b, T* o) { CT_##P r(a, b); r /= r; P##_out(r, o); } \
  void P##_badd(T a, T b, T c, T d, T* o) { P##_out(CT_##P(a, b) + CT_##P(c, d), o); } \
  void P##_bsub(T a, T b, T c, T d, T* o) { P##_out(CT_##P(a, b) - CT_##P(c, d), o); } \
  void P##_bmul(T a, T b, T c, T d, T* o) { P##_out(CT_##P(a, b) * CT_##P(c, d), o); } \
  void P##_bdiv(T a, T b, T c, T d, T* o) { P##_out(CT_##P(a, b) / CT_##P(c, d), o); } \
  void P##_addr(T a, T b, T c, T* o) { P##_out(CT_##P(a, b) + c, o); } \
  void P##_subr(T a, T b, T c, T* o) { P##_out(CT_##P(a, b) - c, o); } \
  void P##_mulr(T a, T b, T c, T* o) { P##_out(CT_##P(a, b) * c, o); } \
  void P##_divr(T a, T b, T c, T* o) { P##_out(CT_##P(a, b) / c, o); } \
  void P##_radd(T a, T b, T c, T* o) { P##_out(c + CT_##P(a, b), o); } \
  void P##_rsub(T a, T b, T c, T* o) { P##_out(c - CT_##P(a, b), o); } \
  void P##_rmul(T a, T b, T c, T* o) { P##_out(c * CT_##P(a, b), o); } \
  void P##_rdiv(T a, T b, T c, T* o) { P##_out(c / CT_##P(a, b), o); } \
  void P##_iaddr(T a, T b, T c, T* o) { CT_##P r(a, b); r += c; P##_out(r, o); } \
  void P##_isubr(T a, T b, T c, T* o) { CT_##P r(a, b); r -= c; P##_out(r, o); } \
  void P##_imulr(T a, T b, T c, T* o) { CT_##P r(a, b); r *= c; P##_out(r, o); } \
  void P##_idivr(T a, T b, T c, T* o) { CT_##P r(a, b); r /= c; P##_out(r, o); } \
  void P##_asgr(T a, T b, T c, T* o) { CT_##P r(a, b); r = c; P##_out(r, o); } \
  void P##_neg(T a, T b, T* o) { P##_out(-CT_##P(a, b), o); } \
  bool P##_eq(T a, T b, T c, T d) { return CT_##P(a, b) == CT_##P(c, d); } \
  bool P##_ne(T a, T b, T c, T d) { return CT_##P(a, b) != CT_##P(c, d); } \
  bool P##_eqr(T a, T b, T c) { return CT_##P(a, b) == c; } \
  bool P##_ner(T a, T b, T c) { return CT_##P(a, b) != c; } \
  bool P##_req(T a, T b, T c) { return c == CT_##P(a, b); } \
  bool P##_rne(T a, T b, T c) { return c != CT_##P(a, b); } \
  T P##_abs(T a, T b) { return ef::abs(CT_##P(a, b)); } \
  T P##_arg(T a, T b) { return ef::arg(CT_##P(a, b)); } \
  T P##_norm(T a, T b) { return ef::norm(CT_##P(a, b)); } \
  T P##_real(T a, T b) { return ef::real(CT_##P(a, b)); } \
  T P##_imag(T a, T b) { return ef::imag(CT_##P(a, b)); } \
  void P##_polar(T a, T b, T* o) { P##_out(ef::polar(a, b), o); }
#define DF(T, P, n) void P##_##n(T a, T b, T* o) { P##_out(ef::n(CT_##P(a, b)), o); }
#define DALL(T, P) DCOMPLEX(T, P) DF(T, P, conj) DF(T, P, proj) DF(T, P, acos) DF(T, P, asin) DF(T, P, atan) DF(T, P, asinh) DF(T, P, acosh) DF(T, P, atanh) \
  DF(T, P, cos) DF(T, P, cosh) DF(T, P, exp) DF(T, P, log) DF(T, P, log10) DF(T, P, sin) DF(T, P, sinh) DF(T, P, sqrt) DF(T, P, tan) DF(T, P, tanh)
  DALL(double, cd) DALL(long double, cl) DALL(float, cf)
#undef CF
#undef CR
#undef CI
#undef ONE
}
