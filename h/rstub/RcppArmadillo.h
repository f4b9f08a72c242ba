// Stand-in for R's C interface, Rcpp and Armadillo: just the part that ETR's R
// mode uses, with the documented behaviour of those libraries ("Writing R
// Extensions", Rinternals.h, Rmath.h, the Rcpp and Armadillo manuals). R is not
// installed here. What the stand-in adds for checking:
//  - the elements of every R vector lie between guard zones,
//  - every allocation by R runs the garbage collector first ("gctorture"): an
//    object that is neither protected nor preserved is destroyed; its memory is
//    overwritten and every later use of it is an error,
//  - the density, distribution, quantile and random functions do not compute a
//    distribution but record their arguments (rstub::log) and return a value
//    that depends on all of them.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#define R_NO_REMAP
#ifndef RSTUB_SCOPE // placed where the stand-in allocates
#define RSTUB_SCOPE
#endif
enum Rboolean { FALSE = 0, TRUE = 1 };
typedef unsigned int SEXPTYPE;
typedef std::ptrdiff_t R_xlen_t;
typedef int R_len_t;
enum : SEXPTYPE { NILSXP = 0, LGLSXP = 10, INTSXP = 13, REALSXP = 14, STRSXP = 16 };

struct SEXPREC {
  SEXPTYPE type = NILSXP;
  long n = 0;
  bool dim = false;
  int nr = 0, nc = 0;
  bool dead = false;
  int preserved = 0;
  std::string str;
  char *raw = nullptr; // guard | elements | guard
  std::size_t bytes = 0;
};
typedef SEXPREC *SEXP;

namespace rstub {
constexpr std::size_t G = 64;
struct Heap {
  std::vector<SEXP> all, stack;
  bool torture = true;
  long allocs = 0, warnings = 0;
  std::string lastWarning;
  int rngDepth = 0, rngUses = 0;
  std::vector<std::vector<double>> log; // calls of the distributions
  const char *error = nullptr;
};
inline Heap H;
inline SEXPREC nil_;
[[noreturn]] inline void die(const char *m) { // an error of R's interface
  H.error = m;
  throw std::runtime_error(std::string("R: ") + m);
}
inline void use(SEXP s) {
  if (s && s->dead)
    die("an object that was garbage collected is used");
}
inline bool guards(SEXP s) {
  if (!s->raw)
    return true;
  for (std::size_t i = 0; i < G; i++)
    if ((unsigned char)s->raw[i] != 0xBD || (unsigned char)s->raw[G + s->bytes + i] != 0xBD)
      return false;
  return true;
}
inline void kill(SEXP s) {
  s->dead = true;
  if (s->raw)
    std::memset(s->raw + G, 0xDD, s->bytes);
}
inline void gc() {
  for (SEXP s : H.all) {
    if (s->dead || s->preserved)
      continue;
    bool live = false;
    for (SEXP q : H.stack)
      live |= q == s;
    if (!live)
      kill(s);
  }
}
inline SEXP make(SEXPTYPE t, long n) {
  if (n < 0)
    die("negative length vectors are not allowed");
  RSTUB_SCOPE
  if (H.torture)
    gc();
  H.allocs++;
  SEXP s = new (std::malloc(sizeof(SEXPREC))) SEXPREC();
  s->type = t;
  s->n = n;
  s->bytes = n * (t == REALSXP ? 8 : 4);
  s->raw = (char *)std::malloc(2 * G + s->bytes);
  std::memset(s->raw, 0xBD, 2 * G + s->bytes);
  std::memset(s->raw + G, 0xE7, s->bytes); // R does not initialise it either
  H.all.push_back(s);
  return s;
}
// forget everything; the message of the first damage found, if any
inline const char *reset() {
  const char *bad = H.error;
  RSTUB_SCOPE
  for (SEXP s : H.all) {
    if (!guards(s))
      bad = "memory next to the elements of an R object was written";
    std::free(s->raw);
    s->~SEXPREC();
    std::free(s);
  }
  if (!H.stack.empty() && !bad)
    bad = "stack imbalance: PROTECT without UNPROTECT";
  if (H.rngDepth && !bad)
    bad = "GetRNGstate without PutRNGstate";
  H = Heap();
  return bad;
}
} // namespace rstub

inline SEXP R_NilValue = &rstub::nil_;
inline double R_NaN = std::numeric_limits<double>::quiet_NaN();
inline double R_NaReal = [] {
  std::uint64_t u = 0x7FF00000000007A2ull;
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}();
inline double R_PosInf = std::numeric_limits<double>::infinity(), R_NegInf = -std::numeric_limits<double>::infinity();
inline int R_NaInt = INT32_MIN;
#define NA_REAL R_NaReal
#define NA_INTEGER R_NaInt
#define NA_LOGICAL R_NaInt

inline SEXP Rf_protect(SEXP s) {
  rstub::use(s);
  RSTUB_SCOPE
  rstub::H.stack.push_back(s);
  return s;
}
inline void Rf_unprotect(int n) {
  if (n < 0 || n > (int)rstub::H.stack.size())
    rstub::die("unprotect(): only too few protected items");
  rstub::H.stack.resize(rstub::H.stack.size() - n);
}
#define PROTECT(s) Rf_protect(s)
#define UNPROTECT(n) Rf_unprotect(n)
inline void R_PreserveObject(SEXP s) { s->preserved++; }
inline void R_ReleaseObject(SEXP s) { s->preserved--; }

inline int TYPEOF(SEXP s) { rstub::use(s); return (int)s->type; }
inline Rboolean Rf_isReal(SEXP s) { return Rboolean(TYPEOF(s) == REALSXP); }
inline Rboolean Rf_isInteger(SEXP s) { return Rboolean(TYPEOF(s) == INTSXP); }
inline Rboolean Rf_isLogical(SEXP s) { return Rboolean(TYPEOF(s) == LGLSXP); }
inline Rboolean Rf_isNumeric(SEXP s) { return Rboolean(TYPEOF(s) == REALSXP || TYPEOF(s) == INTSXP || TYPEOF(s) == LGLSXP); }
inline Rboolean Rf_isNull(SEXP s) { return Rboolean(TYPEOF(s) == NILSXP); }
inline Rboolean Rf_isMatrix(SEXP s) { rstub::use(s); return Rboolean(s->dim); }
inline R_len_t Rf_length(SEXP s) { rstub::use(s); return (R_len_t)s->n; }
inline R_xlen_t Rf_xlength(SEXP s) { rstub::use(s); return s->n; }
inline int Rf_nrows(SEXP s) { rstub::use(s); return s->dim ? s->nr : (int)s->n; }
inline int Rf_ncols(SEXP s) { rstub::use(s); return s->dim ? s->nc : 1; }
inline double *REAL(SEXP s) {
  rstub::use(s);
  if (s->type != REALSXP)
    rstub::die("REAL() can only be applied to a 'numeric'");
  return s->n ? (double *)(s->raw + rstub::G) : (double *)1; // as R >= 4.3
}
inline int *INTEGER(SEXP s) {
  rstub::use(s);
  if (s->type != INTSXP && s->type != LGLSXP)
    rstub::die("INTEGER() can only be applied to a 'integer'");
  return s->n ? (int *)(s->raw + rstub::G) : (int *)1;
}
inline int *LOGICAL(SEXP s) {
  rstub::use(s);
  if (s->type != LGLSXP && s->type != INTSXP)
    rstub::die("LOGICAL() can only be applied to a 'logical'");
  return s->n ? (int *)(s->raw + rstub::G) : (int *)1;
}
inline SEXP Rf_allocVector(SEXPTYPE t, R_xlen_t n) {
  if (t != REALSXP && t != INTSXP && t != LGLSXP && t != STRSXP)
    rstub::die("allocVector: type is not supported");
  return rstub::make(t, n);
}
inline SEXP Rf_allocMatrix(SEXPTYPE t, int r, int c) {
  if (r < 0 || c < 0)
    rstub::die("negative extents to matrix");
  SEXP s = Rf_allocVector(t, (R_xlen_t)r * c);
  s->dim = true;
  s->nr = r;
  s->nc = c;
  return s;
}
inline SEXP Rf_ScalarReal(double x) {
  SEXP s = Rf_allocVector(REALSXP, 1);
  REAL(s)[0] = x;
  return s;
}
inline SEXP Rf_ScalarInteger(int x) {
  SEXP s = Rf_allocVector(INTSXP, 1);
  INTEGER(s)[0] = x;
  return s;
}
inline SEXP Rf_ScalarLogical(int x) {
  SEXP s = Rf_allocVector(LGLSXP, 1);
  LOGICAL(s)[0] = x == NA_LOGICAL ? x : x != 0;
  return s;
}
inline SEXP Rf_mkString(const char *c) {
  RSTUB_SCOPE
  std::string copy = c;
  SEXP s = Rf_allocVector(STRSXP, 1);
  s->str = copy;
  return s;
}
inline void GetRNGstate() { rstub::H.rngDepth++; }
inline void PutRNGstate() { rstub::H.rngDepth--; }

namespace rstub {
inline double note(std::initializer_list<double> v) {
  RSTUB_SCOPE
  if (*v.begin() < 0 && H.rngDepth < 1)
    H.error = "a random number is drawn outside of GetRNGstate / PutRNGstate";
  double s = 0;
  for (double x : v)
    s = s * 1.25 + x;
  H.log.push_back(v);
  return s + 1000.0 * H.log.size() * (*v.begin() < 0); // random numbers differ from call to call
}
} // namespace rstub
namespace R {
#define RSTUB_DIST(name, k)                                                                              \
  inline double d##name(double x, double a, double b, int lg) { return rstub::note({k + 1, x, a, b, double(lg)}); } \
  inline double p##name(double x, double a, double b, int lo, int lg) { return rstub::note({k + 2, x, a, b, double(lo), double(lg)}); } \
  inline double q##name(double x, double a, double b, int lo, int lg) { return rstub::note({k + 3, x, a, b, double(lo), double(lg)}); } \
  inline double r##name(double a, double b) { return rstub::note({-(k + 4), a, b}); }
RSTUB_DIST(unif, 10.0)
RSTUB_DIST(norm, 20.0)
RSTUB_DIST(lnorm, 30.0)
RSTUB_DIST(gamma, 40.0)
#undef RSTUB_DIST
} // namespace R

namespace Rcpp {
struct exception : std::exception {
  std::string m;
  explicit exception(const std::string &t) : m(t) {}
  const char *what() const noexcept override { return m.c_str(); }
};
[[noreturn]] inline void stop(const std::string &m) { throw exception(m); }
template <class... A> inline void warning(const std::string &m, A &&...) {
  RSTUB_SCOPE
  rstub::H.warnings++;
  rstub::H.lastWarning = m;
}
// printing to R's console; here a buffer that the harness reads
struct Console : std::ostream {
  std::ostringstream s;
  Console() : std::ostream(nullptr) { rdbuf(s.rdbuf()); }
};
inline Console Rcout, Rcerr;
// a handle: copies refer to the same R object, which it keeps alive
class NumericVector {
protected:
  SEXP s = nullptr;
  void set(SEXP x) {
    R_PreserveObject(x);
    if (s)
      R_ReleaseObject(s);
    s = x;
  }

public:
  NumericVector() { set(Rf_allocVector(REALSXP, 0)); }
  template <class N>
    requires(std::is_integral_v<N>)
  NumericVector(const N &n) {
    set(Rf_allocVector(REALSXP, (R_xlen_t)n));
    for (R_xlen_t i = 0; i < s->n; i++)
      REAL(s)[i] = 0;
  }
  NumericVector(SEXP x) {
    if (TYPEOF(x) == REALSXP)
      set(x);
    else if (Rf_isNumeric(x)) { // r_cast
      SEXP r = Rf_protect(Rf_allocVector(REALSXP, x->n));
      for (R_xlen_t i = 0; i < x->n; i++)
        REAL(r)[i] = INTEGER(x)[i] == NA_INTEGER ? NA_REAL : INTEGER(x)[i];
      r->dim = x->dim;
      r->nr = x->nr;
      r->nc = x->nc;
      set(r);
      Rf_unprotect(1);
    } else
      throw exception("Not compatible with requested type");
  }
  NumericVector(const NumericVector &o) { set(o.s); }
  NumericVector &operator=(const NumericVector &o) {
    set(o.s);
    return *this;
  }
  ~NumericVector() { R_ReleaseObject(s); }
  R_xlen_t size() const { return Rf_xlength(s); }
  R_xlen_t length() const { return Rf_xlength(s); }
  double &operator[](R_xlen_t i) {
    if (i < 0 || i >= s->n)
      rstub::die("subscript out of bounds");
    return REAL(s)[i];
  }
  const double &operator[](R_xlen_t i) const {
    if (i < 0 || i >= s->n)
      rstub::die("subscript out of bounds");
    return REAL(s)[i];
  }
  operator SEXP() const { return s; }
};
class NumericMatrix : public NumericVector {
public:
  NumericMatrix() : NumericMatrix(0, 0) {}
  NumericMatrix(int r, int c) : NumericVector(R_xlen_t(r) * c) {
    s->dim = true;
    s->nr = r;
    s->nc = c;
  }
  NumericMatrix(SEXP x) : NumericVector(x) {
    if (!Rf_isMatrix(s))
      throw exception("Not a matrix.");
  }
  int nrow() const { return s->nr; }
  int ncol() const { return s->nc; }
};
} // namespace Rcpp

namespace arma {
typedef unsigned long long uword;
struct mat { // owns its elements, column by column; zero-initialised as Armadillo >= 10.5
  uword n_rows = 0, n_cols = 0, n_elem = 0;
  std::vector<double> v;
  mat() {}
  mat(uword r, uword c) : n_rows(r), n_cols(c), n_elem(r * c), v(r * c) {}
  uword size() const { return n_elem; }
  double &operator[](uword i) { return v.at(i); }
  const double &operator[](uword i) const { return v.at(i); }
};
struct vec : mat {
  vec() { n_cols = 1; }
  explicit vec(uword n) : mat(n, 1) {}
};
} // namespace arma
