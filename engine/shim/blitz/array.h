// Contract shim for the Blitz++ subset used by libmpdata++ (assumed dependency contract):
// arrays are total maps from index tuples to exact reals, array-expression assignment is the
// element-wise map over the destination, slices/views are index translations.
#pragma once
#include "../../sym.hpp"
#include <array>
#include <cassert>
#include <cstring>
#include <vector>
#include <iostream>
#include <numeric>
#include <limits>
#include <string>
#include <memory>
#include <algorithm>
#include <complex>

#define BZ_SUMTYPE(x) x
#define BZ_DECL_ARRAY_PARTIAL_REDUCE(f, R)
#define BZ_DECL_ARRAY_FULL_REDUCE(f, R) template <class E, sym_arr<E> = 0> inline vreal f(const E &e) { return reduce_(sym::K_SUM, e); }

namespace blitz
{
  using sym::vint; using sym::vreal; using sym::vbool; using sym::Node; using sym::Param;
  const int firstDim = 0, secondDim = 1, thirdDim = 2;
  const int firstRank = 0, secondRank = 1, thirdRank = 2;

  class Range
  {
    vint f, l; bool all_ = false, fs = false, te = false;
    public:
    enum { fromStart = -2147483647 - 1, toEnd = -2147483647 };
    Range() : all_(true) {}
    explicit Range(vint a) : f(a), l(a) {}
    Range(vint a, vint b) : f(a), l(b) { if (a.concrete() && a.c == fromStart) fs = true; if (b.concrete() && b.c == toEnd) te = true; }
    static Range all() { return Range(); }
    bool isall() const { return all_; }
    vint first() const { return f; } vint last() const { return l; }
    vint first(vint low) const { return all_ || fs ? low : f; } vint last(vint hi) const { return all_ || te ? hi : l; }
    vint length() const { return l - f + 1; } vint stride() const { return 1; }
    Range operator+(const vint &n) const { Range r = *this; r.f = f + n; r.l = l + n; return r; }
    Range operator-(const vint &n) const { Range r = *this; r.f = f - n; r.l = l - n; return r; }
    vint operator()(vint i) const { return f + i; }
    friend std::ostream &operator<<(std::ostream &o, const Range &r) { return o << "Range(" << r.f << "," << r.l << ")"; }
  };
  inline Range operator+(const vint &n, const Range &r) { return r + n; }

  template <class T, int N> class TinyVector
  {
    std::array<T, N> d;
    public:
    using T_numtype = T;
    TinyVector() {}
    TinyVector(const T &a) { d.fill(a); }
    template <int M = N, std::enable_if_t<M == 2, int> = 0> TinyVector(const T &a, const T &b) : d{a, b} {}
    template <int M = N, std::enable_if_t<M == 3, int> = 0> TinyVector(const T &a, const T &b, const T &c) : d{a, b, c} {}
    template <int M = N, std::enable_if_t<M == 4, int> = 0> TinyVector(const T &a, const T &b, const T &c, const T &e) : d{a, b, c, e} {}
    T &operator[](vint i) { return d[std::size_t(i)]; } const T &operator[](vint i) const { return d[std::size_t(i)]; }
    T &operator()(vint i) { return d[std::size_t(i)]; } const T &operator()(vint i) const { return d[std::size_t(i)]; }
    int length() const { return N; }
    T *begin() { return d.data(); } T *end() { return d.data() + N; } const T *begin() const { return d.data(); } const T *end() const { return d.data() + N; }
    T *data() { return d.data(); }
  };
  template <class T, int N> TinyVector<T, N> operator+(const TinyVector<T, N> &a, const TinyVector<T, N> &b) { TinyVector<T, N> r; for (int i = 0; i < N; ++i) r[i] = a[i] + b[i]; return r; }
  template <class T, int N> TinyVector<T, N> operator-(const TinyVector<T, N> &a, const TinyVector<T, N> &b) { TinyVector<T, N> r; for (int i = 0; i < N; ++i) r[i] = a[i] - b[i]; return r; }
  template <class... A> TinyVector<vint, sizeof...(A)> shape(A... a) { return TinyVector<vint, sizeof...(A)>(vint(a)...); }
  template <class T, int N> T product(const TinyVector<T, N> &a) { T r = a[0]; for (int i = 1; i < N; ++i) r = r * a[i]; return r; }

  template <int N> class RectDomain
  {
    TinyVector<vint, N> lo, hi;
    public:
    RectDomain() {}
    RectDomain(const TinyVector<Range, N> &b) { for (int i = 0; i < N; ++i) { lo[i] = b[i].first(); hi[i] = b[i].last(); } }
    RectDomain(const TinyVector<vint, N> &l, const TinyVector<vint, N> &h) : lo(l), hi(h) {}
    template <int M = N, std::enable_if_t<M == 1, int> = 0> RectDomain(const Range &r) { lo[0] = r.first(); hi[0] = r.last(); }
    vint &lbound(int i) { return lo[i]; } vint &ubound(int i) { return hi[i]; }
    const vint &lbound(int i) const { return lo[i]; } const vint &ubound(int i) const { return hi[i]; }
    TinyVector<vint, N> &lbound() { return lo; } TinyVector<vint, N> &ubound() { return hi; }
    const TinyVector<vint, N> &lbound() const { return lo; } const TinyVector<vint, N> &ubound() const { return hi; }
    Range operator[](int i) const { return Range(lo[i], hi[i]); }
    Range operator[](const vint &i) const { return (*this)[int(static_cast<long>(i))]; }
    vint &lbound(const vint &i) { return lo[int(static_cast<long>(i))]; } vint &ubound(const vint &i) { return hi[int(static_cast<long>(i))]; }
  };
  template <int N> struct GeneralArrayStorage
  {
    GeneralArrayStorage() {}
    GeneralArrayStorage(const TinyVector<vint, N> &, const TinyVector<bool, N> &) {}
    TinyVector<vint, N> ord_; TinyVector<vint, N> ordering() const { return ord_; }
  };
  template <int N> struct FortranArray : GeneralArrayStorage<N> {};
  enum preexistingMemoryPolicy { duplicateData, deleteDataWhenDone, neverDeleteData };

  struct View
  {
    sym::Storage *st = nullptr; std::vector<int> vd; std::vector<vint> off; std::vector<vint> lb, ub;
    std::vector<vint> sidx(const std::vector<vint> &v) const { std::vector<vint> r; for (size_t s = 0; s < vd.size(); ++s) r.push_back(vd[s] < 0 ? off[s] : v[vd[s]] + off[s]); return r; }
  };
  struct vdata { View v; vreal operator*() const { return vreal(); } };

  struct vref
  {
    sym::Storage *st; std::vector<vint> idx;
    vreal get() const { return vreal(sym::read(st, idx)); }
    operator vreal() const { return get(); }
    const vref &operator=(const vreal &v) const { sym::write(st, {}, idx, v.n); return *this; }
    const vref &operator=(const vref &v) const { return *this = v.get(); }
    template <class A, sym::isar<A> = 0> const vref &operator=(const A &a) const { return *this = sym::tor(a); }
    vref(const vref &) = default; vref(sym::Storage *s, std::vector<vint> i) : st(s), idx(std::move(i)) {}
    const vref &operator+=(const vreal &v) const { return *this = get() + v; } const vref &operator-=(const vreal &v) const { return *this = get() - v; }
    const vref &operator*=(const vreal &v) const { return *this = get() * v; } const vref &operator/=(const vreal &v) const { return *this = get() / v; }
    vreal operator-() const { return -get(); }
    explicit operator double() const { return double(get()); }
  };
#define BZS_RR(op) inline auto operator op(const vref &a, const vref &b) { return a.get() op b.get(); } \
  inline auto operator op(const vref &a, const vreal &b) { return a.get() op b; } inline auto operator op(const vreal &a, const vref &b) { return a op b.get(); } \
  template <class A, sym::isar<A> = 0> inline auto operator op(const vref &a, const A &b) { return a.get() op sym::tor(b); } template <class A, sym::isar<A> = 0> inline auto operator op(const A &a, const vref &b) { return sym::tor(a) op b.get(); }
  BZS_RR(+) BZS_RR(-) BZS_RR(*) BZS_RR(/) BZS_RR(<) BZS_RR(<=) BZS_RR(>) BZS_RR(>=) BZS_RR(==) BZS_RR(!=)
#undef BZS_RR
  inline std::ostream &operator<<(std::ostream &o, const vref &v) { return o << v.get(); }

  template <int N> using Off = std::array<vint, N>;
  template <int N> struct vexpr { using T_numtype = vreal; static const int rank_ = N; std::array<vint, N> ext; std::function<Node *(const Off<N> &)> f; bool sized = true;
    vint extent(int d) const { return ext[d]; } static int rank() { return N; } };
  template <int N> struct bexpr { using T_numtype = bool; static const int rank_ = N; std::array<vint, N> ext; std::function<Node *(const Off<N> &)> f; };

  template <class T, int N> class Array;
  template <class E> struct arr_tr { static const bool is = false; static const int N = 0; };
  template <int M> struct arr_tr<vexpr<M>> { static const bool is = true; static const int N = M; };
  template <int M> struct arr_tr<Array<vreal, M>> { static const bool is = true; static const int N = M; };
  template <class E> using sym_arr = std::enable_if_t<arr_tr<E>::is, int>;
  template <class A> struct is_scal { static const bool value = std::is_arithmetic<A>::value || std::is_enum<A>::value || std::is_same<A, vint>::value || std::is_same<A, vreal>::value || std::is_same<A, vref>::value; };
  template <class A> using sym_scal = std::enable_if_t<is_scal<A>::value, int>;
  template <class L, class R> struct pair_tr { static const bool ok = (arr_tr<L>::is && (arr_tr<R>::is || is_scal<R>::value)) || (arr_tr<R>::is && is_scal<L>::value); static const int N = arr_tr<L>::is ? arr_tr<L>::N : arr_tr<R>::N; };
  template <class L, class R> using sym_pair = std::enable_if_t<pair_tr<L, R>::ok && (!arr_tr<L>::is || !arr_tr<R>::is || arr_tr<L>::N == arr_tr<R>::N), int>;

  template <int N> vexpr<N> toex(const vexpr<N> &e) { return e; }
  template <int N> vexpr<N> toex(const Array<vreal, N> &a);
  inline vreal toscal(const vreal &a) { return a; } inline vreal toscal(const vref &a) { return a.get(); }
  template <class A, sym::isar<A> = 0> vreal toscal(const A &a) { return sym::tor(a); }
  template <int N, class A> struct conv_
  {
    static vexpr<N> go(const A &a) { if constexpr (arr_tr<A>::is) return toex(a); else { vexpr<N> e; e.sized = false; Node *n = toscal(a).n; e.f = [n](const Off<N> &) { return n; }; return e; } }
  };
  template <int N> std::array<vint, N> jext(const vexpr<N> &a, const vexpr<N> &b) { if (!a.sized) return b.ext; if (b.sized) for (int d = 0; d < N; ++d) sym::oblige_shape(a.ext[d], b.ext[d], "operands of an array expression"); return a.ext; }
  template <int N> vexpr<N> bin(const vexpr<N> &a, const vexpr<N> &b, vreal (*op)(const vreal &, const vreal &)) { vexpr<N> r; r.sized = a.sized || b.sized; r.ext = jext<N>(a, b); auto fa = a.f, fb = b.f; r.f = [fa, fb, op](const Off<N> &o) { return op(vreal(fa(o)), vreal(fb(o))).n; }; return r; }
  template <int N> bexpr<N> bcmp(const vexpr<N> &a, const vexpr<N> &b, vbool (*op)(const vreal &, const vreal &)) { bexpr<N> r; r.ext = jext<N>(a, b); auto fa = a.f, fb = b.f; r.f = [fa, fb, op](const Off<N> &o) { return op(vreal(fa(o)), vreal(fb(o))).n; }; return r; }
  template <int N> vexpr<N> un(const vexpr<N> &a, std::function<vreal(const vreal &)> op) { vexpr<N> r; r.sized = a.sized; r.ext = a.ext; auto fa = a.f; r.f = [fa, op](const Off<N> &o) { return op(vreal(fa(o))).n; }; return r; }
#define BZS_BIN(name, fn) template <class L, class R, sym_pair<L, R> = 0> inline auto name(const L &a, const R &b) { constexpr int N = pair_tr<L, R>::N; return bin<N>(conv_<N, L>::go(a), conv_<N, R>::go(b), [](const vreal &x, const vreal &y) -> vreal { return fn; }); }
  BZS_BIN(operator+, x + y) BZS_BIN(operator-, x - y) BZS_BIN(operator*, x * y) BZS_BIN(operator/, x / y) BZS_BIN(min, sym::r_min(x, y)) BZS_BIN(max, sym::r_max(x, y)) BZS_BIN(pow, sym::r_pow(x, y))
#undef BZS_BIN
#define BZS_CMP(op) template <class L, class R, sym_pair<L, R> = 0> inline auto operator op(const L &a, const R &b) { constexpr int N = pair_tr<L, R>::N; return bcmp<N>(conv_<N, L>::go(a), conv_<N, R>::go(b), [](const vreal &x, const vreal &y) -> vbool { return x op y; }); }
  BZS_CMP(<) BZS_CMP(<=) BZS_CMP(>) BZS_CMP(>=) BZS_CMP(==) BZS_CMP(!=)
#undef BZS_CMP
  template <int N> bexpr<N> operator&&(const bexpr<N> &a, const bexpr<N> &b) { bexpr<N> r; r.ext = a.ext; auto fa = a.f, fb = b.f; r.f = [fa, fb](const Off<N> &o) { return sym::r_and({fa(o)}, {fb(o)}).n; }; return r; }
  template <int N> bexpr<N> operator||(const bexpr<N> &a, const bexpr<N> &b) { bexpr<N> r; r.ext = a.ext; auto fa = a.f, fb = b.f; r.f = [fa, fb](const Off<N> &o) { return sym::r_or({fa(o)}, {fb(o)}).n; }; return r; }
  template <int N> bexpr<N> operator!(const bexpr<N> &a) { bexpr<N> r; r.ext = a.ext; auto fa = a.f; r.f = [fa](const Off<N> &o) { return sym::r_not({fa(o)}).n; }; return r; }
#define BZS_UN(name, fn) template <class E, sym_arr<E> = 0> inline auto name(const E &a) { return un<arr_tr<E>::N>(toex(a), [](const vreal &x) -> vreal { return fn; }); }
  BZS_UN(operator-, -x) BZS_UN(operator+, x) BZS_UN(abs, sym::r_abs(x)) BZS_UN(fabs, sym::r_abs(x)) BZS_UN(sqrt, sym::sqrt(x)) BZS_UN(exp, sym::exp(x)) BZS_UN(log, sym::log(x)) BZS_UN(sin, sym::sin(x)) BZS_UN(cos, sym::cos(x)) BZS_UN(tanh, sym::tanh(x))
  BZS_UN(pow2, x * x) BZS_UN(sqr, x * x) BZS_UN(pow3, x * x * x) BZS_UN(pow4, x * x * x * x) BZS_UN(cbrt, sym::cbrt(x)) BZS_UN(rint, sym::r_fun("rint", {x}))
#undef BZS_UN
  inline vreal pow2(const vreal &x) { return x * x; } inline vreal pow3(const vreal &x) { return x * x * x; } inline vreal pow4(const vreal &x) { return x * x * x * x; }
  using sym::abs; using sym::fabs; using sym::sqrt; using sym::exp; using sym::log; using sym::sin; using sym::cos; using sym::tanh; using sym::cbrt; using sym::pow;
  template <int N, class A, class B> inline vexpr<N> where(const bexpr<N> &c, const A &a, const B &b)
  {
    vexpr<N> x = conv_<N, A>::go(a), y = conv_<N, B>::go(b), r; r.ext = c.ext; auto fc = c.f, fa = x.f, fb = y.f;
    r.f = [fc, fa, fb](const Off<N> &o) { return sym::r_ite({fc(o)}, vreal(fa(o)), vreal(fb(o))).n; }; return r;
  }
  template <class A, class B, sym_scal<A> = 0, sym_scal<B> = 0> inline vreal where(const vbool &c, const A &a, const B &b) { return sym::r_ite(c, toscal(a), toscal(b)); }
  template <class E, sym_arr<E> = 0> vreal reduce_(sym::Kind k, const E &e_)
  {
    constexpr int N = arr_tr<E>::N; vexpr<N> e = toex(e_); std::vector<Param> ps; Off<N> o;
    for (int d = 0; d < N; ++d) { int s = sym::fresh_sym("r"); ps.push_back({s, vint(0), e.ext[d] - 1}); o[d] = sym::sym_lin(s); }
    return vreal(sym::reduce(k, ps, [&] { return e.f(o); }));
  }
  template <class E, sym_arr<E> = 0> vreal sum(const E &e) { return reduce_(sym::K_SUM, e); }
  template <class E, sym_arr<E> = 0> vreal max(const E &e) { return reduce_(sym::K_RMAX, e); }
  template <class E, sym_arr<E> = 0> vreal min(const E &e) { return reduce_(sym::K_RMIN, e); }
  template <int N> vreal sum(const bexpr<N> &) { throw sym::Unsupported("count"); }
  template <class E> inline E safeToReturn(const E &e) { return e; }
  inline vreal epsilon(const vreal &) { return sym::named_real("REAL_EPS"); }
  inline vreal tiny(const vreal &) { return sym::named_real("REAL_TINY"); }
  inline vreal huge(const vreal &) { return sym::named_real("REAL_MAX"); }
  inline bool has_signalling_NaN(const vreal &) { return true; }
  inline vreal signalling_NaN(const vreal &) { return vreal(); } inline vreal quiet_NaN(const vreal &) { return vreal(); }
  template <class T> T zero(const T &) { return T(0); }

  struct IndexBase {}; 
  template <int R> struct IndexPlaceholder : IndexBase {};
  using firstIndex = IndexPlaceholder<0>; using secondIndex = IndexPlaceholder<1>; using thirdIndex = IndexPlaceholder<2>;

  template <class X> struct is_rng { static const int v = 0; };
  template <> struct is_rng<Range> { static const int v = 1; };

  template <class T, int N> class Array
  {
    template <class T2, int N2> friend class Array;
    public:
    View v;
    using T_numtype = T; using T_index = TinyVector<vint, N>; static const int rank_ = N;
    static_assert(std::is_same<T, vreal>::value, "symbolic shim supports real arrays only");
    private:
    void init(const std::vector<vint> &lo, const std::vector<vint> &hi)
    {
      v.st = sym::new_storage("arr" + std::to_string(N) + "d", lo, hi); v.vd.clear(); v.off.clear();
      for (int d = 0; d < N; ++d) { v.vd.push_back(d); v.off.push_back(0); } v.lb = lo; v.ub = hi;
    }
    void chk(const std::vector<vint> &i) const { for (int d = 0; d < N; ++d) sym::oblige_in_range(i[d], i[d], v.lb[d], v.ub[d], "element", v.st); }
    void one(View &r, int d, const Range &g, int &nd) const
    {
      vint a = g.first(v.lb[d]), b = g.last(v.ub[d]);
      if (!g.isall()) sym::oblige_in_range(a, b, v.lb[d], v.ub[d], "slice", v.st);
      for (size_t s = 0; s < v.vd.size(); ++s) if (v.vd[s] == d) { r.vd[s] = nd; r.off[s] = v.off[s] + a - v.lb[d]; }
      r.lb.push_back(v.lb[d]); r.ub.push_back(v.lb[d] + (b - a)); ++nd;
    }
    void one(View &r, int d, const vint &i, int &) const
    {
      sym::oblige_in_range(i, i, v.lb[d], v.ub[d], "slice index", v.st);
      for (size_t s = 0; s < v.vd.size(); ++s) if (v.vd[s] == d) { r.vd[s] = -1; r.off[s] = v.off[s] + i; }
    }
    template <class I, sym::isint<I> = 0> void one(View &r, int d, I i, int &nd) const { one(r, d, vint(i), nd); }
    public:
    Array() {}
    template <class G> explicit Array(GeneralArrayStorage<N>, G *) {}
    Array(const Array &o) : v(o.v) {}
    explicit Array(const Range &a) { static_assert(N == 1, ""); init({a.first()}, {a.last()}); }
    Array(const Range &a, const GeneralArrayStorage<N> &) : Array(a) {}
    Array(const Range &a, const Range &b, const GeneralArrayStorage<N> & = GeneralArrayStorage<N>()) { static_assert(N == 2, ""); init({a.first(), b.first()}, {a.last(), b.last()}); }
    Array(const Range &a, const Range &b, const Range &c, const GeneralArrayStorage<N> & = GeneralArrayStorage<N>()) { static_assert(N == 3, ""); init({a.first(), b.first(), c.first()}, {a.last(), b.last(), c.last()}); }
    explicit Array(const vint &a) { static_assert(N == 1, ""); init({0}, {a - 1}); }
    Array(const vint &a, const vint &b) { static_assert(N == 2, ""); init({0, 0}, {a - 1, b - 1}); }
    Array(const vint &a, const vint &b, const vint &c) { static_assert(N == 3, ""); init({0, 0, 0}, {a - 1, b - 1, c - 1}); }
    explicit Array(const TinyVector<vint, N> &ext) { std::vector<vint> l, h; for (int d = 0; d < N; ++d) { l.push_back(0); h.push_back(ext[d] - 1); } init(l, h); }
    Array(const RectDomain<N> &r) { std::vector<vint> l, h; for (int d = 0; d < N; ++d) { l.push_back(r.lbound(d)); h.push_back(r.ubound(d)); } init(l, h); }
    Array(const vdata &p, const TinyVector<vint, N> &ext, preexistingMemoryPolicy, const GeneralArrayStorage<N> & = GeneralArrayStorage<N>())
    {
      v = p.v; for (int d = 0; d < N; ++d) { vint l = v.lb[d]; for (size_t s = 0; s < v.vd.size(); ++s) if (v.vd[s] == d) v.off[s] = v.off[s] + l; v.lb[d] = 0; sym::oblige_shape(v.ub[d] - l + 1, ext[d], "array over existing data"); v.ub[d] = ext[d] - 1; }
    }
    template <class E, std::enable_if_t<std::is_same<E, vexpr<N>>::value, int> = 0> Array(const E &e)
    { std::vector<vint> l, h; for (int d = 0; d < N; ++d) { l.push_back(0); h.push_back(e.ext[d] - 1); } init(l, h); *this = e; }

    // geometry
    vint lbound(int d) const { return v.lb[d]; } vint ubound(int d) const { return v.ub[d]; } vint extent(int d) const { return v.ub[d] - v.lb[d] + 1; }
    vint base(int d) const { return v.lb[d]; } vint rows() const { return extent(0); } vint cols() const { return extent(1); } vint depth() const { return extent(2); } vint length(int d) const { return extent(d); }
    TinyVector<vint, N> lbound() const { TinyVector<vint, N> r; for (int d = 0; d < N; ++d) r[d] = v.lb[d]; return r; }
    TinyVector<vint, N> ubound() const { TinyVector<vint, N> r; for (int d = 0; d < N; ++d) r[d] = v.ub[d]; return r; }
    TinyVector<vint, N> base() const { return lbound(); }
    TinyVector<vint, N> shape() const { TinyVector<vint, N> r; for (int d = 0; d < N; ++d) r[d] = extent(d); return r; }
    TinyVector<vint, N> extent() const { return shape(); }
    RectDomain<N> domain() const { return RectDomain<N>(lbound(), ubound()); }
    vint numElements() const { vint r = 1; for (int d = 0; d < N; ++d) r = r * extent(d); return r; } vint size() const { return numElements(); }
    static int rank() { return N; } static int dimensions() { return N; }
    vdata dataFirst() const { return vdata{v}; } vdata data() const { return vdata{v}; } vdata dataZero() const { return vdata{v}; }
    TinyVector<vint, N> ordering() const { TinyVector<vint, N> r; for (int d = 0; d < N; ++d) r[d] = N - 1 - d; return r; } vint ordering(int d) const { return N - 1 - d; }
    bool isStorageContiguous() const { return true; }
    void reference(const Array &o) { v = o.v; } void free() { v = View(); }
    Array copy() const { std::vector<vint> l(v.lb), h(v.ub); Array r; r.init(l, h); r = *this; return r; }
    void reindexSelf(const TinyVector<vint, N> &b) { for (int d = 0; d < N; ++d) { vint sh = b[d] - v.lb[d]; for (size_t s = 0; s < v.vd.size(); ++s) if (v.vd[s] == d) v.off[s] = v.off[s] - sh; v.lb[d] = b[d]; v.ub[d] = v.ub[d] + sh; } }
    Array reindex(const TinyVector<vint, N> &b) const { Array r(*this); r.reindexSelf(b); return r; }
    void resize(const TinyVector<vint, N> &e) { if (v.st) { bool same = true; for (int d = 0; d < N; ++d) if (!sym::decide(sym::eq0(v.ub[d] - v.lb[d] + 1 - e[d]))) { same = false; break; } if (same) return; } std::vector<vint> l(N, vint(0)), h; if (v.lb.size()) l = v.lb; for (int d = 0; d < N; ++d) h.push_back(l[d] + e[d] - 1); init(l, h); }

    // element access
    private:
    template <class... I> struct allint { static const bool v = ((std::is_same<I, vint>::value || std::is_integral<I>::value) && ...); };
    template <class... I> struct anyrng { static const bool v = ((std::is_same<I, Range>::value) || ...); static const int cnt = (is_rng<I>::v + ... + 0); };
    public:
    template <class... I, std::enable_if_t<sizeof...(I) == N && allint<I...>::v, int> = 0> vref operator()(const I &... i) { std::vector<vint> x{vint(i)...}; chk(x); return vref(v.st, v.sidx(x)); }
    template <class... I, std::enable_if_t<sizeof...(I) == N && allint<I...>::v, int> = 0> vreal operator()(const I &... i) const { std::vector<vint> x{vint(i)...}; chk(x); return vreal(sym::read(v.st, v.sidx(x))); }
    vref operator()(const TinyVector<vint, N> &i) { std::vector<vint> x(i.begin(), i.end()); chk(x); return vref(v.st, v.sidx(x)); }
    vreal operator()(const TinyVector<vint, N> &i) const { std::vector<vint> x(i.begin(), i.end()); chk(x); return vreal(sym::read(v.st, v.sidx(x))); }
    Array operator()(const RectDomain<N> &r) const { Array q(*this); q.v.lb.clear(); q.v.ub.clear(); int nd = 0; for (int d = 0; d < N; ++d) one(q.v, d, r[d], nd); return q; }
    template <class... I, std::enable_if_t<sizeof...(I) == N && anyrng<I...>::v, int> = 0>
    Array<T, anyrng<I...>::cnt> operator()(const I &... i) const
    {
      Array<T, anyrng<I...>::cnt> q; q.v = v; q.v.lb.clear(); q.v.ub.clear(); int nd = 0, d = 0; (one(q.v, d++, i, nd), ...); return q;
    }
    // assignment
    private:
    Array &assign(const vexpr<N> &e)
    {
      std::vector<Param> ps; std::vector<vint> vi; Off<N> o;
      if (e.sized) for (int d = 0; d < N; ++d) sym::oblige_shape(extent(d), e.ext[d], "array assignment");
      for (int d = 0; d < N; ++d)
      {
        // bound symbol ranges over storage coordinates of that dimension
        int sd = 0; for (size_t s = 0; s < v.vd.size(); ++s) if (v.vd[s] == d) sd = s;
        int s = sym::fresh_sym(std::string(1, "xyzw"[sd])); ps.push_back({s, v.lb[d] + v.off[sd], v.ub[d] + v.off[sd]});
        vi.push_back(sym::sym_lin(s) - v.off[sd]); o[d] = vi[d] - v.lb[d];
      }
      sym::assign_region(v.st, ps, v.sidx(vi), [&] { return e.f(o); });
      return *this;
    }
    public:
    Array &operator=(const Array &o) { return assign(toex(o)); }
    Array &operator=(const vexpr<N> &e) { return assign(e); }
    Array &operator=(const vreal &s) { return assign(conv_<N, vreal>::go(s)); }
    template <class A, sym::isar<A> = 0> Array &operator=(const A &a) { return *this = sym::tor(a); }
#define BZS_AS(op, o) template <class A, std::enable_if_t<arr_tr<A>::is || is_scal<A>::value, int> = 0> Array &operator op(const A &a) { return assign(*this o a); }
    BZS_AS(+=, +) BZS_AS(-=, -) BZS_AS(*=, *) BZS_AS(/=, /)
#undef BZS_AS
  };
  template <int N> vexpr<N> toex(const Array<vreal, N> &a)
  {
    vexpr<N> e; View v = a.v; for (int d = 0; d < N; ++d) e.ext[d] = v.ub[d] - v.lb[d] + 1;
    e.f = [v](const Off<N> &o) { std::vector<vint> i; for (int d = 0; d < N; ++d) i.push_back(v.lb[d] + o[d]); return sym::read(v.st, v.sidx(i)); };
    return e;
  }
  template <class T, int N> std::ostream &operator<<(std::ostream &o, const Array<T, N> &) { return o << "<array>"; }
} // namespace blitz
namespace std
{
  template <class I> struct common_type<blitz::vref, I> { using type = sym::vreal; };
  template <class I> struct common_type<I, blitz::vref> { using type = sym::vreal; };
  template <> struct common_type<blitz::vref, blitz::vref> { using type = sym::vreal; };
  template <> struct common_type<blitz::vref, sym::vreal> { using type = sym::vreal; };
  template <> struct common_type<sym::vreal, blitz::vref> { using type = sym::vreal; };
}
