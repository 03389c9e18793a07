// Symbolic verification-condition generator: core types.
// vint  : integer that is a linear form over symbolic integers (control flow on it forks / summarises loops)
// vreal : term over exact reals
// Storage/Ver/Entry : array store as an append-only log of closed-form region writes
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <array>
#include <memory>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <iosfwd>
#include <climits>
#include <cmath>
#include <limits>
#include <unordered_map>

namespace sym
{
  struct LinNode { std::vector<std::pair<int, long>> t; int id; };
  struct Node;
  struct Ver;
  struct Storage;

  struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
  struct Restart {};        // path must be re-executed (new loop head discovered)
  struct Infeasible {};     // path assumption contradictory
  struct PathEnd {};        // path deliberately ended by the harness

  struct vreal; struct vbool; struct vint;
  template <class T> using isint = std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value, int>;

  // ---------------------------------------------------------------- integers
  struct vint
  {
    long c; const LinNode *t;
    constexpr vint() : c(0), t(nullptr) {}
    template <class I, isint<I> = 0> constexpr vint(I i) : c(static_cast<long>(i)), t(nullptr) {}
    constexpr vint(long c_, const LinNode *t_) : c(c_), t(t_) {}
    constexpr vint(const vint &o) : c(o.c), t(o.t) {}
    explicit vint(double d);
    vint &operator=(const vint &o);
    template <class I, isint<I> = 0> vint &operator=(I i) { return *this = vint(i); }
    [[noreturn]] static void not_concrete(const vint &);
    template <class I, std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value && !std::is_same<I, int>::value, int> = 0> constexpr operator I() const { if (t) not_concrete(*this); return static_cast<I>(c); }
    template <class B, std::enable_if_t<std::is_same<B, bool>::value, int> = 0> constexpr operator B() const { return t ? truth() : c != 0; }
    bool truth() const;
    explicit constexpr operator int() const { if (t) not_concrete(*this); return static_cast<int>(c); } // concrete only, otherwise Unsupported
    bool concrete() const { return t == nullptr; }
    vint &operator+=(const vint &o); vint &operator-=(const vint &o);
    vint &operator*=(const vint &o); vint &operator/=(const vint &o);
    vint &operator+=(const vreal &o);
    vint &operator++(); vint operator++(int); vint &operator--(); vint operator--(int);
    vint operator-() const; vint operator+() const { return *this; }
  };
  vint i_add(const vint &, const vint &, long mult = 1);
  vint i_mul(const vint &, const vint &);
  vint i_div(const vint &, const vint &);
  vint i_mod(const vint &, const vint &);
  void mul_nonneg(const vint &, const vint &);
  // a 32-bit unsigned counter: keeps the value modulo 2^32
  struct u32 { vint v; u32(const vint &x) : v(i_mod(x, vint(4294967296L))) {} operator vint() const { return v; } };
  enum Cmp { LT, LE, GT, GE, EQ, NE };
  bool i_cmp(const vint &a, const vint &b, Cmp op, void *site, const vint *pa, const vint *pb);
  constexpr vint operator+(const vint &a, const vint &b) { if (__builtin_is_constant_evaluated()) return vint(a.c + b.c); return i_add(a, b); }
  constexpr vint operator-(const vint &a, const vint &b) { if (__builtin_is_constant_evaluated()) return vint(a.c - b.c); return i_add(a, b, -1); }
  constexpr vint operator*(const vint &a, const vint &b) { if (__builtin_is_constant_evaluated()) return vint(a.c * b.c); return i_mul(a, b); }
  constexpr vint operator/(const vint &a, const vint &b) { if (__builtin_is_constant_evaluated()) return vint(a.c / b.c); return i_div(a, b); }
  constexpr vint operator%(const vint &a, const vint &b) { if (__builtin_is_constant_evaluated()) return vint(a.c % b.c); return i_mod(a, b); }
  inline vint operator<<(const vint &a, const vint &b) { return vint(static_cast<long>(a) << static_cast<long>(b)); }
  inline vint operator>>(const vint &a, const vint &b) { return vint(static_cast<long>(a) >> static_cast<long>(b)); }
  inline vint operator&(const vint &a, const vint &b) { return vint(static_cast<long>(a) & static_cast<long>(b)); }
#define SYM_IOP(op) \
  template <class I, isint<I> = 0> constexpr vint operator op(const vint &a, I b) { return a op vint(b); } \
  template <class I, isint<I> = 0> constexpr vint operator op(I a, const vint &b) { return vint(a) op b; }
  SYM_IOP(+) SYM_IOP(-) SYM_IOP(*) SYM_IOP(/)
  // int % size_t is an unsigned remainder in C++ (matters for negative left operands)
  template <class I, isint<I> = 0> constexpr vint operator %(const vint &a, I b) { if constexpr (std::is_unsigned<I>::value && sizeof(I) == 8) { if (!a.t && a.c < 0) return vint(static_cast<long>(static_cast<unsigned long>(a.c) % static_cast<unsigned long>(b))); } return a % vint(b); }
  template <class I, isint<I> = 0> constexpr vint operator %(I a, const vint &b) { return vint(a) % b; }
  SYM_IOP(<<) SYM_IOP(>>) SYM_IOP(&)
#undef SYM_IOP
#define SYM_ICMP(op, O) \
  __attribute__((noinline)) inline constexpr bool operator op(const vint &a, const vint &b) { if (__builtin_is_constant_evaluated()) return a.c op b.c; return i_cmp(a, b, O, __builtin_return_address(0), &a, &b); } \
  template <class I, isint<I> = 0> __attribute__((noinline)) constexpr bool operator op(const vint &a, I b) { if (__builtin_is_constant_evaluated()) return a.c op static_cast<long>(b); return i_cmp(a, vint(b), O, __builtin_return_address(0), &a, nullptr); } \
  template <class I, isint<I> = 0> __attribute__((noinline)) constexpr bool operator op(I a, const vint &b) { if (__builtin_is_constant_evaluated()) return static_cast<long>(a) op b.c; return i_cmp(vint(a), b, O, __builtin_return_address(0), nullptr, &b); }
  SYM_ICMP(<, LT) SYM_ICMP(<=, LE) SYM_ICMP(>, GT) SYM_ICMP(>=, GE) SYM_ICMP(==, EQ) SYM_ICMP(!=, NE)
#undef SYM_ICMP
  template <class F, std::enable_if_t<std::is_floating_point<F>::value, int> = 0> inline F operator/(F a, const vint &b) { return a / int(b); }
  inline bool operator==(const u32 &a, const vint &b) { return a.v == b; } inline bool operator!=(const u32 &a, const vint &b) { return a.v != b; }
  std::ostream &operator<<(std::ostream &, const vint &);
  std::string str(const vint &);

  struct Cond   // integer atom: L >= 0 or L == 0 (or negations thereof), or a real atom
  {
    vint L; bool eq = false; bool neg = false;
    Node *real = nullptr;     // when set: boolean node
  };
  inline Cond ge0(const vint &l) { Cond c; c.L = l; return c; }
  inline Cond eq0(const vint &l) { Cond c; c.L = l; c.eq = true; return c; }
  Cond cnot(Cond);

  // ---------------------------------------------------------------- reals
  enum Kind { K_CONST, K_APP, K_READ, K_ADD, K_MUL, K_NEG, K_DIV, K_ABS, K_MIN, K_MAX, K_ITE, K_FUN, K_ITOF,
              K_SUM, K_RMAX, K_RMIN, K_POISON, K_LT, K_LE, K_EQ, K_AND, K_OR, K_NOT, K_BCOND };

  struct vreal
  {
    Node *n; unsigned stamp;
    vreal();
    vreal(Node *n_);
    template <class A, std::enable_if_t<std::is_arithmetic<A>::value, int> = 0> vreal(A a) : vreal(mk(static_cast<long double>(a), std::is_integral<A>::value)) {}
    vreal(const vint &);
    vreal(const vreal &);
    vreal &operator=(const vreal &);
    static Node *mk(long double, bool integral);
    explicit operator double() const;
    explicit operator float() const { return static_cast<float>(static_cast<double>(*this)); }
    explicit operator int() const { return static_cast<int>(static_cast<double>(*this)); }
    explicit operator bool() const;
    vreal &operator+=(const vreal &o); vreal &operator-=(const vreal &o); vreal &operator*=(const vreal &o); vreal &operator/=(const vreal &o);
    vreal operator-() const; vreal operator+() const { return *this; }
  };
  struct vbool
  {
    Node *n;
    operator bool() const;   // forks
  };
  vreal r_add(const vreal &, const vreal &); vreal r_sub(const vreal &, const vreal &);
  vreal r_mul(const vreal &, const vreal &); vreal r_div(const vreal &, const vreal &);
  vbool r_lt(const vreal &, const vreal &); vbool r_le(const vreal &, const vreal &); vbool r_eq(const vreal &, const vreal &);
  vbool r_not(const vbool &); vbool r_and(const vbool &, const vbool &); vbool r_or(const vbool &, const vbool &);
  vreal r_abs(const vreal &), r_min(const vreal &, const vreal &), r_max(const vreal &, const vreal &);
  vreal r_ite(const vbool &, const vreal &, const vreal &);
  vreal r_fun(const std::string &, std::vector<vreal>);
  template <class A> using isar = std::enable_if_t<std::is_arithmetic<A>::value || std::is_enum<A>::value || std::is_same<A, vint>::value, int>;
  inline const vreal &tor(const vreal &a) { return a; }
  template <class A, isar<A> = 0> inline vreal tor(const A &a) { if constexpr (std::is_enum<A>::value) return vreal(static_cast<long>(a)); else return vreal(a); }
#define SYM_ROP(op, f) \
  inline vreal operator op(const vreal &a, const vreal &b) { return f(a, b); } \
  template <class A, isar<A> = 0> inline vreal operator op(const vreal &a, const A &b) { return f(a, tor(b)); } \
  template <class A, isar<A> = 0> inline vreal operator op(const A &a, const vreal &b) { return f(tor(a), b); }
  SYM_ROP(+, r_add) SYM_ROP(-, r_sub) SYM_ROP(*, r_mul) SYM_ROP(/, r_div)
#undef SYM_ROP
#define SYM_RCMP(op, e) \
  inline vbool operator op(const vreal &a, const vreal &b) { return e; } \
  template <class A, isar<A> = 0> inline vbool operator op(const vreal &a, const A &b_) { vreal b = tor(b_); return e; } \
  template <class A, isar<A> = 0> inline vbool operator op(const A &a_, const vreal &b) { vreal a = tor(a_); return e; }
  SYM_RCMP(<, r_lt(a, b)) SYM_RCMP(<=, r_le(a, b)) SYM_RCMP(>, r_lt(b, a)) SYM_RCMP(>=, r_le(b, a))
  SYM_RCMP(==, r_eq(a, b)) SYM_RCMP(!=, r_not(r_eq(a, b)))
#undef SYM_RCMP
  inline vbool operator!(const vbool &a) { return r_not(a); }
  std::ostream &operator<<(std::ostream &, const vreal &);
  std::string str(const vreal &);
  inline vreal abs(const vreal &a) { return r_abs(a); }
  inline vreal fabs(const vreal &a) { return r_abs(a); }
  inline vreal sqrt(const vreal &a) { return r_fun("sqrt", {a}); }
  inline vreal exp(const vreal &a) { return r_fun("exp", {a}); }
  inline vreal log(const vreal &a) { return r_fun("log", {a}); }
  inline vreal sin(const vreal &a) { return r_fun("sin", {a}); }
  inline vreal cos(const vreal &a) { return r_fun("cos", {a}); }
  inline vreal tanh(const vreal &a) { return r_fun("tanh", {a}); }
  inline vreal cbrt(const vreal &a) { return r_fun("cbrt", {a}); }
  inline vreal ceil(const vreal &a) { return r_fun("ceil", {a}); }
  inline vreal floor(const vreal &a) { return r_fun("floor", {a}); }
  vreal r_pow(const vreal &, const vreal &);
  template <class A> inline auto pow(const vreal &a, const A &b) -> std::enable_if_t<std::is_arithmetic<A>::value || std::is_same<A, vreal>::value || std::is_same<A, vint>::value, vreal> { return r_pow(a, tor(b)); }
  inline vint pow(const vint &a, int n) { vint r = 1; for (int i = 0; i < n; ++i) r = r * a; return r; }
  inline vint abs(const vint &a) { return i_cmp(a, vint(0), LT, nullptr, nullptr, nullptr) ? -a : a; }
  inline vreal min(const vreal &a, const vreal &b) { return r_min(a, b); }
  inline vreal max(const vreal &a, const vreal &b) { return r_max(a, b); }
  inline vint min(const vint &a, const vint &b) { return i_cmp(b, a, b.t ? LT : LE, nullptr, nullptr, nullptr) ? b : a; }
  inline vint max(const vint &a, const vint &b) { return i_cmp(a, b, LT, nullptr, nullptr, nullptr) ? b : a; }
  inline void monitor(const vreal &) {}   // progress fraction in the thread name
  inline bool isfinite(const vreal &) { return true; }
  inline bool isnan(const vreal &) { return false; }

  // ---------------------------------------------------------------- array store
  constexpr int MAXD = 4;
  struct Param { int sym; vint lo, hi; };
  struct Entry
  {
    std::vector<Param> params;
    std::vector<vint> idx;          // storage index as a function of params (and of enclosing loop symbols)
    std::vector<Cond> guards;
    Node *val = nullptr;
    bool ext = false;               // formal periodic extension of earlier entries
  };
  struct Ver { Ver *parent; Entry e; int id; Storage *st; };
  struct Storage
  {
    int id; std::string name; int rank; std::vector<vint> lo, hi;
    Ver *head = nullptr; Ver *root = nullptr;
    int base = -1;                  // uninterpreted base function (>=0) or uninitialised (-1)
    unsigned stamp;
    bool scalar_cells = false;
  };
  Storage *new_storage(const std::string &name, const std::vector<vint> &lo, const std::vector<vint> &hi);
  Node *read(Storage *, const std::vector<vint> &idx);
  void write(Storage *, const std::vector<Param> &, const std::vector<vint> &idx, Node *val, bool ext = false);
  int fresh_sym(const std::string &hint);
  vint sym_lin(int s);
  inline vint fresh_int(const std::string &h) { return sym_lin(fresh_sym(h)); }
  // evaluate a generator at generic offsets; used for array-expression assignment
  void assign_region(Storage *, const std::vector<Param> &params, const std::vector<vint> &idx, const std::function<Node *()> &gen);
  void forget_sums(int);      // sums over whole arrays count as arbitrary reals: 1 each anew, 2 the same for the same sum
  Node *reduce(Kind k, const std::vector<Param> &params, const std::function<Node *()> &gen);
  void oblige_in_range(const vint &lo, const vint &hi, const vint &lb, const vint &ub, const char *what, Storage *);
  void oblige_shape(const vint &a, const vint &b, const char *what);

  // ---------------------------------------------------------------- harness-level API (see also H.hpp)
  void assume(const Cond &);
  bool decide(const Cond &);
  bool entails(const Cond &);
  void set_uniform_policy(bool);
  int base_fun(const std::string &name);
  Node *app(int base, const std::vector<vint> &idx);
  void fill_base(Storage *, const std::vector<Param> &, const std::vector<vint> &idx, const std::vector<vint> &appidx, const std::string &name);
  void declare_nonneg(const std::string &base);   // base function known >= 0
  void declare_pos(const std::string &base);      // base function known > 0
  void mark_const_fun(const std::string &base);
  vreal named_real(const std::string &name);
  void generalise(Storage *);
  void simplify_to(Storage *, const vreal &, const std::string &);
  void cut(Storage *);                            // forget the definition of the current contents (opaque)
  void ob_int(const std::string &label, const Cond &);
  void ob_ints(const std::string &label, const std::vector<Cond> &disj);
  void ob_eq(const std::string &label, const vreal &a, const vreal &b);
  void ob_le(const std::string &label, const vreal &a, const vreal &b);
  void ob_true(const std::string &label, const vbool &);
  void ob_fail(const std::string &label, const std::string &why);
  void clear_lemmas();
  void assume_real(const vbool &);
  void hint(const vbool &lemma, const std::string &label); // prove lemma, then use it
  void ob_telescopes(const std::string &label, const vreal &D, const std::vector<vint> &cell, const std::vector<vint> &lo, const std::vector<vint> &hi);
  void scope(const std::function<void()> &);
  void ob_cover(const std::string &label);
  [[noreturn]] inline void path_end() { throw PathEnd(); }
  void count_checked(const std::string &fn);
  int run_all(const std::function<void()> &, const std::string &unit);
  vreal shift(const vreal &, const vint &symbolic, long by);
  vreal subst(const vreal &, const vint &symbolic, const vint &by);
  // phases of a thread between two synchronisations: everything it read and wrote, and what it left behind
  struct Phase { size_t a0 = 0, a1 = 0; std::map<Storage *, Ver *> end; };
  struct Shared { std::string name; Storage *s, *p; bool same, scratch; };   // the array in the one-thread run and in the run with threads
  void resolve_conditions(bool);
  size_t access_count();
  void phase_end(Phase &, const std::vector<Storage *> &);
  void refill(Storage *, const std::string &name, bool constant = false);
  void check_undefined(const std::string &label, const std::vector<Shared> &, const std::vector<Phase> &);
  void compare_phase(const std::string &label, const std::vector<Shared> &, const Phase &one, const std::vector<Phase> &threads, const std::vector<std::array<vint, 2>> &owned, int dim, const std::vector<std::pair<int, int>> &pairs);
  vreal resolve(const vreal &);
  std::string dump(Node *);
  unsigned cur_stamp();
} // namespace sym

namespace std
{
  using sym::abs; using sym::fabs; using sym::sqrt; using sym::exp; using sym::log; using sym::sin; using sym::cos; using sym::tanh; using sym::cbrt; using sym::ceil; using sym::floor;
  using sym::pow; using sym::isfinite; using sym::isnan; using sym::min; using sym::max;
  inline string to_string(const sym::vint &v) { return sym::str(v); }
  template <> struct hash<sym::vint> { size_t operator()(const sym::vint &v) const { return v.c * 31 + (size_t)v.t; } };
  template <> class numeric_limits<sym::vint> { public: static const bool is_specialized = true; static sym::vint max() { return sym::vint(static_cast<long>(UINT_MAX)); } };   // concurr/: what used to be `unsigned`
  template <class I> struct common_type<sym::vreal, I> { using type = sym::vreal; };
  template <class I> struct common_type<I, sym::vreal> { using type = sym::vreal; };
  template <> struct common_type<sym::vreal, sym::vreal> { using type = sym::vreal; };
  template <> class numeric_limits<sym::vreal>
  {
    public:
    static const bool is_specialized = true;
    static sym::vreal max() { return sym::named_real("REAL_MAX"); }
    static sym::vreal min() { return sym::named_real("REAL_TINY"); }
    static sym::vreal epsilon() { return sym::named_real("REAL_EPS"); }
    static sym::vreal lowest() { return -sym::named_real("REAL_MAX"); }
    static sym::vreal infinity() { return sym::named_real("REAL_INF"); }
    static sym::vreal quiet_NaN() { return sym::vreal(); }
  };
}
#define SYM_SWITCH(...) (sym::sw(__VA_ARGS__))
namespace sym { inline long sw(const vint &v) { return static_cast<long>(v); } template <class T, std::enable_if_t<!std::is_same<T, vint>::value, int> = 0> T sw(T v) { return v; } }
using sym::vint; using sym::vreal; using sym::vbool;
namespace sym
{
  // zero-initialisation spelt out (the extraction replaces NAME{} by NAME(sym::zeros()))
  template <class T> inline void zero(T &) {} inline void zero(vreal &x) { x = 0; } template <class T, size_t N> inline void zero(std::array<T, N> &a) { for (auto &x : a) zero(x); }
  struct zeros { template <class T> operator T() const { T t{}; zero(t); return t; } };
}
