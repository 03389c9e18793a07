#include "engine.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <sys/stat.h>

namespace sym
{
  using namespace std;
  static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }

  // =============================================================== global (cross-path) state
  struct LHash { size_t operator()(const vector<pair<int, long>> &v) const { size_t h = 17; for (auto &p : v) h = h * 1000003 + p.first * 31 + p.second * 7919; return h; } };
  static unordered_map<vector<pair<int, long>>, LinNode *, LHash> lin_intern;
  struct SiteInfo { int side; long step; };
  static map<void *, SiteInfo> loop_sites;
  static vector<vector<bool>> worklist;
  static vector<Ob> obs; static map<string, long> ob_dedup;
  static map<string, long> counters;
  static string outdir, unitname;
  static int smt_count = 0;
  static long max_paths = 20000;
  static double lia_time = 0; static long lia_queries = 0;
  static map<string, int> base_ids; static vector<string> base_names; static set<string> nonneg_b, pos_b;
  static unsigned stamp_ctr = 1;

  // =============================================================== per-path state
  struct SymInfo { string name; int depth; };
  struct PCItem { Cond c; int owner; };
  struct Acc { Storage *st; vector<Param> params; vector<vint> idx; vector<Cond> guards; bool write; Node *val; };
  struct Dec { bool val; bool alt; Cond c; };
  struct Loop
  {
    bool pseudo = false; void *site = nullptr; const vint *addr = nullptr; vint start, lo, hi, cur, exitv; long step = 1; int k = -1;
    map<Storage *, Ver *> heads; vector<Dec> dec; size_t pos = 0; unsigned stamp = 0; size_t acc0 = 0, accv = 0;
    vector<pair<Storage *, Entry>> coll; size_t pc0 = 0; size_t nst = 0;
  };
  struct Hist { vint a, b; int n = 0; };
  struct RKey { Ver *v; vector<vint> ix; bool operator==(const RKey &o) const { if (v != o.v) return false; for (size_t i = 0; i < ix.size(); ++i) if (ix[i].c != o.ix[i].c || ix[i].t != o.ix[i].t) return false; return true; } };
  struct RHash { size_t operator()(const RKey &k) const { size_t h = (size_t)k.v; for (auto &i : k.ix) h = (h * 1000003) ^ (size_t)i.t ^ (i.c * 7919); return h; } };
  // memo tables layered by the number of local decisions in force
  template <class K, class H> struct Layers
  {
    vector<unordered_map<K, Node *, H>> l{1};
    Node *find(const K &k) const { for (auto it = l.rbegin(); it != l.rend(); ++it) { auto f = it->find(k); if (f != it->end()) return f->second; } return nullptr; }
    void put(const K &k, Node *n, size_t lay) { if (l.size() <= lay) l.resize(lay + 1); l[lay][k] = n; }
    void trim(size_t lay) { if (l.size() > lay) l.resize(std::max<size_t>(1, lay)); }
  };
  using MemoStack = Layers<RKey, RHash>; using MemoStack2 = Layers<Node *, std::hash<Node *>>;
  struct Path
  {
    vector<SymInfo> syms; vector<unique_ptr<Node>> arena; unordered_map<string, Node *> intern;
    vector<PCItem> pc; vector<bool> pre; size_t pos = 0; vector<Loop> loops; vector<unique_ptr<Storage>> sts; vector<unique_ptr<Ver>> vers;
    map<pair<void *, const vint *>, Hist> hist; vector<Acc> acc; map<pair<string, long>, vint> divs; map<pair<string, string>, vint> prods;
    map<int, vint> eqs; vector<vector<Param>> openp; vector<pair<Node *, bool>> rpc; map<string, bool> condval; map<int, string> atomcond; vector<pair<Node *, string>> lemmas;
    MemoStack rmemo; MemoStack2 resmemo; map<string, Node *> named;
    unordered_map<string, int> ecache; vector<Ob> obs; bool rejected = false; int nreal = 0; set<Ver *> expand; map<Node *, Poly> nfmemo;
    vector<Node *> atoms; map<string, int> atomid; vector<Poly> atompoly; vector<string> atomkey; vector<int> atomnn;
    size_t openassign = 0; vector<string> trace; bool quick_eq = false; int local = 0; unordered_map<int, vector<vint>> bnd; vector<int> bndlog; vector<size_t> bndlev; set<int> nodecide; set<Ver *> blocked; int scoped = 0; vector<pair<string, Acc>> undef;
  };
  static Path *P = nullptr;
  static z3::context *zc = nullptr; static z3::solver *zs = nullptr;
  static bool tracing2 = getenv("SYM_TRACE") && atoi(getenv("SYM_TRACE")) > 1;
  static bool tracing = getenv("SYM_TRACE") != nullptr;

  // =============================================================== linear forms
  static const LinNode *lin_mk(vector<pair<int, long>> &&v)
  {
    if (v.empty()) return nullptr;
    auto it = lin_intern.find(v);
    if (it != lin_intern.end()) return it->second;
    auto *n = new LinNode{v, (int)lin_intern.size()};
    lin_intern[v] = n; return n;
  }
  vint i_add(const vint &a, const vint &b, long m)
  {
    if (!b.t) return vint(a.c + m * b.c, a.t);
    vector<pair<int, long>> r; size_t i = 0, j = 0;
    static const vector<pair<int, long>> none;
    const auto &x = a.t ? a.t->t : none; const auto &y = b.t->t;
    while (i < x.size() || j < y.size())
    {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first) { r.push_back({y[j].first, m * y[j].second}); ++j; }
      else { long c = x[i].second + m * y[j].second; if (c) r.push_back({x[i].first, c}); ++i; ++j; }
    }
    return vint(a.c + m * b.c, lin_mk(move(r)));
  }
  static vint scale(const vint &a, long m)
  {
    if (m == 0) return vint(0);
    if (!a.t) return vint(a.c * m);
    auto v = a.t->t; for (auto &p : v) p.second *= m;
    return vint(a.c * m, lin_mk(move(v)));
  }
  string str(const vint &a)
  {
    ostringstream o; bool first = true;
    if (a.t) for (auto &p : a.t->t)
    {
      if (p.second == 1) o << (first ? "" : "+"); else if (p.second == -1) o << "-"; else o << (p.second > 0 && !first ? "+" : "") << p.second << "*";
      o << (P && p.first < (int)P->syms.size() ? P->syms[p.first].name : "s" + to_string(p.first)); first = false;
    }
    if (first) o << a.c; else if (a.c > 0) o << "+" << a.c; else if (a.c < 0) o << a.c;
    return o.str();
  }
  static string key(const vint &a) { struct { long c; int t; int z; } b{a.c, a.t ? a.t->id : -1, 0x23}; return string((char *)&b, sizeof b); }
  ostream &operator<<(ostream &o, const vint &a) { return o << str(a); }
  vint sym_lin(int s) { return vint(0, lin_mk({{s, 1}})); }
  static int lin_depth(const vint &a) { int d = 0; if (a.t) for (auto &p : a.t->t) d = std::max(d, P->syms[p.first].depth); return d; }
  static int new_sym(const string &n, int depth) { P->syms.push_back({n, depth}); return P->syms.size() - 1; }
  int fresh_sym(const string &h) { return new_sym(h, P->loops.size() + (P->openp.size() ? 1 : 0)); }
  static int fresh_param(const string &h) { return new_sym(h + to_string(P->syms.size()), P->loops.size() + 1); }
  vint::vint(double d) : c((long)d), t(nullptr) {}
  static vint as_int(const vreal &);
  bool vint::truth() const { return decide(cnot(eq0(*this))); }
  void vint::not_concrete(const vint &v) { throw Unsupported("symbolic integer " + str(v) + " used where a concrete int is required"); }
  vint &vint::operator=(const vint &o) { c = o.c; t = o.t; return *this; }
  vint &vint::operator+=(const vint &o) { return *this = *this + o; }
  vint &vint::operator-=(const vint &o) { return *this = *this - o; }
  vint &vint::operator*=(const vint &o) { return *this = *this * o; }
  vint &vint::operator/=(const vint &o) { return *this = *this / o; }
  vint &vint::operator+=(const vreal &o) { return *this = *this + as_int(o); }
  vint &vint::operator++() { return *this = *this + vint(1); }
  vint vint::operator++(int) { vint r = *this; ++*this; return r; }
  vint &vint::operator--() { return *this = *this - vint(1); }
  vint vint::operator--(int) { vint r = *this; --*this; return r; }
  vint vint::operator-() const { return scale(*this, -1); }

  // =============================================================== z3 LIA back end
  static z3::expr zsym(int s) { return zc->int_const(("s" + to_string(s)).c_str()); }
  static z3::expr zlin(const vint &a)
  {
    z3::expr e = zc->int_val((int64_t)a.c);
    if (a.t) for (auto &p : a.t->t) { z3::expr x = zsym(p.first); e = p.second == 1 ? e + x : e + zc->int_val((int64_t)p.second) * x; }
    return e;
  }
  static z3::expr zcond(const Cond &c)
  {
    z3::expr e = c.eq ? (zlin(c.L) == 0) : (zlin(c.L) >= 0);
    return c.neg ? !e : e;
  }
  Cond cnot(Cond c)
  {
    if (c.real || c.eq) { c.neg = !c.neg; return c; }
    if (c.neg) { c.neg = false; return c; }
    c.L = -c.L - vint(1); return c; // !(L>=0)  <=>  -L-1>=0
  }
  static string ckey(const Cond &c) { return c.real ? "r" + to_string(c.real->id) + (c.neg ? "!" : "") : (c.eq ? "=" : ">") + string(c.neg ? "!" : "") + key(c.L); }
  static int const_truth(const Cond &c)
  {
    if (c.real) return -1;
    if (c.L.t) 
    {
      return -1;
    }
    bool v = c.eq ? c.L.c == 0 : c.L.c >= 0; return (c.neg ? !v : v) ? 1 : 0;
  }
  static z3::check_result zcheck(const z3::expr &e)
  {
    double t0 = now(); zs->push(); zs->add(e); auto r = zs->check(); zs->pop(); lia_time += now() - t0; ++lia_queries; return r;
  }
  static void add_bnd(const Cond &c)
  {
    if (c.real || !c.L.t || (c.eq && c.neg)) return; vint L = c.neg ? -c.L - vint(1) : c.L;
    for (auto &p : L.t->t) { P->bnd[p.first].push_back(L); if (c.eq) P->bnd[p.first].push_back(-L); P->bndlog.push_back(p.first); if (c.eq) P->bndlog.push_back(p.first); }
  }
  static void zpush() { zs->push(); P->bndlev.push_back(P->bndlog.size()); }
  static void zpop() { zs->pop(); size_t n = P->bndlev.back(); P->bndlev.pop_back(); while (P->bndlog.size() > n) { P->bnd[P->bndlog.back()].pop_back(); P->bndlog.pop_back(); } }
  static void add_ge0(const vint &L) { zs->add(zlin(L) >= 0); Cond c; c.L = L; add_bnd(c); }
  static void pc_add(const Cond &c, int owner)
  {
    P->pc.push_back({c, owner});
    if (c.real) { P->rpc.push_back({c.real, !c.neg}); return; }
    zs->add(zcond(c)); P->ecache.clear(); add_bnd(c);
    if (c.eq && !c.neg && c.L.t && (P->loops.empty() || (P->local && P->local == (int)P->loops.size())))
    {
      vint L = subst_lin(c.L, P->eqs);
      if (L.t) for (auto it = L.t->t.rbegin(); it != L.t->t.rend(); ++it) if (it->second == 1 || it->second == -1)
      {
        int s = it->first; vint rhs = scale(i_add(L, scale(sym_lin(s), it->second), -1), -it->second);
        map<int, vint> m{{s, rhs}};
        for (auto &q : P->eqs) q.second = subst_lin(q.second, m);
        P->eqs[s] = rhs; P->nfmemo.clear(); break;
      }
    }
  }
  // quick sound prover: substitute known bounds (a*s + rest >= 0 facts of the path condition) a few steps deep
  static long quick_hits = 0;
  static bool qprove(const vint &L, int depth, int &fuel)
  {
    if (!L.t) return L.c >= 0;
    if (depth == 0 || --fuel < 0) return false;
    // newest symbol first: eliminate it with a bound
    for (auto it = L.t->t.rbegin(); it != L.t->t.rend(); ++it)
    {
      auto b = P->bnd.find(it->first); if (b == P->bnd.end()) continue;
      for (auto &f : b->second)   // f >= 0 with coefficient k on the symbol; same sign as ours and divides it
      {
        long k = 0; for (auto &q : f.t->t) if (q.first == it->first) k = q.second;
        if (k == 0 || (k > 0) != (it->second > 0) || it->second % k) continue;
        if (qprove(i_add(L, f, -(it->second / k)), depth - 1, fuel)) return true;
      }
    }
    return false;
  }
  static int quick(const Cond &c)
  {
    if (c.eq) return -1; vint L = c.neg ? -c.L - vint(1) : c.L; int fuel = 24;
    if (qprove(L, 3, fuel)) return 1; return -1;
  }
  bool entails(const Cond &c)
  {
    int t = const_truth(c); if (t >= 0) return t;
    if (c.real) { for (auto &r : P->rpc) if (r.first == c.real) return r.second != c.neg; return false; }
    { int q = quick(c); if (q >= 0) { ++quick_hits; return q; } }
    string k = ckey(c); auto it = P->ecache.find(k); if (it != P->ecache.end()) return it->second;
    auto r = zcheck(!zcond(c));
    bool v = r == z3::unsat; P->ecache[k] = v; return v;
  }
  static bool node_const_bool(Node *, bool &);
  static int node_depth(Node *);
  static int cond_depth(const Cond &c) { return c.real ? node_depth(c.real) : lin_depth(c.L); }
  static void local_or_global(const Cond &c, int depth, bool &val, bool inloop)
  {
    if (inloop)
    {
      Loop &L = P->loops[depth - 1];
      if (L.pos < L.dec.size()) val = L.dec[L.pos].val;
      else { val = true; L.dec.push_back({true, true, c}); }
      ++L.pos;
    }
    else
    {
      if (P->pos < P->pre.size()) val = P->pre[P->pos];
      else
      {
        val = true; auto alt = P->pre; alt.push_back(false); worklist.push_back(alt); P->pre.push_back(true);
      }
      ++P->pos;
    }
  }
  struct NoDecide {};
  static Ver *cur_ver = nullptr;
  static bool mentions(const Cond &c, const set<int> &ss)
  {
    if (c.real) { bool f = false; set<Node *> seen; function<void(Node *)> go = [&](Node *x) { if (f || !seen.insert(x).second) return; for (auto &i : x->idx) if (i.t) for (auto &q : i.t->t) if (ss.count(q.first)) f = true; for (auto k : x->ch) go(k); }; go(c.real); return f; }
    if (c.L.t) for (auto &q : c.L.t->t) if (ss.count(q.first)) return true; return false;
  }
  // linear real arithmetic over the real path conditions: 1 = follows, 0 = its negation follows, -1 = open
  static bool lra_small(Node *n, int &budget) { if (--budget < 0) return false; for (auto c : n->ch) if (!lra_small(c, budget)) return false; return true; }
  static z3::expr lra_term(Node *n, z3::expr_vector &facts)
  {
    auto fresh = [&](const char *p) { return zc->real_const((p + to_string(n->id)).c_str()); };
    switch (n->k)
    {
      case K_CONST: return zc->real_val(n->val.get_str().c_str());
      case K_ADD: return lra_term(n->ch[0], facts) + lra_term(n->ch[1], facts);
      case K_NEG: return -lra_term(n->ch[0], facts);
      case K_MUL: if (n->ch[0]->k == K_CONST || n->ch[1]->k == K_CONST) return lra_term(n->ch[0], facts) * lra_term(n->ch[1], facts); return fresh("r");
      case K_ITOF: return z3::to_real(zlin(n->idx[0]));
      case K_APP: { auto e = fresh("r"); const string &b = base_names[n->aux]; if (pos_b.count(b)) facts.push_back(e > 0); else if (nonneg_b.count(b)) facts.push_back(e >= 0); return e; }
      default: return fresh("r");
    }
  }
  static bool lra_cond(Node *n, z3::expr_vector &facts, z3::expr &out)
  {
    if (n->k == K_LT) { out = lra_term(n->ch[0], facts) < lra_term(n->ch[1], facts); return true; }
    if (n->k == K_LE) { out = lra_term(n->ch[0], facts) <= lra_term(n->ch[1], facts); return true; }
    if (n->k == K_EQ) { out = lra_term(n->ch[0], facts) == lra_term(n->ch[1], facts); return true; }
    return false;
  }
  static int lra_known(const Cond &c)
  {
    if (P->rpc.size() > 40) return -1;
    int budget = 60; if (!lra_small(c.real, budget)) return -1;
    z3::expr_vector facts(*zc); z3::expr g(*zc); if (!lra_cond(c.real, facts, g)) return -1;
    if (c.neg) g = !g;
    for (auto &r : P->rpc) { int b = 60; if (!lra_small(r.first, b)) continue; z3::expr e(*zc); if (lra_cond(r.first, facts, e)) facts.push_back(r.second ? e : !e); }
    double t0 = now(); z3::solver q(*zc, z3::solver::simple()); for (unsigned i = 0; i < facts.size(); ++i) q.add(facts[i]);
    int res = -1; q.push(); q.add(!g); if (q.check() == z3::unsat) res = 1; q.pop();
    if (res < 0) { q.add(g); if (q.check() == z3::unsat) res = 0; }
    lia_time += now() - t0; lia_queries += 2; return res;
  }
  bool decide(const Cond &c)
  {
    int t = const_truth(c); if (t >= 0) return t;
    if (c.real)
    {
      { int k = lra_known(c); if (k >= 0) return k; }
      bool b; if (node_const_bool(c.real, b)) return b != c.neg;
      for (auto &r : P->rpc) if (r.first == c.real) return r.second != c.neg;
    }
    else
    {
      if (entails(c)) return true;
      if (entails(cnot(c))) return false;
    }
    if (!P->nodecide.empty() && mentions(c, P->nodecide)) throw NoDecide();
    int d = cond_depth(c); if (P->local) d = std::max(d, P->local); bool inl = d > 0 && d <= (int)P->loops.size();
    if (d > (int)P->loops.size()) throw Unsupported("decision on an out-of-scope bound symbol: " + str(c.L));
    bool v; local_or_global(c, d, v, inl);
    if (tracing2) cerr << "  decide " << (c.real ? "real" : str(c.L)) << (c.eq ? "==0" : ">=0") << (c.neg ? " (neg)" : "") << " -> " << v << (inl ? " [loop]" : "") << "\n";
    Cond a = v ? c : cnot(c);
    pc_add(a, inl ? d : 0);
    return v;
  }
  void assume(const Cond &c) { int t = const_truth(c); if (t == 1) return; if (t == 0) throw Infeasible(); pc_add(c, P->scoped ? P->local : 0); if (zs->check() == z3::unsat) throw Infeasible(); }

  // =============================================================== loops
  static void collect_variant(Loop &L)
  {
    vector<Cond> g; for (auto &d : L.dec) g.push_back(d.val ? d.c : cnot(d.c));
    for (auto &pr : L.heads)
    {
      Storage *s = pr.first; vector<Ver *> ch;
      for (Ver *v = s->head; v != pr.second; v = v->parent) ch.push_back(v);
      for (auto it = ch.rbegin(); it != ch.rend(); ++it) { Entry e = (*it)->e; e.guards.insert(e.guards.end(), g.begin(), g.end()); L.coll.push_back({s, e}); }
      s->head = pr.second;
    }
    for (size_t i = L.accv; i < P->acc.size(); ++i) P->acc[i].guards.insert(P->acc[i].guards.end(), g.begin(), g.end());
    L.accv = P->acc.size();
  }
  static void pop_to(Loop &L)   // undo z3 level, keep global facts
  {
    vector<PCItem> keep; int depth = 0; for (size_t i = 0; i < P->loops.size(); ++i) if (&P->loops[i] == &L) depth = i + 1;
    for (size_t i = L.pc0; i < P->pc.size(); ++i) if (P->pc[i].owner < depth) keep.push_back(P->pc[i]);
    P->pc.resize(L.pc0);
    // real path conditions
    vector<pair<Node *, bool>> rk; for (auto &p : P->pc) if (p.c.real) rk.push_back({p.c.real, !p.c.neg});
    P->rpc = rk;
    zpop(); P->ecache.clear();
    for (auto &k : keep) pc_add(k.c, k.owner);
  }
  static bool next_variant(Loop &L)
  {
    while (L.dec.size() && !(L.dec.back().alt && L.dec.back().val)) L.dec.pop_back();
    if (L.dec.empty()) return false;
    L.dec.back().val = false; L.dec.back().alt = false; L.pos = 0; return true;
  }
  static void open_level(Loop &L)
  {
    L.pc0 = P->pc.size(); zpush(); P->ecache.clear();
    for (auto &s : P->sts) L.heads[s.get()] = s->head;
    L.acc0 = L.accv = P->acc.size(); L.stamp = ++stamp_ctr; L.nst = P->sts.size();
  }
  static vector<Param> rename_params(const vector<Param> &ps, map<int, vint> &m)
  {
    vector<Param> r; for (auto &p : ps) { int s = new_sym(P->syms[p.sym].name + "'", P->syms[p.sym].depth); Param q{s, subst_lin(p.lo, m), subst_lin(p.hi, m)}; m[p.sym] = sym_lin(s); r.push_back(q); }
    return r;
  }
  static z3::expr zparams(const vector<Param> &ps)
  {
    z3::expr e = zc->bool_val(true);
    for (auto &p : ps) e = e && zlin(sym_lin(p.sym) - p.lo) >= 0 && zlin(p.hi - sym_lin(p.sym)) >= 0;
    return e;
  }
  static z3::expr zguards(const vector<Cond> &g, const map<int, vint> &m)
  {
    z3::expr e = zc->bool_val(true);
    for (auto &c : g) if (!c.real) { Cond d = c; d.L = subst_lin(c.L, m); e = e && zcond(d); }
    return e;
  }
  // may the two accesses touch the same cell?  (second one with all bound params and extra syms renamed)
  static bool may_overlap(const Acc &a, const Acc &b, map<int, vint> m, const z3::expr &extra)
  {
    auto pb = rename_params(b.params, m);
    z3::expr e = zparams(a.params) && zparams(pb) && zguards(a.guards, {}) && zguards(b.guards, m) && extra;
    for (size_t d = 0; d < a.idx.size(); ++d) e = e && zlin(a.idx[d] - subst_lin(b.idx[d], m)) == 0;
    return zcheck(e) != z3::unsat;
  }
  static void close_loop(Loop &Lr, bool force_check)
  {
    Loop L = move(Lr);
    pop_to(Lr);
    P->loops.pop_back();
    Param kp{L.k, L.lo, L.hi};
    int k2 = new_sym(P->syms[L.k].name + "'", P->syms[L.k].depth);
    // independence of iterations
    for (size_t i = L.acc0; i < P->acc.size(); ++i) if (P->acc[i].write)
      for (size_t j = L.acc0; j < P->acc.size(); ++j)
      {
        auto &w = P->acc[i]; auto &a = P->acc[j];
        if (w.st != a.st || (a.write && j < i)) continue;
        if ((size_t)w.st->id >= L.nst) continue;
        map<int, vint> m{{L.k, sym_lin(k2)}};
        vector<Param> kk{kp, {k2, L.lo, L.hi}};
        z3::expr ex = zparams(kk) && zsym(L.k) != zsym(k2);
        counters["loop_independence_checks"]++;
        if (may_overlap(w, a, m, ex)) throw Unsupported("loop-carried dependence on array " + w.st->name + " at index " + str(w.idx[0]) + " / " + str(a.idx[0]));
      }
    for (size_t i = L.acc0; i < P->acc.size(); ++i) { auto &a = P->acc[i]; a.params.insert(a.params.begin(), kp); }
    for (auto &c : L.coll)
    {
      Entry e = c.second; e.params.insert(e.params.begin(), kp);
      P->vers.push_back(make_unique<Ver>(Ver{c.first->head, e, (int)P->vers.size(), c.first})); c.first->head = P->vers.back().get();
    }
    counters["loops_summarised"]++;
  }
  static bool plain(const vint &D, Cmp op)
  {
    switch (op)
    {
      case LT: return decide(ge0(-D - vint(1)));
      case LE: return decide(ge0(-D));
      case GT: return decide(ge0(D - vint(1)));
      case GE: return decide(ge0(D));
      case EQ: return decide(eq0(D));
      default: return decide(cnot(eq0(D)));
    }
  }
  static int plain_peek(const vint &D, Cmp op)
  {
    Cond c; switch (op) { case LT: c = ge0(-D - vint(1)); break; case LE: c = ge0(-D); break; case GT: c = ge0(D - vint(1)); break; case GE: c = ge0(D); break; case EQ: c = eq0(D); break; default: c = cnot(eq0(D)); }
    int t = const_truth(c); if (t >= 0) return t;
    if (entails(c)) return 1; if (entails(cnot(c))) return 0; return -1;
  }
  bool i_cmp(const vint &a, const vint &b, Cmp op, void *site, const vint *pa, const vint *pb)
  {
    vint D = a - b;
    if (!P) return op == LT ? D.c < 0 : op == LE ? D.c <= 0 : op == GT ? D.c > 0 : op == GE ? D.c >= 0 : op == EQ ? D.c == 0 : D.c != 0;
    auto fl = loop_sites.find(site);
    if (fl != loop_sites.end())
    {
      const vint *p = fl->second.side == 0 ? pa : pb;
      if (p)
      {
        if (!P->loops.empty() && !P->loops.back().pseudo && P->loops.back().site == site && P->loops.back().addr == p)
        {
          Loop &L = P->loops.back();
          vint diff = *p - L.cur;
          if (!(diff.concrete() && diff.c == L.step)) throw Unsupported("irregular loop variable update");
          collect_variant(L);
          if (next_variant(L))
          {
            pop_to(L); zpush(); P->ecache.clear();
            L.pc0 = P->pc.size();
            vint kk = sym_lin(L.k); add_ge0(kk - L.lo); add_ge0(L.hi - kk);
            *const_cast<vint *>(p) = L.cur; return true;
          }
          vint ex = L.exitv; close_loop(L, true); *const_cast<vint *>(p) = ex; return false;
        }
        if (D.t) // not a constant trip count: treat generically
        {
          long st = fl->second.step; const vint &var = fl->second.side == 0 ? a : b; const vint &bnd = fl->second.side == 0 ? b : a;
          Cmp o = op; if (fl->second.side == 1) o = op == LT ? GT : op == LE ? GE : op == GT ? LT : op == GE ? LE : op;
          Loop L; L.site = site; L.addr = p; L.start = var; L.step = st;
          vint lim;
          if (st > 0 && (o == LT || o == NE)) lim = bnd - vint(1); else if (st > 0 && o == LE) lim = bnd;
          else if (st < 0 && (o == GT || o == NE)) lim = bnd + vint(1); else if (st < 0 && o == GE) lim = bnd;
          else return plain(D, op);
          vint span = st > 0 ? lim - var : var - lim; // >=0 iff non-empty
          if (o == NE && !entails(ge0(span + vint(1)))) throw Unsupported("!=-bounded loop");
          if (!decide(ge0(span))) return false;
          long as = st > 0 ? st : -st;
          vint hi = as == 1 ? span : i_div(span, vint(as));
          int ks = fresh_param("k");
          if (st == 1) { L.lo = var; L.hi = lim; L.cur = sym_lin(ks); L.exitv = lim + vint(1); }
          else { L.lo = vint(0); L.hi = hi; L.cur = var + scale(sym_lin(ks), st); L.exitv = var + scale(hi + vint(1), st); }
          L.k = ks;
          open_level(L); P->loops.push_back(L);
          add_ge0(sym_lin(ks) - L.lo); add_ge0(L.hi - sym_lin(ks));
          *const_cast<vint *>(p) = L.cur; return true;
        }
      }
    }
    if (!D.t) return plain(D, op);
    // loop discovery
    int pk = plain_peek(D, op);
    for (int side = 0; side < 2; ++side)
    {
      const vint *p = side == 0 ? pa : pb; if (!p) continue;
      auto kk = make_pair(site, p); auto h = P->hist.find(kk);
      if (h != P->hist.end() && (pk < 0 || (pk == 1 && h->second.n >= 8)))
      {
        vint dv = side == 0 ? a - h->second.a : b - h->second.b; vint db = side == 0 ? b - h->second.b : a - h->second.a;
        if (dv.concrete() && dv.c != 0 && db.concrete() && db.c == 0)
        { loop_sites[site] = {side, dv.c}; if (tracing) cerr << "loop head found step " << dv.c << "\n"; throw Restart(); }
      }
    }
    for (int side = 0; side < 2; ++side) { const vint *p = side == 0 ? pa : pb; if (p) { auto &hh = P->hist[{site, p}]; vint dv = side == 0 ? a - hh.a : b - hh.b, db = side == 0 ? b - hh.b : a - hh.a; int n = dv.concrete() && dv.c != 0 && db.concrete() && db.c == 0 ? hh.n + 1 : 0; hh.a = a; hh.b = b; hh.n = n; } }
    return plain(D, op);
  }
  vint i_div(const vint &a, const vint &b)
  {
    if (!a.t && !b.t) { if (!b.c) throw Unsupported("division by zero"); return vint(a.c / b.c); }
    if (b.t)
    {
      if (!a.t && a.c == 0) return a;
      if (!decide(ge0(b - vint(1)))) throw Unsupported("integer division by a possibly non-positive symbolic " + str(b));
      if (!decide(ge0(a))) throw Unsupported("integer division of a negative value by symbolic " + str(b));
      auto k = make_pair("/" + key(a), key(b)); auto it = P->prods.find(k); if (it != P->prods.end()) return it->second;
      int dep = std::max(lin_depth(a), lin_depth(b)), s = new_sym("q" + to_string(P->syms.size()), dep); vint q = sym_lin(s); pc_add(ge0(q), dep);
      vint m = i_mul(q, b); pc_add(ge0(a - m), dep); pc_add(ge0(m + b - vint(1) - a), dep);
      P->prods[k] = q; return q;
    }
    if (b.c < 0) return -i_div(a, vint(-b.c));
    if (b.c == 1) return a;
    // exact?
    bool ex = a.c % b.c == 0; for (auto &p : a.t->t) ex = ex && p.second % b.c == 0;
    if (ex) { auto v = a.t->t; for (auto &p : v) p.second /= b.c; return vint(a.c / b.c, lin_mk(move(v))); }
    if (!decide(ge0(a))) return -i_div(-a, b);
    auto kk = make_pair(key(a), b.c); auto it = P->divs.find(kk); if (it != P->divs.end()) return it->second;
    int s = new_sym("q" + to_string(P->syms.size()), lin_depth(a)); vint q = sym_lin(s);
    int owner = lin_depth(a);
    pc_add(ge0(a - scale(q, b.c)), owner); pc_add(ge0(scale(q, b.c) + vint(b.c - 1) - a), owner);
    P->divs[kk] = q; return q;
  }
  // a >= 0 and b >= 0 on this path: so is their product
  void mul_nonneg(const vint &a, const vint &b)
  {
    if (!entails(ge0(a)) || !entails(ge0(b))) throw Unsupported("mul_nonneg: factors not known to be non-negative");
    pc_add(ge0(i_mul(a, b)), std::max(lin_depth(a), lin_depth(b)));
  }
  vint i_mod(const vint &a, const vint &b)
  {
    if (!a.t && !b.t) { if (!b.c) throw Unsupported("modulo by zero"); return vint(a.c % b.c); }
    if (!b.t) return a - scale(i_div(a, b), b.c);
    if (!decide(ge0(b - vint(1)))) throw Unsupported("modulo by a possibly non-positive symbolic value");
    if (!decide(ge0(a))) throw Unsupported("modulo of a negative symbolic value");
    vint r = a;
    for (int k = 0; k < 4; ++k) { if (decide(ge0(b - r - vint(1)))) return r; r = r - b; }
    throw Unsupported("modulo by symbolic value: too many wraps");
  }
  vint i_mul(const vint &a, const vint &b)
  {
    if (!a.t) return scale(b, a.c); if (!b.t) return scale(a, b.c);
    auto ka = key(a), kb = key(b); if (kb < ka) swap(ka, kb);
    auto kk = make_pair(ka, kb); auto it = P->prods.find(kk); if (it != P->prods.end()) return it->second;
    // distribute over the linear structure so that equal products have equal normal forms
    vint r(a.c * b.c); r = r + scale(vint(0, a.t), b.c) + scale(vint(0, b.t), a.c);
    for (auto &p : a.t->t) for (auto &q : b.t->t)
    {
      auto s1 = to_string(std::min(p.first, q.first)), s2 = to_string(std::max(p.first, q.first));
      auto k2 = make_pair("*" + s1, s2); auto i2 = P->prods.find(k2);
      if (i2 == P->prods.end())
      {
        int s = new_sym(P->syms[p.first].name + "*" + P->syms[q.first].name, std::max(P->syms[p.first].depth, P->syms[q.first].depth));
        vint v = sym_lin(s);
        if (entails(ge0(sym_lin(p.first))) && entails(ge0(sym_lin(q.first)))) pc_add(ge0(v), P->syms[s].depth);
        if (entails(ge0(sym_lin(p.first) - vint(1))) && entails(ge0(sym_lin(q.first) - vint(1)))) { pc_add(ge0(v - sym_lin(p.first)), P->syms[s].depth); pc_add(ge0(v - sym_lin(q.first)), P->syms[s].depth); }
        i2 = P->prods.insert({k2, v}).first;
      }
      r = r + scale(i2->second, p.second * q.second);
    }
    P->prods[kk] = r; return r;
  }
  vint subst_lin(const vint &a, const map<int, vint> &m)
  {
    if (!a.t || m.empty()) return a;
    bool any = false; for (auto &p : a.t->t) if (m.count(p.first)) { any = true; break; }
    if (!any) return a;
    vint r(a.c); for (auto &p : a.t->t) { auto it = m.find(p.first); r = i_add(r, it == m.end() ? sym_lin(p.first) : it->second, p.second); }
    return r;
  }

  // =============================================================== terms
  static string nkey(const Node &n)
  {
    string s(1, char(n.k)); auto put = [&s](long v) { s.append((char *)&v, 8); }; for (auto c : n.ch) put(c->id); s += "|"; for (auto &i : n.idx) { put(i.c); put((long)i.t); }
    if (n.k == K_CONST) s += n.val.get_str(); s += "|"; put(n.aux); s += n.name; if (n.ver) { s += "|v"; put(n.ver->id); }
    for (auto &p : n.params) s += "|p" + to_string(p.sym) + ":" + key(p.lo) + ":" + key(p.hi);
    if (n.k == K_BCOND) s += "|c" + ckey(n.cond);
    return s;
  }
  Node *mkn(Node &&n)
  {
    string k = nkey(n); auto it = P->intern.find(k); if (it != P->intern.end()) return it->second;
    n.id = P->arena.size(); P->arena.push_back(make_unique<Node>(move(n))); Node *r = P->arena.back().get(); P->intern[k] = r; return r;
  }
  static Node *kc(const Rat &v) { Node n; n.k = K_CONST; n.val = v; n.val.canonicalize(); return mkn(move(n)); }
  static Node *op(Kind k, vector<Node *> ch) { Node n; n.k = k; n.ch = move(ch); return mkn(move(n)); }
  static Rat reconstruct(long double d)
  {
    if (d == 0) return Rat(0);
    bool neg = d < 0; long double x = neg ? -d : d;
    // continued fraction with small denominators, accepted when within double rounding
    long double y = x; mpz_class h0 = 0, h1 = 1, k0 = 1, k1 = 0;
    for (int i = 0; i < 30; ++i)
    {
      long double fl = floorl(y); if (fl > 1e15L) break;
      mpz_class a((double)fl); mpz_class h2 = a * h1 + h0, k2 = a * k1 + k0; h0 = h1; h1 = h2; k0 = k1; k1 = k2;
      if (k1 > 1000000000) break;
      Rat r(h1, k1); r.canonicalize(); long double rv = (long double)mpf_class(r, 128).get_d();
      if (fabsl(rv - x) <= 3e-16L * x) { return neg ? Rat(-r) : r; }
      long double fr = y - fl; if (fr < 1e-17L) break; y = 1 / fr;
    }
    Rat e((double)x); return neg ? Rat(-e) : e;
  }
  Node *vreal::mk(long double d, bool integral) { return P ? kc(integral ? Rat((double)d) : reconstruct(d)) : nullptr; }
  unsigned cur_stamp() { return stamp_ctr; }
  static Node *poison(const string &why) { Node n; n.k = K_POISON; n.name = why; return mkn(move(n)); }
  vreal::vreal() : n(P ? poison("uninitialised variable") : nullptr), stamp(stamp_ctr) {}
  vreal::vreal(Node *n_) : n(n_), stamp(stamp_ctr) {}
  vreal::vreal(const vreal &o) : n(o.n), stamp(stamp_ctr) {}
  vreal::vreal(const vint &i) : n(nullptr), stamp(stamp_ctr) { if (i.concrete()) n = kc(Rat(i.c)); else { Node x; x.k = K_ITOF; x.idx = {i}; n = mkn(move(x)); } }
  vreal &vreal::operator=(const vreal &o)
  {
    if (P && !P->loops.empty())
      for (auto it = P->loops.rbegin(); it != P->loops.rend(); ++it) if (!it->pseudo) { if (stamp < it->stamp) throw Unsupported("loop-carried scalar"); break; }
    n = o.n; return *this;
  }
  vreal::operator double() const { if (n && n->k == K_CONST) return n->val.get_d(); throw Unsupported("symbolic real used as a concrete number"); }
  vreal::operator bool() const { return bool(r_not(r_eq(*this, vreal(0)))); }
  static vint as_int(const vreal &r) { if (r.n && r.n->k == K_ITOF) return r.n->idx[0]; return vint(static_cast<double>(r)); }
  vreal &vreal::operator+=(const vreal &o) { return *this = *this + o; }
  vreal &vreal::operator-=(const vreal &o) { return *this = *this - o; }
  vreal &vreal::operator*=(const vreal &o) { return *this = *this * o; }
  vreal &vreal::operator/=(const vreal &o) { return *this = *this / o; }
  static bool isc(Node *n) { return n->k == K_CONST; }
  static bool isc(Node *n, long v) { return n->k == K_CONST && n->val == v; }
  static Node *n_add(Node *a, Node *b) { if (isc(a) && isc(b)) return kc(a->val + b->val); if (isc(a, 0)) return b; if (isc(b, 0)) return a; return op(K_ADD, {a, b}); }
  static Node *n_neg(Node *a) { if (isc(a)) return kc(-a->val); if (a->k == K_NEG) return a->ch[0]; return op(K_NEG, {a}); }
  static Node *n_mul(Node *a, Node *b) { if (isc(a) && isc(b)) return kc(a->val * b->val); if (isc(a, 1)) return b; if (isc(b, 1)) return a; return op(K_MUL, {a, b}); }
  static Node *n_div(Node *a, Node *b) { if (isc(b) && b->val != 0) { if (isc(a)) return kc(a->val / b->val); if (isc(b, 1)) return a; return n_mul(kc(1 / b->val), a); } return op(K_DIV, {a, b}); }
  static Node *n_abs(Node *a) { if (isc(a)) return kc(abs(a->val)); if (a->k == K_ABS) return a; return op(K_ABS, {a}); }
  vreal r_add(const vreal &a, const vreal &b) { return n_add(a.n, b.n); }
  vreal r_sub(const vreal &a, const vreal &b) { return n_add(a.n, n_neg(b.n)); }
  vreal r_mul(const vreal &a, const vreal &b) { return n_mul(a.n, b.n); }
  vreal r_div(const vreal &a, const vreal &b) { return n_div(a.n, b.n); }
  vreal vreal::operator-() const { return n_neg(n); }
  vreal r_abs(const vreal &a) { return n_abs(a.n); }
  vreal r_min(const vreal &a, const vreal &b) { if (isc(a.n) && isc(b.n)) return kc(std::min(a.n->val, b.n->val)); if (a.n == b.n) return a; return op(K_MIN, {a.n, b.n}); }
  vreal r_max(const vreal &a, const vreal &b) { if (isc(a.n) && isc(b.n)) return kc(std::max(a.n->val, b.n->val)); if (a.n == b.n) return a; return op(K_MAX, {a.n, b.n}); }
  static Node *n_cmp(Kind k, Node *a, Node *b) { return op(k, {a, b}); }
  vbool r_lt(const vreal &a, const vreal &b) { return {n_cmp(K_LT, a.n, b.n)}; }
  vbool r_le(const vreal &a, const vreal &b) { return {op(K_NOT, {n_cmp(K_LT, b.n, a.n)})}; }
  vbool r_eq(const vreal &a, const vreal &b) { if (a.n->id > b.n->id) return {n_cmp(K_EQ, b.n, a.n)}; return {n_cmp(K_EQ, a.n, b.n)}; }
  vbool r_not(const vbool &a) { if (a.n->k == K_NOT) return {a.n->ch[0]}; return {op(K_NOT, {a.n})}; }
  vbool r_and(const vbool &a, const vbool &b) { return {op(K_AND, {a.n, b.n})}; }
  vbool r_or(const vbool &a, const vbool &b) { return {op(K_OR, {a.n, b.n})}; }
  static bool node_const_bool(Node *n, bool &b)
  {
    if (n->k == K_NOT) { bool c; if (!node_const_bool(n->ch[0], c)) return false; b = !c; return true; }
    if (n->k == K_AND || n->k == K_OR)
    {
      bool x, y, kx = node_const_bool(n->ch[0], x), ky = node_const_bool(n->ch[1], y);
      if (n->k == K_AND) { if ((kx && !x) || (ky && !y)) { b = false; return true; } if (kx && ky) { b = true; return true; } return false; }
      if ((kx && x) || (ky && y)) { b = true; return true; } if (kx && ky) { b = false; return true; } return false;
    }
    if (n->k == K_LT && isc(n->ch[0]) && isc(n->ch[1])) { b = n->ch[0]->val < n->ch[1]->val; return true; }
    if (n->k == K_EQ) { if (n->ch[0] == n->ch[1]) { b = true; return true; } if (isc(n->ch[0]) && isc(n->ch[1])) { b = n->ch[0]->val == n->ch[1]->val; return true; } }
    if (n->k == K_LT && n->ch[0] == n->ch[1]) { b = false; return true; }
    return false;
  }
  static bool resolve_conds = false; void resolve_conditions(bool b) { resolve_conds = b; }   // conditions are decided on the stored values
  vbool::operator bool() const
  {
    Node *m = resolve_conds && P->loops.empty() ? resolve_node(n) : n; bool neg = false; while (m->k == K_NOT) { m = m->ch[0]; neg = !neg; }
    Cond c; c.real = m; c.neg = neg; return decide(c);
  }
  vreal r_ite(const vbool &c, const vreal &a, const vreal &b)
  {
    bool v; if (node_const_bool(c.n, v)) return v ? a : b;
    if (a.n == b.n) return a;
    Node *m = c.n; bool neg = false; while (m->k == K_NOT) { m = m->ch[0]; neg = !neg; }
    Node *t = neg ? b.n : a.n, *e = neg ? a.n : b.n;
    if (t->k == K_ITE && t->ch[0] == m) t = t->ch[1];
    if (e->k == K_ITE && e->ch[0] == m) e = e->ch[2];
    if (t == e) return vreal(t);
    return vreal(op(K_ITE, {m, t, e}));
  }
  vreal r_fun(const string &f, vector<vreal> a)
  {
    if (f == "sqrt" && isc(a[0].n)) { Rat v = a[0].n->val; mpz_class p, q; if (v >= 0 && mpz_perfect_square_p(v.get_num_mpz_t()) && mpz_perfect_square_p(v.get_den_mpz_t())) { p = sqrt(v.get_num()); q = sqrt(v.get_den()); return kc(Rat(p, q)); } }
    Node n; n.k = K_FUN; n.name = f; for (auto &x : a) n.ch.push_back(x.n); return mkn(move(n));
  }
  vreal r_pow(const vreal &a, const vreal &b)
  {
    if (isc(b.n) && b.n->val.get_den() == 1 && abs(b.n->val) <= 8)
    {
      long e = b.n->val.get_num().get_si(); vreal r(1); for (long i = 0; i < labs(e); ++i) r = r_mul(r, a); return e < 0 ? r_div(vreal(1), r) : r;
    }
    if (isc(b.n) && b.n->val == Rat(1, 2)) return sqrt(a);
    return r_fun("pow", {a, b});
  }
  static map<Node *, int> depth_memo;
  static int node_depth_(Node *n, map<Node *, int> &m)
  {
    auto it = m.find(n); if (it != m.end()) return it->second;
    int d = 0; for (auto &i : n->idx) d = std::max(d, lin_depth(i)); for (auto c : n->ch) d = std::max(d, node_depth_(c, m));
    if (n->k == K_BCOND) d = std::max(d, lin_depth(n->cond.L));
    return m[n] = d;
  }
  static int node_depth(Node *n) { map<Node *, int> m; return node_depth_(n, m); }

  static Node *rebuild(Node *n, vector<Node *> &&ch)
  {
    switch (n->k)
    {
      case K_ADD: return n_add(ch[0], ch[1]); case K_MUL: return n_mul(ch[0], ch[1]); case K_NEG: return n_neg(ch[0]);
      case K_DIV: return n_div(ch[0], ch[1]); case K_ABS: return n_abs(ch[0]);
      case K_MIN: return r_min(vreal(ch[0]), vreal(ch[1])).n; case K_MAX: return r_max(vreal(ch[0]), vreal(ch[1])).n;
      case K_ITE: return r_ite({ch[0]}, vreal(ch[1]), vreal(ch[2])).n;
      default: { Node m = *n; m.ch = move(ch); return mkn(move(m)); }
    }
  }
  static Node *subst_rec(Node *n, const map<int, vint> &m, map<Node *, Node *> &memo)
  {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    Node *r = n;
    if (n->k == K_CONST || n->k == K_POISON) r = n;
    else
    {
      vector<Node *> ch; bool chg = false;
      for (auto c : n->ch) { auto d = subst_rec(c, m, memo); chg |= d != c; ch.push_back(d); }
      vector<vint> ix; for (auto &i : n->idx) { auto j = subst_lin(i, m); chg |= !(j.c == i.c && j.t == i.t); ix.push_back(j); }
      vector<Param> ps = n->params; for (auto &p : ps) { auto a = subst_lin(p.lo, m), b = subst_lin(p.hi, m); chg |= !(a.c == p.lo.c && a.t == p.lo.t && b.c == p.hi.c && b.t == p.hi.t); p.lo = a; p.hi = b; }
      Cond cd = n->cond; if (n->k == K_BCOND) { cd.L = subst_lin(cd.L, m); chg |= !(cd.L.c == n->cond.L.c && cd.L.t == n->cond.L.t); }
      if (chg)
      {
        if (ix.empty() && ps.empty() && n->k != K_BCOND) r = rebuild(n, move(ch));
        else if (n->k == K_ITOF) r = vreal(ix[0]).n;
        else { Node q = *n; q.ch = ch; q.idx = ix; q.params = ps; q.cond = cd; r = mkn(move(q)); }
      }
    }
    return memo[n] = r;
  }
  Node *subst_node(Node *n, const map<int, vint> &m) { if (m.empty()) return n; map<Node *, Node *> memo; return subst_rec(n, m, memo); }
  vreal subst(const vreal &a, const vint &s, const vint &by) { map<int, vint> m{{s.t->t[0].first, by}}; return subst_node(a.n, m); }
  vreal shift(const vreal &a, const vint &s, long by) { return subst(a, s, s + vint(by)); }

  // =============================================================== array store
  Storage *new_storage(const string &name, const vector<vint> &lo, const vector<vint> &hi)
  {
    auto s = make_unique<Storage>(); s->id = P->sts.size(); s->name = name + "#" + to_string(s->id); s->rank = lo.size(); s->lo = lo; s->hi = hi; s->stamp = stamp_ctr;
    P->vers.push_back(make_unique<Ver>(Ver{nullptr, {}, (int)P->vers.size(), s.get()})); s->head = s->root = P->vers.back().get();
    P->sts.push_back(move(s)); return P->sts.back().get();
  }
  static void log_acc(Storage *st, const vector<vint> &idx, bool write, const vector<Param> *ps, Node *val)
  {
    Acc a; a.st = st; a.idx = idx; a.write = write; a.val = val; 
    if (ps) a.params = *ps; else for (auto &o : P->openp) a.params.insert(a.params.end(), o.begin(), o.end());
    P->acc.push_back(move(a));
  }
  Node *read(Storage *st, const vector<vint> &idx)
  {
    log_acc(st, idx, false, nullptr, nullptr); size_t me = P->acc.size() - 1; auto logged = [&](Node *r) { P->acc[me].val = r; return r; };
    // innermost-to-outermost: outermost real loop start version
    Ver *stop = nullptr;
    for (auto &L : P->loops) if (!L.pseudo) { auto it = L.heads.find(st); stop = it == L.heads.end() ? st->root : it->second; break; }
    Ver *v = st->head;
    if (stop && v != stop)
    {
      // eager resolution through the entries of the running loop body
      function<Node *(Ver *)> walk = [&](Ver *w) -> Node * {
        if (w == stop) { Node n; n.k = K_READ; n.ver = w; n.idx = idx; return mkn(move(n)); }
        const Entry &e = w->e; map<int, vint> m; vector<Cond> cs; set<int> solved;
        for (auto &p : e.params)
        {
          bool ok = false;
          for (size_t d = 0; d < idx.size() && !ok; ++d)
          {
            vint ed = subst_lin(e.idx[d], m); long co = 0; bool other = false;
            if (ed.t) for (auto &q : ed.t->t) { if (q.first == p.sym) co = q.second; else for (auto &pp : e.params) if (pp.sym == q.first) other = true; }
            if ((co == 1 || co == -1) && !other) { vint rest = i_add(ed, scale(sym_lin(p.sym), co), -1); m[p.sym] = scale(idx[d] - rest, co); ok = true; }
          }
          if (!ok) throw Unsupported("cannot invert index map of a write to " + st->name);
        }
        for (auto &p : e.params) { vint v = m[p.sym]; cs.push_back(ge0(v - subst_lin(p.lo, m))); cs.push_back(ge0(subst_lin(p.hi, m) - v)); }
        for (size_t d = 0; d < idx.size(); ++d) { vint r = idx[d] - subst_lin(e.idx[d], m); if (r.t || r.c) cs.push_back(eq0(r)); }
        for (auto &g : e.guards) if (!g.real) { Cond c = g; c.L = subst_lin(g.L, m); cs.push_back(c); } else throw Unsupported("real guard in loop body");
        for (auto &c : cs) if (entails(cnot(c))) return walk(w->parent);
        for (auto &c : cs) if (!decide(c)) return walk(w->parent);
        return subst_node(e.val, m);
      };
      return logged(walk(v));
    }
    Node n; n.k = K_READ; n.ver = v; n.idx = idx; return logged(mkn(move(n)));
  }
  static void push_entry(Storage *st, Entry e) { P->vers.push_back(make_unique<Ver>(Ver{st->head, move(e), (int)P->vers.size(), st})); st->head = P->vers.back().get(); }
  void write(Storage *st, const vector<Param> &ps, const vector<vint> &idx, Node *val, bool ext)
  {
    log_acc(st, idx, true, &ps, val);
    Entry e; e.params = ps; e.idx = idx; e.val = val; e.ext = ext; push_entry(st, e);
  }
  void assign_region(Storage *st, const vector<Param> &params, const vector<vint> &idx, const function<Node *()> &gen)
  {
    size_t a0 = P->acc.size();
    Loop L; L.pseudo = true; L.k = -1; open_level(L); P->loops.push_back(L); size_t li = P->loops.size() - 1;
    vector<pair<vector<Cond>, Node *>> res;
    for (;;)
    {
      for (auto &p : params) { add_ge0(sym_lin(p.sym) - p.lo); add_ge0(p.hi - sym_lin(p.sym)); }
      P->openp.push_back(params);
      Node *v = gen();
      P->openp.pop_back();
      Loop &R = P->loops[li]; vector<Cond> g; for (auto &d : R.dec) g.push_back(d.val ? d.c : cnot(d.c));
      for (size_t i = R.accv; i < P->acc.size(); ++i) P->acc[i].guards = g; R.accv = P->acc.size();
      res.push_back({g, v});
      if (!next_variant(R)) break;
      pop_to(R); zpush(); P->ecache.clear(); R.pc0 = P->pc.size();
    }
    pop_to(P->loops[li]); P->loops.pop_back();
    // aliasing: element-by-element evaluation must agree with "evaluate all, then store"
    size_t a1 = P->acc.size();
    for (size_t i = a0; i < a1; ++i) if (P->acc[i].st == st && !P->acc[i].write)
    {
      bool same = P->acc[i].params.size() == params.size();
      for (size_t d = 0; d < idx.size(); ++d) same = same && idx[d].c == P->acc[i].idx[d].c && idx[d].t == P->acc[i].idx[d].t;
      if (same) continue;
      Acc w; w.st = st; w.params = params; w.idx = idx; counters["alias_checks"]++;
      if (may_overlap(P->acc[i], w, {}, zc->bool_val(true))) throw Unsupported("overlapping source and destination in array assignment to " + st->name + " " + str(idx[0]) + "<-" + str(P->acc[i].idx[0]));
    }
    // one-element ranges need no parameter
    map<int, vint> m0; vector<Param> ps; for (auto &p : params) { vint x = p.hi - p.lo; if (x.concrete() && x.c == 0) m0[p.sym] = p.lo; else ps.push_back(p); }
    vector<vint> id2; for (auto &x : idx) id2.push_back(subst_lin(x, m0));
    for (auto &r : res)
    {
      log_acc(st, idx, true, &params, r.second); P->acc.back().guards = r.first; Entry e; e.params = ps; e.idx = id2; e.val = subst_node(r.second, m0);
      for (auto &g : r.first) { Cond c = g; if (!g.real) c.L = subst_lin(g.L, m0); else c.real = subst_node(g.real, m0); e.guards.push_back(c); } push_entry(st, e);
    }
  }
  static string pkey(const Poly &); static Node *poly_node(const Poly &); static Node *rebuild(Node *, vector<Node *> &&);
  // reads resolved also under the sums, within the ranges of their indices
  static Node *resolve_sums(Node *n)
  {
    n = resolve_node(n);
    if (n->k == K_SUM)
    {
      Loop L; L.pseudo = true; open_level(L); P->loops.push_back(L); size_t li = P->loops.size() - 1;
      for (auto &p : n->params) { add_ge0(sym_lin(p.sym) - p.lo); add_ge0(p.hi - sym_lin(p.sym)); } P->openp.push_back(n->params);
      Node *c = poly_node(nf(resolve_sums(n->ch[0])));
      P->openp.pop_back(); bool forked = P->loops[li].dec.size(); pop_to(P->loops[li]); P->loops.pop_back(); if (forked) throw Unsupported("branching inside a reduction");
      Node m = *n; m.ch = {c}; return mkn(move(m));
    }
    if (n->k == K_RMAX || n->k == K_RMIN || n->ch.empty()) return n;
    vector<Node *> ch; bool chg = false; for (auto c : n->ch) { auto d = resolve_sums(c); chg |= d != c; ch.push_back(d); } return chg ? rebuild(n, move(ch)) : n;
  }
  static int forget_sums_ = 0; void forget_sums(int b) { forget_sums_ = b; }
  Node *reduce(Kind k, const vector<Param> &params, const function<Node *()> &gen)
  {
    bool outer = P->openp.empty(); for (auto &l : P->loops) outer = outer && l.pseudo;
    Loop L; L.pseudo = true; open_level(L); P->loops.push_back(L); size_t li = P->loops.size() - 1;
    for (auto &p : params) { add_ge0(sym_lin(p.sym) - p.lo); add_ge0(p.hi - sym_lin(p.sym)); } P->openp.push_back(params);
    Node *v = gen();
    if (k == K_SUM && outer && forget_sums_ == 2) v = poly_node(nf(resolve_sums(v)));
    P->openp.pop_back();
    bool forked = P->loops[li].dec.size(); pop_to(P->loops[li]); P->loops.pop_back();
    if (forked) throw Unsupported("branching inside a reduction");
    if (k == K_SUM && outer && forget_sums_ == 1) { static int ns = 0; return named_real("anysum" + to_string(ns++)).n; }   // its contract: some real
    // canonical bound symbols
    vector<Param> ps; map<int, vint> m; int c = 0;
    bool allconst = true; long tot = 1;
    for (auto &p : params) { vint ext = p.hi - p.lo; if (!ext.concrete()) allconst = false; else tot *= std::max(0L, ext.c + 1); }
    if (allconst && tot <= 64 && tot > 0)
    {
      vector<vint> cur; Node *acc = nullptr;
      function<void(size_t, map<int, vint>)> rec = [&](size_t d, map<int, vint> mm) {
        if (d == params.size()) { Node *x = subst_node(v, mm); acc = !acc ? x : k == K_SUM ? n_add(acc, x) : k == K_RMAX ? r_max(vreal(acc), vreal(x)).n : r_min(vreal(acc), vreal(x)).n; return; }
        long n = (params[d].hi - params[d].lo).c; for (long q = 0; q <= n; ++q) { auto m2 = mm; m2[params[d].sym] = params[d].lo + vint(q); rec(d + 1, m2); }
      };
      rec(0, {}); return acc;
    }
    for (auto &p : params)
    {
      string nm = "@" + to_string(P->loops.size()) + "_" + to_string(c++);
      static map<pair<Path *, string>, int> ids; 
      int s; auto it = P->named.find(nm);
      if (it == P->named.end()) { s = new_sym(nm, 0); P->named[nm] = vreal(sym_lin(s)).n; } else s = it->second->idx[0].t->t[0].first;
      ps.push_back({s, subst_lin(p.lo, m), subst_lin(p.hi, m)}); m[p.sym] = sym_lin(s);
    }
    Node n; n.k = k; n.params = ps; n.ch = {subst_node(v, m)}; Node *r = mkn(move(n));
    if (k == K_SUM && outer && forget_sums_ == 2) { static map<string, int> ids; string q = pkey(nf(r)); auto f = ids.emplace(q, ids.size()).first; if (getenv("DBGS")) fprintf(stderr, "SUM#%d %s\n", f->second, dump(r).c_str()); return named_real("anysum#" + to_string(f->second)).n; }   // its contract: some real (the same for the same sum)
    return r;
  }
  using Ctx = vector<pair<Node *, bool>>;
  static Node *resolve_read_(Ver *v, const vector<vint> &idx, const Ctx &ctx = {})
  {
    Storage *st = v->st;
    for (; v != st->root; v = v->parent)
    {
      const Entry &e = v->e; map<int, vint> m; vector<Cond> cs; bool bad = false;
      for (size_t rounds = 0; rounds < e.params.size() + 1; ++rounds)
        for (auto &p : e.params) if (!m.count(p.sym))
          for (size_t d = 0; d < idx.size(); ++d)
          {
            vint ed = subst_lin(e.idx[d], m); long co = 0; bool other = false;
            if (ed.t) for (auto &q : ed.t->t) { if (q.first == p.sym) co = q.second; else for (auto &pp : e.params) if (pp.sym == q.first) other = true; }
            if ((co == 1 || co == -1) && !other) { vint rest = i_add(ed, scale(sym_lin(p.sym), co), -1); m[p.sym] = scale(idx[d] - rest, co); break; }
          }
      for (auto &p : e.params) if (!m.count(p.sym)) bad = true;
      if (bad) throw Unsupported("cannot invert index map of a write to " + st->name);
      for (auto &p : e.params) { vint q = m[p.sym]; cs.push_back(ge0(q - subst_lin(p.lo, m))); cs.push_back(ge0(subst_lin(p.hi, m) - q)); }
      for (size_t d = 0; d < idx.size(); ++d) { vint r = idx[d] - subst_lin(e.idx[d], m); if (r.t || r.c) cs.push_back(eq0(r)); }
      vector<Cond> rg;
      for (auto &g : e.guards) { if (!g.real) { Cond c = g; c.L = subst_lin(g.L, m); cs.push_back(c); } else { Cond c = g; c.real = subst_node(g.real, m); rg.push_back(c); } }
      bool miss = false;
      for (auto &c : cs) if (entails(cnot(c))) { miss = true; break; }
      if (miss) continue;
      for (auto &c : cs) if (!decide(c)) { miss = true; break; }
      if (miss) continue;
      Node *val = subst_node(e.val, m);
      if (!rg.empty())
      {
        // data-dependent guards: decision tree; below each failed guard the older contents are looked up knowing which guards hold
        Ctx cx = ctx; vector<pair<Cond, Node *>> lv; bool skip = false;
        for (auto &g : rg) for (auto &c : ctx) if (c.first == g.real && c.second == g.neg) skip = true;
        if (skip) { val = resolve_read_(v->parent, idx, ctx); return val; }
        for (auto &g : rg)
        {
          bool known = false; for (auto &c : cx) if (c.first == g.real) { known = true; if (c.second == g.neg) skip = true; break; }
          if (skip) break; if (known) continue;
          Ctx cf = cx; cf.push_back({g.real, g.neg}); lv.push_back({g, resolve_read_(v->parent, idx, cf)}); cx.push_back({g.real, !g.neg});
        }
        if (skip) val = resolve_read_(v->parent, idx, cx);
        for (auto it = lv.rbegin(); it != lv.rend(); ++it) { vbool b{it->first.real}; val = it->first.neg ? r_ite(b, vreal(it->second), vreal(val)).n : r_ite(b, vreal(val), vreal(it->second)).n; }
      }
      return val;
    }
    if (st->base >= 0) return app(st->base, idx);
    string s = st->name + "("; for (auto &i : idx) s += str(i) + ","; return poison("uninitialised " + s + ")");
  }
  static size_t lay() { return P->local ? P->scoped + P->loops[P->local - 1].dec.size() : 0; }
  Node *resolve_read(Ver *v, const vector<vint> &idx)
  {
    RKey kk{v, idx}; if (Node *f = P->rmemo.find(kk)) return f;
    Node *r = resolve_read_(v, idx); if (P->loops.empty() || P->local) P->rmemo.put(kk, r, lay()); return r;
  }
  Node *resolve_node(Node *n)
  {
    if (Node *f = P->resmemo.find(n)) return f;
    Node *r;
    if (n->k == K_READ) r = resolve_node(resolve_read(n->ver, n->idx));
    else if (n->k == K_BCOND) { r = n; }
    else if (n->k == K_SUM || n->k == K_RMAX || n->k == K_RMIN) r = n;
    else if (n->ch.empty()) r = n;
    else { vector<Node *> ch; bool chg = false; for (auto c : n->ch) { auto d = resolve_node(c); chg |= d != c; ch.push_back(d); } r = chg ? rebuild(n, move(ch)) : n; }
    P->resmemo.put(n, r, lay()); return r;
  }
  vreal resolve(const vreal &a) { return resolve_node(a.n); }
  int base_fun(const string &nm) { auto it = base_ids.find(nm); if (it != base_ids.end()) return it->second; int i = base_names.size(); base_names.push_back(nm); base_ids[nm] = i; return i; }
  Node *app(int b, const vector<vint> &idx) { Node n; n.k = K_APP; n.aux = b; n.idx = idx; return mkn(move(n)); }
  void declare_nonneg(const string &b) { base_fun(b); nonneg_b.insert(b); }
  void declare_pos(const string &b) { base_fun(b); pos_b.insert(b); nonneg_b.insert(b); }
  void fill_base(Storage *st, const vector<Param> &ps, const vector<vint> &idx, const vector<vint> &appidx, const string &nm) { write(st, ps, idx, app(base_fun(nm), appidx)); }
  vreal named_real(const string &nm) { return app(base_fun(nm), {}); }
  static int cutn = 0;
  void cut(Storage *st)
  {
    vector<Param> ps; vector<vint> idx;
    for (int d = 0; d < st->rank; ++d) { int s = fresh_param("c"); ps.push_back({s, st->lo[d], st->hi[d]}); idx.push_back(sym_lin(s)); }
    Entry e; e.params = ps; e.idx = idx; e.val = app(base_fun("cut:" + st->name + ":" + to_string(P->vers.size())), idx); push_entry(st, e);
  }
  // weaken: every value stored so far becomes an arbitrary function of its index (earlier reads included)
  void generalise(Storage *st)
  {
    if (!P->loops.empty()) throw Unsupported("generalise inside a loop");
    for (Ver *v = st->head; v != st->root; v = v->parent) { if (v->e.val->k == K_APP || v->e.val->k == K_CONST) continue; vector<vint> ix; for (auto &p : v->e.params) ix.push_back(sym_lin(p.sym)); v->e.guards.erase(remove_if(v->e.guards.begin(), v->e.guards.end(), [](const Cond &c) { return c.real != nullptr; }), v->e.guards.end()); v->e.val = app(base_fun("gen:" + st->name + ":" + to_string(v->id)), ix); }
    P->rmemo = decltype(P->rmemo)(); P->resmemo = decltype(P->resmemo)(); P->nfmemo.clear(); P->expand.clear();
  }
  // every value stored so far is proved equal to q (entry by entry, at an arbitrary index) and replaced by it
  void simplify_to(Storage *st, const vreal &q, const string &label)
  {
    if (!P->loops.empty()) throw Unsupported("simplify_to inside a loop");
    // every region written since the last complete overwrite (the newest write of each): the value stored is q
    vector<Ver *> vs; set<string> seen;
    for (Ver *v = st->head; v != st->root; v = v->parent)
    {
      auto &e = v->e; bool plain = e.guards.empty() && e.params.size() == (size_t)st->rank, full = plain; string key;
      for (int d = 0; d < st->rank && plain; ++d)
      {
        int k = -1; for (size_t q = 0; q < e.params.size(); ++q) { map<int, vint> m; m[e.params[q].sym] = 0; vint c = subst_lin(e.idx[d], m); if ((e.idx[d] - c - sym_lin(e.params[q].sym)).t == nullptr && (e.idx[d] - c - sym_lin(e.params[q].sym)).c == 0) { k = q; key += "[" + str(e.params[q].lo + c) + ".." + str(e.params[q].hi + c) + "]"; vint x = e.params[q].lo + c - st->lo[d], y = e.params[q].hi + c - st->hi[d]; if (x.t || x.c || y.t || y.c) full = false; break; } }
        if (k < 0) plain = full = false;
      }
      if (plain && !seen.insert(key).second) continue;
      vs.push_back(v); if (full) break;
    }
    for (auto it = vs.rbegin(); it != vs.rend(); ++it)
    {
      Ver *v = *it; if (v->e.val == q.n) continue;
      scope([&] { map<int, vint> m; for (auto &p : v->e.params) { vint f = fresh_int("p"); m[p.sym] = f; assume(ge0(f - subst_lin(p.lo, m))); assume(ge0(subst_lin(p.hi, m) - f)); }
        for (auto &g : v->e.guards) if (!g.real) { Cond c = g; c.L = subst_lin(g.L, m); assume(c); }
        ob_eq(label, vreal(subst_node(v->e.val, m)), q); });
      v->e.val = q.n; v->e.guards.erase(remove_if(v->e.guards.begin(), v->e.guards.end(), [](const Cond &c) { return c.real != nullptr; }), v->e.guards.end());
      P->rmemo = decltype(P->rmemo)(); P->resmemo = decltype(P->resmemo)(); P->nfmemo.clear(); P->expand.clear();
    }
  }

  // =============================================================== normal form (Laurent polynomials over atoms)
  static int atom(const string &k, Node *rep, const Poly *p, int nn)
  {
    auto it = P->atomid.find(k); if (it != P->atomid.end()) return it->second;
    int id = P->atoms.size(); P->atoms.push_back(rep); P->atomid[k] = id; P->atompoly.push_back(p ? *p : Poly()); P->atomkey.push_back(k); P->atomnn.push_back(nn); return id;
  }
  static size_t NFLIM = 60000;
  static Poly pc(const Rat &r) { Poly p; if (r != 0) p.t[{}] = r; return p; }
  static void padd(Poly &a, const Mono &m, const Rat &c) { auto it = a.t.find(m); if (it == a.t.end()) { if (c != 0) a.t.emplace(m, c); } else { it->second += c; if (it->second == 0) a.t.erase(it); } if (a.t.size() > NFLIM) throw NFTooBig("polynomial too large"); }
  static Poly padd(const Poly &a, const Poly &b, const Rat &m = 1) { Poly r = a; for (auto &t : b.t) padd(r, t.first, t.second * m); return r; }
  static Mono mmul(const Mono &a, const Mono &b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; } } return r; }
  static Poly pmul(const Poly &, const Poly &);
  static Poly fix(const Mono &m, const Rat &c)   // |p|^2 -> p^2, positive powers of INV atoms -> expansion
  {
    for (size_t i = 0; i < m.size(); ++i)
    {
      const string &k = P->atomkey[m[i].first];
      if (k[0] == 'A' && (m[i].second >= 2)) { Mono r = m; r[i].second -= 2; if (!r[i].second) r.erase(r.begin() + i); Poly q = pmul(P->atompoly[m[i].first], P->atompoly[m[i].first]); Poly one; one.t[r] = c; return pmul(one, q); }
      if (k[0] == 'S' && m[i].second >= 2) { Mono r = m; r[i].second -= 2; if (!r[i].second) r.erase(r.begin() + i); Poly one; one.t[r] = c; return pmul(one, P->atompoly[m[i].first]); }
      if (k[0] == 'I' && m[i].second >= 1) { Mono r = m; r[i].second -= 1; if (!r[i].second) r.erase(r.begin() + i); Poly one; one.t[r] = c; return pmul(one, P->atompoly[m[i].first]); }
    }
    Poly p; p.t[m] = c; return p;
  }
  static bool needfix(const Mono &m) { for (auto &x : m) { char k = P->atomkey[x.first][0]; if ((k == 'A' && x.second >= 2) || (k == 'S' && x.second >= 2) || (k == 'I' && x.second >= 1)) return true; } return false; }
  static Poly pmul(const Poly &a, const Poly &b)
  {
    if (a.t.size() * b.t.size() > 4 * NFLIM) throw NFTooBig("product too large");
    Poly r; for (auto &x : a.t) for (auto &y : b.t) { Mono m = mmul(x.first, y.first); Rat c = x.second * y.second; if (needfix(m)) { Poly q = fix(m, c); for (auto &t : q.t) padd(r, t.first, t.second); } else padd(r, m, c); }
    return r;
  }
  static string pkey(const Poly &p) { string s; for (auto &t : p.t) { s += t.second.get_str() + "*"; for (auto &m : t.first) s += to_string(m.first) + "^" + to_string(m.second) + "."; s += "+"; } return s; }
  // content/sign/common-monomial extraction: p = c * m * q
  static void primitive(const Poly &p, Rat &c, Mono &m, Poly &q)
  {
    // common monomial: per atom min exponent (atoms absent -> 0)
    map<int, int> mn; bool first = true;
    for (auto &t : p.t)
    {
      map<int, int> e; for (auto &x : t.first) e[x.first] = x.second;
      if (first) { mn = e; first = false; }
      else { for (auto it = mn.begin(); it != mn.end();) { auto f = e.find(it->first); int v = f == e.end() ? 0 : f->second; it->second = std::min(it->second, v); if (it->second == 0) it = mn.erase(it); else ++it; } for (auto &x : e) if (x.second < 0 && !mn.count(x.first)) mn[x.first] = x.second; }
    }
    // atoms absent from the first terms but negative later are handled above; re-check absent ones
    for (auto it = mn.begin(); it != mn.end();) { bool allhave = true; int v = it->second; for (auto &t : p.t) { int e = 0; for (auto &x : t.first) if (x.first == it->first) e = x.second; v = std::min(v, e); } it->second = v; if (v == 0) it = mn.erase(it); else ++it; (void)allhave; }
    m.assign(mn.begin(), mn.end());
    Mono inv; for (auto &x : m) inv.push_back({x.first, -x.second});
    q = Poly(); c = p.t.begin()->second; for (auto &t : p.t) q.t[mmul(t.first, inv)] = t.second;
    // leading coefficient of the (re-keyed) poly
    c = q.t.begin()->second; for (auto &t : q.t) t.second /= c;
  }
  static Node *poly_node(const Poly &);
  static Poly pmono(const Mono &m, const Rat &c) { Poly p; p.t[m] = c; return needfix(m) ? fix(m, c) : p; }
  static Poly pabs(const Poly &p)
  {
    if (p.zero()) return p;
    Rat c; Mono m; Poly q; primitive(p, c, m, q);
    Poly r = pc(abs(c));
    for (auto &x : m)
    {
      if (P->atomnn[x.first] || x.second % 2 == 0) r = pmul(r, pmono({x}, 1));
      else if (P->atomkey[x.first][0] == 'I') // odd power of 1/q
      { Poly qq = P->atompoly[x.first]; string k = "A" + pkey(qq); int a = atom(k, nullptr, &qq, 1); if (!P->atoms[a]) P->atoms[a] = n_abs(poly_node(qq)); r = pmul(r, pmono({{a, x.second}}, 1)); }
      else { Poly b; b.t[{{x.first, 1}}] = 1; string k = "A" + pkey(b); int a = atom(k, nullptr, &b, 1); if (!P->atoms[a]) P->atoms[a] = n_abs(poly_node(b)); r = pmul(r, pmono({{a, x.second}}, 1)); }
    }
    if (q.t.size() == 1 && q.t.begin()->first.empty()) return pmul(r, pc(abs(q.t.begin()->second)));
    // all terms obviously nonnegative?
    bool nn = true; for (auto &t : q.t) { if (t.second < 0) nn = false; for (auto &x : t.first) if (!(P->atomnn[x.first] || x.second % 2 == 0)) nn = false; }
    if (nn) return pmul(r, q);
    string k = "A" + pkey(q); int a = atom(k, nullptr, &q, 1); if (!P->atoms[a]) P->atoms[a] = n_abs(poly_node(q));
    return pmul(r, pmono({{a, 1}}, 1));
  }
  static Poly pinv(const Poly &p)
  {
    if (p.zero()) throw NFTooBig("division by zero polynomial");
    Rat c; Mono m; Poly q; primitive(p, c, m, q);
    Mono inv; for (auto &x : m) inv.push_back({x.first, -x.second});
    Poly r; r = pmono(inv, 1 / c);
    if (q.t.size() == 1 && q.t.begin()->first.empty()) return pmul(r, pc(1 / q.t.begin()->second));
    bool nn = true; for (auto &t : q.t) { if (t.second < 0) nn = false; for (auto &x : t.first) if (!(P->atomnn[x.first] || x.second % 2 == 0)) nn = false; }
    string k = "I" + pkey(q); int a = atom(k, nullptr, &q, nn); if (!P->atoms[a]) P->atoms[a] = poly_node(q);
    return pmul(r, pmono({{a, -1}}, 1));
  }
  static vint canon_lin(const vint &a) { return P->eqs.empty() ? a : subst_lin(a, P->eqs); }
  static void flat(Node *n, Kind k, bool neg, vector<pair<Node *, bool>> &out)
  {
    if (n->k == K_NEG) { flat(n->ch[0], k, !neg, out); return; }
    if ((!neg && n->k == k) || (neg && n->k == (k == K_MAX ? K_MIN : K_MAX))) { flat(n->ch[0], k, neg, out); flat(n->ch[1], k, neg, out); return; }
    if (n->k == K_READ && P->expand.count(n->ver)) { flat(resolve_read(n->ver, n->idx), k, neg, out); return; }
    out.push_back({n, neg});
  }
  Poly nf(Node *n)
  {
    auto it = P->nfmemo.find(n); if (it != P->nfmemo.end()) return it->second;
    Poly r;
    switch (n->k)
    {
      case K_CONST: r = pc(n->val); break;
      case K_ADD: r = padd(nf(n->ch[0]), nf(n->ch[1])); break;
      case K_NEG: r = padd(Poly(), nf(n->ch[0]), -1); break;
      case K_MUL: r = pmul(nf(n->ch[0]), nf(n->ch[1])); break;
      case K_DIV: { Poly a = nf(n->ch[0]); if (a.zero()) { r = a; break; } r = pmul(a, pinv(nf(n->ch[1]))); break; }
      case K_ABS: r = pabs(nf(n->ch[0])); break;
      case K_MAX: case K_MIN:
      {
        // n-ary; std::min(a..) = -std::max(-a..)
        bool mn = n->k == K_MIN; vector<pair<Node *, bool>> fl; flat(n, n->k, false, fl);
        map<string, Poly> args; for (auto &f : fl) { Poly p = nf(f.first); if (f.second != mn) p = padd(Poly(), p, -1); args[pkey(p)] = p; }
        if (args.size() == 1) { r = args.begin()->second; }
        else if (args.size() == 2)
        {
          Poly a = args.begin()->second, b = next(args.begin())->second; // max = (a+b+|a-b|)/2
          r = padd(padd(a, b), pabs(padd(a, b, -1))); r = padd(Poly(), r, Rat(1, 2));
        }
        else
        {
          string k = "M"; for (auto &a : args) k += a.first + ";"; int id = atom(k, nullptr, nullptr, args.count("") ? 1 : 0);
          if (!P->atoms[id]) { Node *m = nullptr; for (auto &a : args) { Node *x = poly_node(a.second); m = m ? r_max(vreal(m), vreal(x)).n : x; } P->atoms[id] = m; }
          r.t[{{id, 1}}] = 1;
        }
        if (mn) r = padd(Poly(), r, -1);
        break;
      }
      case K_READ:
        if (P->expand.count(n->ver)) { r = nf(resolve_read(n->ver, n->idx)); break; }
        { Node m = *n; for (auto &i : m.idx) i = canon_lin(i); Node *q = mkn(move(m)); r.t[{{atom("r" + to_string(q->id), q, nullptr, 0), 1}}] = 1; }
        break;
      case K_APP:
        { Node m = *n; for (auto &i : m.idx) i = canon_lin(i); Node *q = mkn(move(m)); r.t[{{atom("f" + to_string(q->id), q, nullptr, nonneg_b.count(base_names[n->aux])), 1}}] = 1; }
        break;
      case K_FUN:
        if (n->name == "sqrt")
        {
          Poly p = nf(n->ch[0]); string k = "S" + pkey(p); int id = atom(k, nullptr, &p, 1); if (!P->atoms[id]) P->atoms[id] = r_fun("sqrt", {vreal(poly_node(p))}).n; r.t[{{id, 1}}] = 1; break;
        }
        { string k = "u" + n->name; vector<vreal> as; for (auto c : n->ch) { Poly p = nf(c); k += "(" + pkey(p) + ")"; as.push_back(vreal(poly_node(p))); } int id = atom(k, nullptr, nullptr, 0); if (!P->atoms[id]) P->atoms[id] = r_fun(n->name, as).n; r.t[{{id, 1}}] = 1; }
        break;
      case K_ITE:
      {
        bool kb; Node *c = n->ch[0];
        for (auto &q : P->rpc) if (q.first == c) { r = nf(n->ch[q.second ? 1 : 2]); P->nfmemo[n] = r; return r; }
        (void)kb;
        Poly a = nf(n->ch[1]), b = nf(n->ch[2]); if (pkey(a) == pkey(b)) { r = a; break; }
        Poly common; { vector<Mono> both; for (auto &t : a.t) { auto f = b.t.find(t.first); if (f != b.t.end() && f->second == t.second) both.push_back(t.first); } for (auto &m : both) { padd(common, m, a.t[m]); a.t.erase(m); b.t.erase(m); } }
        Poly cont;   // ite(c, k*p, k*q) -> k * ite(c, p, q)
        {
          static const int TAG = 1 << 30; Poly u; for (auto &t : a.t) u.t[t.first] = t.second; for (auto &t : b.t) { Mono m = t.first; m.push_back({TAG, 1}); u.t[m] = t.second; }
          Rat cc; Mono mm; Poly q; primitive(u, cc, mm, q);
          if (!mm.empty() && mm.back().first == TAG) mm.pop_back();
          Mono inv; for (auto &x : mm) inv.push_back({x.first, -x.second});
          auto div = [&](const Poly &x) { Poly y; for (auto &t : x.t) y.t[mmul(t.first, inv)] = t.second / cc; return y; };
          bool bad = false; for (auto &x : mm) { char ch = P->atomkey[x.first][0]; if (ch == 'A' || ch == 'S' || ch == 'I') bad = true; (void)ch; }
          if (bad) { mm.clear(); inv.clear(); }
          a = div(a); b = div(b); cont.t[mm] = cc;
        }
        string k = "t"; Node *cn = c;
        if (c->k == K_LT || c->k == K_EQ)
        {
          Poly d = padd(nf(c->ch[0]), nf(c->ch[1]), -1);
          if (d.zero()) { r = c->k == K_EQ ? a : b; break; }
          // normalise: EQ up to any scale, LT up to positive scale
          Rat cc; Mono mm; Poly q; primitive(d, cc, mm, q);
          if (c->k == K_EQ) k += "E" + pkey(q) + "m"; else { Rat sc = abs(d.t.begin()->second); Poly dd; for (auto &t : d.t) dd.t[t.first] = t.second / sc; d = dd; k += "L" + pkey(d); }
          if (c->k == K_EQ) for (auto &x : mm) k += to_string(x.first) + "^" + to_string(x.second);
          cn = op(c->k, {poly_node(d), kc(0)});
        }
        else if (c->k == K_BCOND) { k += "B" + ckey(c->cond); }
        else k += "c" + to_string(c->id);
        { auto f = P->condval.find(k); if (f != P->condval.end()) { r = padd(pmul(f->second ? a : b, cont), common); break; } }
        string kc_ = k; k += "?" + pkey(a) + ":" + pkey(b);
        int id = atom(k, nullptr, nullptr, 0); P->atomcond[id] = kc_; if (!P->atoms[id]) P->atoms[id] = op(K_ITE, {cn, poly_node(a), poly_node(b)});
        r.t[{{id, 1}}] = 1; r = padd(pmul(r, cont), common); break;
      }
      case K_ITOF:
      { // linear forms become polynomials over integer symbols
        vint l = canon_lin(n->idx[0]); r = pc(Rat(l.c)); if (l.t) for (auto &p : l.t->t) { Node *q = vreal(sym_lin(p.first)).n; padd(r, {{atom("i" + to_string(p.first), q, nullptr, 0), 1}}, Rat(p.second)); } break;
      }
      case K_SUM: case K_RMAX: case K_RMIN:
      {
        Poly b = nf(n->ch[0]); string ks = to_string((int)n->k); vector<Param> ps = n->params; for (auto &p : ps) { p.lo = canon_lin(p.lo); p.hi = canon_lin(p.hi); ks += "[" + to_string(p.sym) + ":" + key(p.lo) + ".." + key(p.hi) + "]"; }
        auto one = [&](const Poly &q) { string k = "R" + ks + pkey(q); int id = atom(k, nullptr, nullptr, 0); if (!P->atoms[id]) { Node m = *n; m.params = ps; m.ch = {poly_node(q)}; P->atoms[id] = mkn(move(m)); } return id; };
        if (n->k == K_SUM)
        {
          // linearity: sum of c*m -> c * SUM(m), pulling out factors free of the bound symbols
          for (auto &t : b.t)
          {
            Mono in, out; for (auto &x : t.first) { set<int> ss; function<void(Node *)> go = [&](Node *z) { for (auto &i : z->idx) if (i.t) for (auto &q : i.t->t) ss.insert(q.first); if (z->k == K_BCOND && z->cond.L.t) for (auto &q : z->cond.L.t->t) ss.insert(q.first); for (auto c : z->ch) go(c); }; go(P->atoms[x.first]); bool dep = false; for (auto &p : ps) dep |= ss.count(p.sym) > 0; (dep ? in : out).push_back(x); }
            Poly q; q.t[in] = 1; int id = one(q); Mono m2 = mmul(out, {{id, 1}}); padd(r, m2, t.second);
          }
        }
        else r.t[{{one(b), 1}}] = 1;
        break;
      }
      case K_POISON: r.t[{{atom("p" + n->name, n, nullptr, 0), 1}}] = 1; break;
      default: throw Unsupported("normal form of boolean");
    }
    return P->nfmemo[n] = r;
  }
  static Node *poly_node(const Poly &p)
  {
    Node *s = nullptr;
    for (auto &t : p.t)
    {
      Node *m = nullptr, *dn = nullptr;
      for (auto &x : t.first)
      {
        Node *a = P->atoms[x.first]; for (int e = 0; e < labs(x.second); ++e) { if (x.second > 0) m = m ? n_mul(m, a) : a; else dn = dn ? n_mul(dn, a) : a; }
      }
      Node *c = kc(t.second); m = m ? n_mul(c, m) : c; if (dn) m = n_div(m, dn); s = s ? n_add(s, m) : m;
    }
    return s ? s : kc(0);
  }
  static long dump_budget = -1;
  static string dump_(Node *n);
  string dump(Node *n)
  {
    if (dump_budget >= 0) return dump_(n);
    dump_budget = 400; string s = dump_(n); dump_budget = -1; return s;
  }
  static string dump_(Node *n)
  {
    if (dump_budget <= 0) return "~"; --dump_budget;
    ostringstream o;
    switch (n->k)
    {
      case K_CONST: o << n->val.get_str(); break;
      case K_APP: o << base_names[n->aux]; if (n->idx.size()) { o << "("; for (size_t i = 0; i < n->idx.size(); ++i) o << (i ? "," : "") << str(n->idx[i]); o << ")"; } break;
      case K_READ: o << n->ver->st->name << "@" << n->ver->id << "("; for (size_t i = 0; i < n->idx.size(); ++i) o << (i ? "," : "") << str(n->idx[i]); o << ")"; break;
      case K_ADD: o << "(" << dump(n->ch[0]) << " + " << dump(n->ch[1]) << ")"; break;
      case K_MUL: o << dump(n->ch[0]) << "*" << dump(n->ch[1]); break;
      case K_NEG: o << "-" << dump(n->ch[0]); break;
      case K_DIV: o << "(" << dump(n->ch[0]) << ")/(" << dump(n->ch[1]) << ")"; break;
      case K_ABS: o << "|" << dump(n->ch[0]) << "|"; break;
      case K_MIN: o << "std::min(" << dump(n->ch[0]) << "," << dump(n->ch[1]) << ")"; break;
      case K_MAX: o << "std::max(" << dump(n->ch[0]) << "," << dump(n->ch[1]) << ")"; break;
      case K_ITE: o << "(" << dump(n->ch[0]) << " ? " << dump(n->ch[1]) << " : " << dump(n->ch[2]) << ")"; break;
      case K_FUN: o << n->name << "("; for (auto c : n->ch) o << dump(c) << " "; o << ")"; break;
      case K_ITOF: o << "[" << str(n->idx[0]) << "]"; break;
      case K_SUM: case K_RMAX: case K_RMIN: o << (n->k == K_SUM ? "SUM" : n->k == K_RMAX ? "MAX" : "MIN"); for (auto &p : n->params) o << "{" << P->syms[p.sym].name << "=" << str(p.lo) << ".." << str(p.hi) << "}"; o << "(" << dump(n->ch[0]) << ")"; break;
      case K_POISON: o << "<" << n->name << ">"; break;
      case K_LT: o << dump(n->ch[0]) << " < " << dump(n->ch[1]); break;
      case K_EQ: o << dump(n->ch[0]) << " == " << dump(n->ch[1]); break;
      case K_AND: o << "(" << dump(n->ch[0]) << " && " << dump(n->ch[1]) << ")"; break;
      case K_OR: o << "(" << dump(n->ch[0]) << " || " << dump(n->ch[1]) << ")"; break;
      case K_NOT: o << "!(" << dump(n->ch[0]) << ")"; break;
      case K_BCOND: o << "[" << (n->cond.neg ? "!" : "") << str(n->cond.L) << (n->cond.eq ? "==0]" : ">=0]"); break;
      default: o << "?";
    }
    return o.str();
  }
  string str(const vreal &a) { return a.n ? dump(a.n) : "null"; }
  ostream &operator<<(ostream &o, const vreal &a) { return o << str(a); }
  string poly_str(const Poly &p, int lim)
  {
    ostringstream o; int k = 0; for (auto &t : p.t) { if (k++ >= lim) { o << " ... (" << p.t.size() << " terms)"; break; } o << (k > 1 ? " + " : "") << t.second.get_str(); for (auto &x : t.first) { o << "*"; string d = dump(P->atoms[x.first]); o << (d.size() > 160 ? d.substr(0, 160) + "..." : d); if (x.second != 1) o << "^" << x.second; } }
    return p.zero() ? "0" : o.str();
  }

  // =============================================================== obligations
  static string pathdesc()
  {
    string s; for (auto &p : P->pc) if (!p.c.real) s += str(p.c.L) + (p.c.eq ? "==0" : ">=0") + (p.c.neg ? "(not)" : "") + "; "; else s += (p.c.neg ? "!(" : "(") + dump(p.c.real).substr(0, 120) + "); ";
    return s;
  }
  static void rec(const string &label, const string &kind, bool ok, const string &detail, const string &file = "", double t = 0)
  {
    Ob o; o.label = label; o.kind = kind; o.status = ok ? "proved" : (file.empty() ? "failed" : "pending"); if (o.status != "proved") o.detail = detail + " | path: " + pathdesc(); o.file = file; o.t = t; P->obs.push_back(o);
  }
  void ob_fail(const string &label, const string &why) { rec(label, "fail", false, why); }
  void ob_int(const string &label, const Cond &c) { ob_ints(label, {c}); }
  void ob_ints(const string &label, const vector<Cond> &dj)
  {
    double t0 = now();
    for (auto &c : dj) { int t = const_truth(c); if (t == 1) { rec(label, "int", true, ""); return; } }
    z3::expr e = zc->bool_val(false); for (auto &c : dj) e = e || zcond(c);
    zs->push(); zs->add(!e); auto r = zs->check(); string det; ++lia_queries;
    if (r == z3::sat) { ostringstream o; auto m = zs->get_model(); for (unsigned i = 0; i < m.num_consts(); ++i) { auto d = m.get_const_decl(i); string nm = d.name().str(); int id = atoi(nm.c_str() + 1); if (id < (int)P->syms.size()) o << P->syms[id].name << "=" << m.get_const_interp(d) << " "; } det = "counterexample " + o.str() + " violates"; for (auto &c : dj) det += " [" + str(c.L) + (c.eq ? "==0" : ">=0") + "]"; }
    zs->pop(); lia_time += now() - t0;
    rec(label, "int", r == z3::unsat, det, "", now() - t0);
  }
  void oblige_in_range(const vint &lo, const vint &hi, const vint &lb, const vint &ub, const char *what, Storage *st)
  {
    string l = string("bounds:") + what;
    vint e1 = lo - lb, e2 = ub - hi; if (!e1.t && !e2.t && e1.c >= 0 && e2.c >= 0) { counters["bounds_trivial"]++; return; }
    vector<Cond> d; Cond both;
    double t0 = now();
    z3::expr ex = (zlin(hi - lo) < 0) || (zlin(e1) >= 0 && zlin(e2) >= 0);
    string ck = "B" + key(lo) + key(hi) + key(lb) + key(ub); auto it = P->ecache.find(ck); bool ok;
    if (it != P->ecache.end()) ok = it->second;
    else { ok = zcheck(!ex) == z3::unsat; P->ecache[ck] = ok; }
    rec(l, "int", ok, "access [" + str(lo) + ".." + str(hi) + "] outside [" + str(lb) + ".." + str(ub) + "] of " + (st ? st->name : string("array")), "", now() - t0);
    if (!ok) assume(ge0(vint(0)));
  }
  void oblige_shape(const vint &a, const vint &b, const char *what)
  {
    vint d = a - b; if (!d.t && !d.c) { counters["shape_trivial"]++; return; }
    bool ok = entails(eq0(d)); rec(string("shape:") + what, "int", ok, "extent " + str(a) + " vs " + str(b));
  }
  static bool has_poison(Node *n, string &w, set<Node *> &seen)
  {
    if (!seen.insert(n).second) return false;
    if (n->k == K_POISON) { w = n->name; return true; }
    for (auto c : n->ch) if (has_poison(c, w, seen)) return true;
    return false;
  }
  // merge atoms whose indices are equal under the path condition
  static Node *merge_equal(Node *n)
  {
    map<int, vector<Node *>> by; set<Node *> seen; function<void(Node *)> go = [&](Node *x) { if (!seen.insert(x).second) return; if (x->k == K_APP && x->idx.size()) by[x->aux].push_back(x); for (auto c : x->ch) go(c); };
    go(n); map<Node *, Node *> rep;
    for (auto &b : by) for (size_t i = 0; i < b.second.size(); ++i) for (size_t j = 0; j < i; ++j)
    {
      Node *x = b.second[i], *y = b.second[j]; if (rep.count(y)) continue; bool eq = true;
      for (size_t d = 0; d < x->idx.size() && eq; ++d) { vint df = x->idx[d] - y->idx[d]; if (!df.t && !df.c) continue; eq = entails(eq0(df)); }
      if (eq) { rep[x] = y; break; }
    }
    if (rep.empty()) return n;
    map<Node *, Node *> memo; function<Node *(Node *)> sub = [&](Node *x) -> Node * { auto r = rep.find(x); if (r != rep.end()) return r->second; auto it = memo.find(x); if (it != memo.end()) return it->second; Node *q = x; if (x->ch.size()) { vector<Node *> ch; bool chg = false; for (auto c : x->ch) { auto d = sub(c); chg |= d != c; ch.push_back(d); } if (chg) q = rebuild(x, move(ch)); } return memo[x] = q; };
    return sub(n);
  }
  static Ver *newest_read(const Poly &p)
  {
    Ver *best = nullptr; set<Node *> seen; function<void(Node *)> go = [&](Node *x) { if (!x || !seen.insert(x).second) return; if (x->k == K_READ && !P->expand.count(x->ver) && !P->blocked.count(x->ver) && (!best || x->ver->id > best->id)) best = x->ver; for (auto c : x->ch) go(c); };
    for (auto &t : p.t) for (auto &x : t.first) go(P->atoms[x.first]);
    return best;
  }
  static string smt_emit(const string &label, Node *goal /*boolean node to be valid*/, const vector<Node *> &lem);
  static Poly clear_denoms(const Poly &p)
  {
    // multiply by every inverse-polynomial atom with negative exponent, expanding it
    Poly r = p;
    for (int it = 0; it < 64; ++it)
    {
      int at = -1, e = 0; for (auto &t : r.t) for (auto &x : t.first) if (x.second < 0 && P->atomkey[x.first][0] == 'I') { if (x.second < e) { at = x.first; e = x.second; } }
      if (at < 0) return r;
      Poly q; Mono up{{at, -e}};
      for (auto &t : r.t) { Mono m = mmul(t.first, up); if (needfix(m)) { Poly z = fix(m, t.second); for (auto &y : z.t) padd(q, y.first, y.second); } else padd(q, m, t.second); }
      r = q;
    }
    return r;
  }
  static bool nf_zero(Node *d, string &why)
  {
    Ver *last = nullptr;
    for (int it = 0; it < 400; ++it)
    {
      Poly p; try { P->nfmemo.clear(); p = nf(d); if (p.zero()) return true; if (newest_read(p) == nullptr) { if (clear_denoms(p).zero()) return true; } why = poly_str(p); }
      catch (NFTooBig &e) { why = e.what(); if (it > 200) return false; }
      Ver *v = newest_read(p); 
      if (!v) break;
      last = v; P->expand.insert(v);
    }
    (void)last;
    return false;
  }
  // equality by cases on the real conditions of if-then-else terms
  static bool nf_cases(Node *d, string &why, int depth, int &leaves, double until)
  {
    if (--leaves < 0 || now() > until) return false;
    Poly p; try { P->nfmemo.clear(); p = nf(d); } catch (NFTooBig &e) { why = e.what(); return false; }
    if (p.zero() || clear_denoms(p).zero()) return true;
    why = poly_str(p); if (depth == 0) return false;
    // the condition that guards the most terms of the difference
    map<string, int> cnt; set<int> seen; function<void(int, int)> scan = [&](int a, int w) { if (!seen.insert(a).second && w == 1) return; auto f = P->atomcond.find(a); if (f != P->atomcond.end()) cnt[f->second] += w; for (auto &t : P->atompoly[a].t) for (auto &x : t.first) scan(x.first, 1); };
    for (auto &t : p.t) for (auto &x : t.first) scan(x.first, 100);
    if (cnt.empty()) return false;
    string best; int bn = -1; for (auto &c : cnt) if (c.second > bn) { bn = c.second; best = c.first; }
    for (int v = 0; v < 2; ++v) { P->condval[best] = v; bool ok = nf_cases(d, why, depth - 1, leaves, until); P->condval.erase(best); if (!ok) { P->nfmemo.clear(); return false; } }
    P->nfmemo.clear(); counters["eq_by_cases"]++; return true;
  }
  // case analysis that stays local to one obligation: every decision taken inside f is explored, none leaks to the path
  static void local_split_(const function<void()> &f, int scoped);
  static void local_split(const function<void()> &f) { local_split_(f, 0); }
  // as local_split; in addition assumptions made and symbols created inside f are forgotten afterwards
  void scope(const function<void()> &f) { local_split_(f, 1); }
  static void local_split_(const function<void()> &f, int scoped)
  {
    if (P->local) { f(); return; }
    size_t nsym = P->syms.size(); auto divs = P->divs; auto prods = P->prods; auto lem = P->lemmas; P->scoped = scoped;
    Loop L; L.pseudo = true; open_level(L); P->loops.push_back(L); size_t li = P->loops.size() - 1; size_t naccs = P->acc.size();
    auto nm = move(P->nfmemo); auto eq = P->eqs; auto ex = P->expand; P->local = li + 1;
    auto fin = [&] { pop_to(P->loops[li]); P->loops.pop_back(); P->local = 0; P->scoped = 0; P->divs = divs; P->prods = prods; if (scoped) P->lemmas = lem; P->rmemo.trim(1); P->resmemo.trim(1); P->nfmemo = move(nm); P->eqs = eq; P->expand = ex; P->acc.resize(naccs); };
    try
    {
      for (;;)
      {
        P->nfmemo.clear(); P->eqs = eq; P->expand = ex; counters["local_cases"]++;
        if (scoped) { P->syms.resize(nsym); P->divs = divs; P->prods = prods; P->lemmas = lem; }
        for (auto &d : P->loops[li].dec) pc_add(d.val ? d.c : cnot(d.c), P->local);   // the decisions of this case, up front
        P->loops[li].pos = P->loops[li].dec.size();
        if (scoped) { try { f(); } catch (Infeasible &) {} } else f();
        Loop &R = P->loops[li];
        if (!next_variant(R)) break;
        P->rmemo.trim(scoped + R.dec.size()); P->resmemo.trim(scoped + R.dec.size());
        pop_to(R); zpush(); P->ecache.clear(); R.pc0 = P->pc.size();
      }
    }
    catch (...) { fin(); throw; }
    fin();
  }
  static vector<Node *> active_lemmas() { vector<Node *> l; for (auto &x : P->lemmas) l.push_back(x.first); return l; }
  static void ob_eq_(const string &label, const vreal &a, const vreal &b);
  void ob_eq(const string &label, const vreal &a, const vreal &b) { local_split([&] { ob_eq_(label, a, b); }); }
  static void ob_eq_(const string &label, const vreal &a, const vreal &b)
  {
    double t0 = now(); string why;
    if (a.n == b.n || resolve_node(a.n) == resolve_node(b.n))
    {
      set<Node *> s; string w; Node *r = resolve_node(a.n); if (has_poison(r, w, s)) { rec(label, "eq", false, "value depends on " + w); return; }
      rec(label, "eq-syntactic", true, "", "", now() - t0); return;
    }
    Node *d = n_add(a.n, n_neg(b.n));
    P->expand.clear();
    bool ok = nf_zero(d, why);
    if (ok) { string w; set<Node *> s; if (has_poison(resolve_node(a.n), w, s)) { rec(label, "eq", false, "value depends on " + w); return; } rec(label, "eq-ring", true, "", "", now() - t0); return; }
    Node *rd = resolve_node(d); { string w; set<Node *> s; if (has_poison(rd, w, s)) { rec(label, "eq", false, "value depends on " + w); return; } }
    rd = merge_equal(rd); P->expand.clear(); string why2; if (nf_zero(rd, why2)) { rec(label, "eq-ring", true, "", "", now() - t0); return; }
    { P->expand.clear(); int leaves = 400; string w3; if (nf_cases(rd, w3, 14, leaves, now() + 4)) { rec(label, "eq-cases", true, "", "", now() - t0); return; } }
    Node *ra = merge_equal(resolve_node(a.n)), *rb = merge_equal(resolve_node(b.n));
    string f = smt_emit(label, merge_equal(op(K_EQ, {ra, rb})), active_lemmas());
    rec(label, "eq", false, "difference = " + why2, f, now() - t0);
  }
  static void ob_true_(const string &label, const vbool &b);
  void ob_true(const string &label, const vbool &b) { local_split([&] { ob_true_(label, b); }); }
  static void ob_true_(const string &label, const vbool &b)
  {
    Node *r = resolve_node(b.n); string w; set<Node *> s; if (has_poison(r, w, s)) { rec(label, "real", false, "value depends on " + w); return; }
    bool k; if (node_const_bool(r, k)) { rec(label, "real-const", k, "constant false"); return; }
    r = merge_equal(r);
    string f = smt_emit(label, r, active_lemmas()); rec(label, "real", false, "", f);
  }
  void ob_le(const string &label, const vreal &a, const vreal &b)
  {
    vreal d = b - a; Node *r = resolve_node(d.n); string why; 
    if (r->k == K_CONST) { rec(label, "real-const", r->val >= 0, "constant negative"); return; }
    ob_true(label, r_le(a, b));
  }
  void clear_lemmas() { if (!P->scoped) throw Unsupported("clear_lemmas outside a scope"); P->lemmas.clear(); }
  void assume_real(const vbool &b) { P->lemmas.push_back({resolve_node(b.n), ""}); }
  void hint(const vbool &l, const string &label) { ob_true(label, l); P->lemmas.push_back({resolve_node(l.n), label}); }
  void ob_cover(const string &label) { counters["cover:" + label]++; }
  void count_checked(const string &fn) { counters["fn:" + fn]++; }
  // --- sum over a box of cells is zero.  Summation is re-indexed term by term; every re-indexing is justified by an
  // explicit boundary obligation  atom(cell = lo + j) == atom(cell = hi + 1 + j)  (all real reads, no formal extension).
  static bool eq_quiet(Node *x, Node *y, string &why)
  {
    if (tracing2) { function<bool(Node *, int)> f = [&](Node *n, int dep) -> bool { if (n->k == K_POISON) { cerr << "POISON " << n->name << "\n"; return true; } if (n->k == K_READ) { if (f(resolve_read(n->ver, n->idx), dep + 1)) { cerr << "  via " << dump(n) << "\n"; return true; } return false; } for (auto c : n->ch) if (f(c, dep + 1)) return true; return false; }; if (has_poison(resolve_node(x), why, *new set<Node*>)) f(x, 0); }
    if (x == y) { set<Node *> s; string w; if (has_poison(resolve_node(x), w, s)) { why = "value depends on " + w; return false; } return true; }
    { Node *rx = resolve_node(x), *ry = resolve_node(y); if (rx != ry) { Node *m = merge_equal(op(K_EQ, {rx, ry})); rx = m->ch.size() == 2 ? m->ch[0] : rx; ry = m->ch.size() == 2 ? m->ch[1] : ry; }
      if (rx == ry) { set<Node *> s; string w; if (has_poison(rx, w, s)) { why = "value depends on " + w; return false; } counters["eq_congruence"]++; return true; } }
    if (P->quick_eq) { why = "not congruent"; return false; }
    auto ex = P->expand; P->expand.clear(); P->nfmemo.clear(); Node *d = n_add(x, n_neg(y)); bool ok = nf_zero(d, why);
    set<Node *> s; string w; Node *rx = resolve_node(x);
    if (has_poison(rx, w, s) || has_poison(resolve_node(y), w, s)) { why = "value depends on " + w; ok = false; }
    else if (!ok) { P->expand.clear(); P->nfmemo.clear(); ok = nf_zero(merge_equal(resolve_node(d)), why); }
    P->expand = ex; P->nfmemo.clear(); return ok;
  }
  static void node_offsets(Node *n, int sym, set<long> &off, bool &odd)
  {
    set<Node *> seen; function<void(Node *)> go = [&](Node *x) {
      if (!seen.insert(x).second) return;
      for (auto &i : x->idx) if (i.t) { long co = 0; for (auto &q : i.t->t) if (q.first == sym) co = q.second; if (co == 1) off.insert(i.c); else if (co) odd = true; }
      for (auto &p : x->params) for (auto *l : {&p.lo, &p.hi}) if (l->t) for (auto &q : l->t->t) if (q.first == sym) odd = true;
      if (x->k == K_BCOND && x->cond.L.t) for (auto &q : x->cond.L.t->t) if (q.first == sym) odd = true;
      for (auto c : x->ch) go(c); };
    go(n);
  }
  static Poly nf_folded(Node *a) { return nf(a); }
  void ob_telescopes(const string &label, const vreal &D, const vector<vint> &cell, const vector<vint> &lo, const vector<vint> &hi)
  {
    // D(c) is rewritten as ONE expression valid for every cell c of the box: while it is expanded, no decision on the
    // cell symbols may be taken (nodecide); a definition whose shape depends on the cell stays folded.
    double t0 = now(); vector<int> cs; for (auto &c : cell) cs.push_back(c.t->t[0].first);
    P->expand.clear(); P->blocked.clear(); string why; Ver *lastv = nullptr;
    { set<int> ss(cs.begin(), cs.end()); for (auto &i : P->pc) if (i.c.real && mentions(i.c, ss)) { rec(label, "sum", false, "data-dependent condition on the cell"); return; } }
    struct Guard { ~Guard() { if (P) { P->nodecide.clear(); P->blocked.clear(); } } } guard;
    try
    {
      for (int it = 0; it < 400; ++it)
      {
        P->nodecide.clear(); P->nodecide.insert(cs.begin(), cs.end());
        Poly p; string bad; map<pair<size_t, pair<Node *, long>>, bool> need; // (dim, atom, shift)
        try
        {
          P->nfmemo.clear(); p = nf(D.n);
          for (size_t d = 0; d < cs.size(); ++d)
          {
            Poly sum;
            for (auto &t : p.t)
            {
              set<long> off; bool odd = false; for (auto &x : t.first) node_offsets(P->atoms[x.first], cs[d], off, odd);
              if (odd) bad = "index not of the form cell+const";
              if (off.empty() || odd || *off.rbegin() == 0) { padd(sum, t.first, t.second); continue; }   // canonical: largest offset 0
              long sh = -*off.rbegin(); map<int, vint> m{{cs[d], cell[d] + vint(sh)}};
              Poly q = pc(t.second);
              for (auto &x : t.first)
              {
                Node *a0 = P->atoms[x.first]; Node *a = subst_node(a0, m); if (a != a0) need[{d, {a0, sh}}] = true;
                bool inv = P->atomkey[x.first][0] == 'I'; Poly pa = inv ? pinv(nf_folded(a)) : nf_folded(a); if (inv) { for (int e = 0; e < -x.second; ++e) q = pmul(q, pa); continue; }
                if (x.second < 0) pa = pinv(pa); for (int e = 0; e < labs(x.second); ++e) q = pmul(q, pa);
              }
              for (auto &y : q.t) padd(sum, y.first, y.second);
            }
            p = sum;
          }
        }
        catch (NoDecide &) { if (lastv) { P->expand.erase(lastv); P->blocked.insert(lastv); lastv = nullptr; why = "a definition depends on the cell position"; if (tracing) cerr << "telescope: blocked\n"; continue; } throw Unsupported("telescoping: cell-dependent normal form"); }
        P->nodecide.clear();
        if (p.zero())
        {
          bool all = true; string w2; map<int, vint> fr;   // fresh names for the cell symbols in boundary obligations
          for (size_t d = 0; d < cs.size(); ++d) { vint j = fresh_int("j"); assume(ge0(j - lo[d])); assume(ge0(hi[d] - j)); fr[cs[d]] = j; }
          for (auto &n : need)
          {
            size_t d = n.first.first; Node *a = n.first.second.first; long sh = n.first.second.second;
            // sum_{c=lo..hi} a(c) == sum_{c=lo..hi} a(c+sh)
            local_split([&] {
              for (long j = 0; j < labs(sh) && all; ++j)
              {
                vint x = sh < 0 ? lo[d] + vint(sh + j) : lo[d] + vint(j), y = sh < 0 ? hi[d] + vint(sh + 1 + j) : hi[d] + vint(1 + j);
                auto mx = fr, my = fr; mx[cs[d]] = x; my[cs[d]] = y;
                Node *ax = subst_node(a, mx), *ay = subst_node(a, my); string w1;
                if (!eq_quiet(ax, ay, w1)) { all = false; w2 = "periodicity of " + dump(a).substr(0, 300) + " at " + str(x) + " vs " + str(y) + ": " + w1.substr(0, 1500) + " | " + pathdesc(); }
                else counters["periodicity_obligations"]++;
              } });
            if (!all) break;
          }
          if (all)
          {
            string pw; local_split([&] { string w; set<Node *> s; if (has_poison(resolve_node(subst_node(D.n, fr)), w, s)) pw = w; });
            if (pw.size()) { rec(label, "sum", false, "value depends on " + pw); return; }
            rec(label, "sum-reindex", true, "", "", now() - t0); return;
          }
          why = w2; if (tracing) cerr << "telescope step: " << w2.substr(0, 900) << "\n";
        }
        else why = (bad.size() ? bad + "; " : "") + "residual = " + poly_str(p);
        P->nodecide.insert(cs.begin(), cs.end());
        Ver *v = newest_read(p); if (!v) { try { v = newest_read(nf(D.n)); } catch (NoDecide &) {} } 
        if (!v) break; lastv = v; P->expand.insert(v);
      }
    }
    catch (NFTooBig &e) { why = e.what(); }
    rec(label, "sum", false, why, "", now() - t0);
  }

  // =============================================================== SMT-LIB emission (reals)
  struct Smt
  {
    int ndef = 0;
    ostringstream decl, defs; map<Node *, string> nm; map<string, string> vars; map<string, int> funs; vector<string> facts; set<string> bases;
    string q(const Rat &r) { string s; mpz_class n = r.get_num(), d = r.get_den(); bool neg = n < 0; if (neg) n = -n; s = n.get_str() + ".0"; if (d != 1) s = "(/ " + s + " " + d.get_str() + ".0)"; return neg ? "(- " + s + ")" : s; }
    string var(const string &key, const string &hint) { auto it = vars.find(key); if (it != vars.end()) return it->second; string v = "v" + to_string(vars.size()); vars[key] = v; decl << "(declare-const " << v << " Real) ; " << hint << "\n"; return v; }
    string ref(Node *n)
    {
      auto it = nm.find(n); if (it != nm.end()) return it->second;
      string s; bool boolean = n->k >= K_LT;
      switch (n->k)
      {
        case K_CONST: return nm[n] = q(n->val);
        case K_APP: { string h = dump(n); string v = var("n" + to_string(n->id), h); const string &b = base_names[n->aux]; if (pos_b.count(b)) facts.push_back("(> " + v + " 0.0)"); else if (nonneg_b.count(b)) facts.push_back("(>= " + v + " 0.0)"); return nm[n] = v; }
        case K_ITOF: { vint l = canon_lin(n->idx[0]); string e = q(Rat(l.c)); if (l.t) for (auto &p : l.t->t) { string v = var("i" + to_string(p.first), P->syms[p.first].name); e = "(+ " + e + " (* " + q(Rat(p.second)) + " " + v + "))"; } return nm[n] = e; }
        case K_ADD: s = "(+ " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_MUL: s = "(* " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_NEG: s = "(- " + ref(n->ch[0]) + ")"; break;
        case K_DIV: s = "(/ " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_ABS: { string a = ref(n->ch[0]); s = "(ite (>= " + a + " 0.0) " + a + " (- " + a + "))"; break; }
        case K_MIN: { string a = ref(n->ch[0]), b = ref(n->ch[1]); s = "(ite (<= " + a + " " + b + ") " + a + " " + b + ")"; break; }
        case K_MAX: { string a = ref(n->ch[0]), b = ref(n->ch[1]); s = "(ite (>= " + a + " " + b + ") " + a + " " + b + ")"; break; }
        case K_ITE: s = "(ite " + ref(n->ch[0]) + " " + ref(n->ch[1]) + " " + ref(n->ch[2]) + ")"; break;
        case K_FUN:
        {
          string as; for (auto c : n->ch) as += " " + ref(c);
          if (n->name == "sqrt") { string v = var("n" + to_string(n->id), "sqrt"); string a = ref(n->ch[0]); facts.push_back("(>= " + v + " 0.0)"); facts.push_back("(=> (>= " + a + " 0.0) (= (* " + v + " " + v + ") " + a + "))"); return nm[n] = v; }
          if (!funs.count(n->name)) { funs[n->name] = n->ch.size(); decl << "(declare-fun f_" << n->name << " ("; for (size_t i = 0; i < n->ch.size(); ++i) decl << "Real "; decl << ") Real)\n"; }
          s = "(f_" + n->name + as + ")"; break;
        }
        case K_LT: s = "(< " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_EQ: s = "(= " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_AND: s = "(and " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_OR: s = "(or " + ref(n->ch[0]) + " " + ref(n->ch[1]) + ")"; break;
        case K_NOT: s = "(not " + ref(n->ch[0]) + ")"; break;
        default: { string v = var("n" + to_string(n->id), "opaque"); if (n->k == K_RMAX || n->k == K_SUM) {} return nm[n] = v; }
      }
      string v = "d" + to_string(++ndef); defs << "(define-fun " << v << " () " << (boolean ? "Bool " : "Real ") << s << ")\n"; return nm[n] = v;
    }
  };
  static string smt_emit(const string &label, Node *goal, const vector<Node *> &lem)
  {
    Smt S; vector<string> asr;
    for (auto &r : P->rpc) { Node *x = merge_equal(resolve_node(r.first)); if (x->k == K_BCOND) continue; string b = S.ref(x); asr.push_back(r.second ? b : "(not " + b + ")"); }
    // lemmas: merged jointly with the goal so that equal indices share a variable
    Node *g = goal; for (auto l : lem) g = op(K_AND, {g, l}); g = merge_equal(g);
    vector<Node *> parts; for (size_t i = 0; i < lem.size(); ++i) { parts.push_back(g->ch[1]); g = g->ch[0]; }
    for (auto l : parts) asr.push_back(S.ref(l));
    string gs = S.ref(g);
    ostringstream o; o << "; " << label << "\n(set-logic ALL)\n" << S.decl.str();
    o << S.defs.str(); for (auto &f : S.facts) o << "(assert " << f << ")\n"; for (auto &a : asr) o << "(assert " << a << ")\n";
    o << ";GOAL\n(assert (not " << gs << "))\n(check-sat)\n";
    string body = o.str(), key; { istringstream is(body); string l; while (getline(is, l)) key += l.substr(0, l.find(" ; ")) + "\n"; key = key.substr(key.find('\n')); } static map<string, string> cache; auto it = cache.find(key); if (it != cache.end()) return it->second;
    string fn = outdir + "/" + unitname + "_" + to_string(smt_count++) + ".smt2"; ofstream(fn) << body; cache[key] = fn; return fn;
  }

  // =============================================================== races
  size_t access_count() { if (!P->loops.empty()) throw Unsupported("synchronisation inside a summarised loop"); return P->acc.size(); }
  void phase_end(Phase &ph, const vector<Storage *> &sts) { ph.a1 = access_count(); for (auto st : sts) ph.end[st] = st->head; }
  // contents: a fresh function of the index (or one fresh constant) with the given name
  void refill(Storage *st, const string &name, bool constant)
  {
    vector<Param> ps; vector<vint> idx;
    for (int d = 0; d < st->rank; ++d) { int s = fresh_param("f"); ps.push_back({s, st->lo[d], st->hi[d]}); idx.push_back(sym_lin(s)); }
    Entry e; e.params = ps; e.idx = idx; e.val = constant ? app(base_fun(name), {}) : app(base_fun(name), idx); push_entry(st, e);
  }
  // symbol-independent text of an access region
  static string region_key(const Acc &a)
  {
    map<int, vint> m; string k; int n = 0;
    for (auto &p : a.params) { vint lo = subst_lin(p.lo, m), hi = subst_lin(p.hi, m); k += key(lo) + key(hi) + ","; string nm = "%" + to_string(n++); auto it = P->named.find(nm); int s; if (it == P->named.end()) { s = new_sym(nm, 0); P->named[nm] = vreal(sym_lin(s)).n; } else s = it->second->idx[0].t->t[0].first; m[p.sym] = sym_lin(s); }
    for (auto &i : a.idx) k += key(subst_lin(i, m)) + ";";
    for (auto &g : a.guards) if (!g.real) { Cond c = g; c.L = subst_lin(g.L, m); k += ckey(c); } else k += "R" + to_string(subst_node(g.real, m)->id) + (g.neg ? "!" : "");
    if (a.val) k += "v" + to_string(a.val->k == K_READ && !a.write ? a.val->ver->id : subst_node(a.val, m)->id);
    return k;
  }
  static Node *read_at(Ver *v, const vector<vint> &idx) { Node n; n.k = K_READ; n.ver = v; n.idx = idx; return mkn(move(n)); }
  // the access at an arbitrary element of its region (inside a scope): index and value; false when a data-dependent guard is involved
  static void generic(const Acc &a, map<int, vint> &m, vector<vint> &idx)
  {
    for (auto &p : a.params) { vint f = fresh_int("p"); vint lo = subst_lin(p.lo, m), hi = subst_lin(p.hi, m); assume(ge0(f - lo)); assume(ge0(hi - f)); m[p.sym] = f; }
    for (auto &g : a.guards) if (!g.real) { Cond c = g; c.L = subst_lin(g.L, m); assume(c); }
    for (auto &i : a.idx) idx.push_back(subst_lin(i, m));
  }
  // interval of index d over the region when it is affine in one parameter with coefficient 1
  static bool span_of(const Acc &a, int d, vint &lo, vint &hi)
  {
    const vint &x = a.idx[d]; lo = hi = x; if (!x.t) return true;
    for (auto &p : a.params) { long co = 0; for (auto &q : x.t->t) if (q.first == p.sym) co = q.second; if (!co) continue; if (co != 1) return false; map<int, vint> l{{p.sym, p.lo}}, h{{p.sym, p.hi}}; lo = subst_lin(lo, l); hi = subst_lin(hi, h); }
    for (auto &p : a.params) { for (auto v : {&lo, &hi}) if (v->t) for (auto &q : v->t->t) if (q.first == p.sym) return false; }
    return true;
  }
  static bool apart(const Acc &a, const Acc &b)
  {
    for (size_t d = 0; d < a.idx.size(); ++d) { vint l1, h1, l2, h2; if (!span_of(a, d, l1, h1) || !span_of(b, d, l2, h2)) continue; if (entails(ge0(l2 - h1 - vint(1))) || entails(ge0(l1 - h2 - vint(1)))) return true; }
    return false;
  }
  static bool same_value(Node *a, Node *b) { if (resolve_node(a) == resolve_node(b)) return true; string why; P->expand.clear(); return nf_zero(n_add(a, n_neg(b)), why); }
  // Every store of a thread must end up with the value the single thread leaves there, and every part of the domain must be stored by its owner.
  // A value that a thread reads where another thread stores a different one meanwhile must not reach anything the reader leaves behind at the
  // end of the phase (stored values, conditions taken), except cells set aside as undefined, on which nothing may depend at any time
  // (check_undefined).
  static void apps_of(Node *v, const string &name, vector<Node *> &out) { set<Node *> seen; string pre = name + "@"; function<void(Node *)> go = [&](Node *x) { if (!seen.insert(x).second) return; if (x->k == K_APP && base_names[x->aux].compare(0, pre.size(), pre) == 0) out.push_back(x); for (auto c : x->ch) go(c); }; go(v); if (out.size() > 400) throw Unsupported("too many reads in a racing phase"); }
  // every occurrence of the array in the value, each in a scope of its own
  static void each_app(const function<Node *()> &val, const string &name, const function<void(Node *)> &f)
  {
    for (size_t r = 0;; ++r) { bool any = false; scope([&] { vector<Node *> as; apps_of(val(), name, as); if (r >= as.size()) return; any = true; f(as[r]); }); if (!any) break; }
  }
  // assume that the cell x of application n lies in the region of access w; false when that is impossible
  static bool meet(const Acc &w, Node *n, map<int, vint> &m)
  {
    vector<vint> y; generic(w, m, y);
    for (size_t d = 0; d < y.size(); ++d) { vint df = n->idx[d] - y[d]; if (!df.t) { if (df.c) return false; } else { if (entails(ge0(df - vint(1))) || entails(ge0(-df - vint(1)))) return false; assume(eq0(df)); } }
    return !entails(ge0(vint(-1)));
  }
  void check_undefined(const string &label, const vector<Shared> &sh, const vector<Phase> &ph)
  {
    if (P->undef.empty()) return;
    auto scan = [&](const function<Node *()> &val, const string &l) { for (auto &u : P->undef) each_app(val, u.first, [&](Node *x) { Acc w = u.second; map<int, vint> m; if (!meet(w, x, m)) return; ob_eq(l, 0, 1); }); };
    for (auto &p : ph) for (auto &a : sh) { set<string> seen; for (size_t i = p.a0; i < p.a1; ++i) if (P->acc[i].st == a.p && P->acc[i].write && seen.insert(region_key(P->acc[i])).second) { counters["undefined_scans"]++; Acc w = P->acc[i]; scan([&] { map<int, vint> m; vector<vint> x; generic(w, m, x); return resolve_node(read_at(p.end.at(a.p), x)); }, label + a.name + ": a stored value depends on a cell that two threads race for"); } }
    for (auto &c : P->rpc) scan([&] { return c.first; }, label + "a decision depends on a cell that two threads race for");
  }
  void compare_phase(const string &label, const vector<Shared> &sh, const Phase &one, const vector<Phase> &th, const vector<array<vint, 2>> &own, int dim, const vector<pair<int, int>> &pairs)
  {
    auto pick = [&](const Phase &ph, Storage *st, bool wr) { vector<size_t> r; set<string> seen; for (size_t i = ph.a0; i < ph.a1; ++i) if (P->acc[i].st == st && P->acc[i].write == wr && seen.insert(region_key(P->acc[i])).second) r.push_back(i); return r; };
    vector<vector<size_t>> w1; vector<vector<vector<size_t>>> W(sh.size()); for (size_t n = 0; n < sh.size(); ++n) { w1.push_back(pick(one, sh[n].s, true)); for (auto &t : th) W[n].push_back(pick(t, sh[n].p, true)); }
    for (size_t na = 0; na < sh.size(); ++na)
    {
      auto &a = sh[na]; size_t nw = w1[na].size(); for (auto &w : W[na]) nw += w.size();
      if (!nw) continue;
      string l = label + " " + a.name + ": ";
      if (a.same)
      {
        Ver *e1 = one.end.at(a.s);
        for (size_t k = 0; k < th.size(); ++k)
        {
          Ver *ek = th[k].end.at(a.p);
          for (auto i : W[na][k]) scope([&] { map<int, vint> m; vector<vint> x; Acc w = P->acc[i]; generic(w, m, x); counters["phase_writes"]++; ob_eq(l + "thread stores what the single thread stores", read_at(ek, x), read_at(e1, x)); });
          for (auto i : w1[na]) scope([&] { map<int, vint> m; vector<vint> x; Acc w = P->acc[i]; generic(w, m, x); assume(ge0(x[dim] - own[k][0])); assume(ge0(own[k][1] - x[dim])); counters["phase_coverage"]++; ob_eq(l + "owner stores what the single thread stores", read_at(ek, x), read_at(e1, x)); });
        }
      }
      vector<vector<size_t>> R; for (auto &t : th) R.push_back(pick(t, a.p, false));
      // values thread q leaves behind do not depend on what it finds in the region of write i
      set<pair<size_t, int>> done;
      auto unused = [&](size_t i, int q) {
        if (!done.insert({i, q}).second) return;
        const string what = l + "nothing left behind depends on what another thread stores at the same time";
        for (size_t n = 0; n < sh.size(); ++n) for (auto j : W[n][q])
        {
          Acc st = P->acc[j], w = P->acc[i]; map<int, vint> m, sm; size_t pc0 = P->pc.size();
          each_app([&] { sm.clear(); vector<vint> x; generic(st, sm, x); return resolve_node(read_at(th[q].end.at(sh[n].p), x)); }, a.name, [&](Node *x) {
            m.clear(); if (!meet(w, x, m)) return; counters["phase_scanned"]++;
            Node *wv = subst_node(w.val, m); if (!sh[n].scratch || same_value(wv, x)) { ob_eq(what, vreal(wv), vreal(x)); return; }
            // the stored cells concerned: those of the store whose source meets the region of the other thread's store
            Acc u = st; map<int, vint> back; for (auto &p : st.params) back[sm.at(p.sym).t->t[0].first] = sym_lin(p.sym); for (auto &p : w.params) { back[m.at(p.sym).t->t[0].first] = sym_lin(p.sym); u.params.push_back(p); }
            u.guards.clear(); for (size_t c = pc0; c < P->pc.size(); ++c) if (!P->pc[c].c.real) { Cond k = P->pc[c].c; k.L = subst_lin(k.L, back); u.guards.push_back(k); }
            P->undef.push_back({sh[n].name, u}); counters["undefined_cells"]++;
          });
        }
        for (auto &c : P->rpc) each_app([&] { return c.first; }, a.name, [&](Node *x) { map<int, vint> m; Acc w = P->acc[i]; if (meet(w, x, m)) ob_eq(what, vreal(subst_node(w.val, m)), vreal(x)); });
      };
      for (auto &kl : pairs) for (int sw = 0; sw < 2; ++sw)
      {
        int k = sw ? kl.second : kl.first, q = sw ? kl.first : kl.second;
        for (auto i : W[na][k]) for (auto j : R[q])
        {
          counters["phase_pairs"]++;
          if (apart(P->acc[i], P->acc[j])) continue;
          if (!may_overlap(P->acc[i], P->acc[j], {}, zc->bool_val(true))) continue;
          bool dead = false;
          scope([&] {
            map<int, vint> m, n; vector<vint> x, y; Acc w = P->acc[i], b = P->acc[j]; generic(w, m, x); generic(b, n, y);
            for (size_t d = 0; d < x.size(); ++d) { vint df = x[d] - y[d]; if (df.t || df.c) assume(eq0(df)); }
            vector<pair<Node *, bool>> rg; for (auto &g : w.guards) if (g.real) rg.push_back({resolve_node(subst_node(g.real, m)), g.neg}); for (auto &g : b.guards) if (g.real) rg.push_back({resolve_node(subst_node(g.real, n)), g.neg});
            for (auto &u : rg) for (auto &v : rg) if (u.first == v.first && u.second != v.second) return;
            for (auto &u : rg) { vbool c{u.first}; assume_real(u.second ? r_not(c) : c); }
            counters["phase_conflicts"]++;
            Node *wv = subst_node(w.val, m), *rv = resolve_node(subst_node(b.val, n));
            if (rv->k == K_APP && base_names[rv->aux].compare(0, a.name.size() + 1, a.name + "@") == 0 && !same_value(wv, rv)) { dead = true; return; }
            ob_eq(l + "thread reads what another thread stores at the same time", vreal(wv), vreal(rv));
          });
          if (dead) unused(i, q);
        }
      }
    }
  }

  // =============================================================== driver
  static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
  int run_all(const function<void()> &f, const string &unit)
  {
    outdir = getenv("SYM_OUT") ? getenv("SYM_OUT") : "."; unitname = unit; mkdir(outdir.c_str(), 0777);
    if (getenv("SYM_MAXPATHS")) max_paths = atol(getenv("SYM_MAXPATHS"));
    double t0 = now(); double tmax = getenv("SYM_TMAX") ? atof(getenv("SYM_TMAX")) : 600;
    z3::context ctx; zc = &ctx; string unsup; long paths = 0, restarts = 0, rejected = 0, infeas = 0;
    worklist.push_back({}); map<string, long> agg_ok, kinds; vector<Ob> bad; map<string, long> labels; long total = 0;
    map<string, long> pendcnt; for (auto b : {"REAL_TINY", "REAL_EPS", "REAL_MAX"}) declare_pos(b);
    while (!worklist.empty())
    {
      auto pre = worklist.back(); worklist.pop_back();
      if (++paths > max_paths || now() - t0 > tmax) { unsup = "path/time budget exceeded"; break; }
      Path path; P = &path; P->pre = pre; z3::solver s(ctx, z3::solver::simple()); zs = &s; stamp_ctr = 2;
      bool keep = true;
      size_t wl = worklist.size();
      try { f(); if (!P->loops.empty()) throw Unsupported("loop left open at path end"); }
      catch (Restart &) { keep = false; worklist.resize(wl); worklist.push_back(pre); if (++restarts > 3000) { unsup = "too many restarts"; } --paths; }
      catch (Infeasible &) { keep = false; ++infeas; }
      catch (PathEnd &) { ++rejected; }
      catch (Unsupported &e) { unsup = e.what(); keep = false; }
      catch (NFTooBig &e) { unsup = e.what(); keep = false; }
      catch (exception &e) { rec("no-unexpected-exception", "exception", false, string("exception escaped: ") + e.what()); }
      if (keep) for (auto &o : P->obs)
      {
        ++total; kinds[o.kind]++; labels[o.label]++;
        if (o.status == "proved") agg_ok[o.label]++;
        else if (o.status == "pending" && pendcnt[o.file]++) {}
        else bad.push_back(o);
      }
      P = nullptr; zs = nullptr;
      if (!unsup.empty()) break;
    }
    ofstream out(outdir + "/" + unit + ".json");
    out << "{\"unit\":\"" << unit << "\",\"unsupported\":\"" << jesc(unsup) << "\",\"paths\":" << paths << ",\"restarts\":" << restarts << ",\"rejected\":" << rejected << ",\"infeasible\":" << infeas
        << ",\"obligations\":" << total << ",\"wall\":" << now() - t0 << ",\"lia_time\":" << lia_time << ",\"lia_queries\":" << lia_queries << ",\"proved\":{";
    bool c = false; for (auto &a : agg_ok) { out << (c ? "," : "") << "\"" << jesc(a.first) << "\":" << a.second; c = true; }
    out << "},\"kinds\":{"; c = false; for (auto &a : kinds) { out << (c ? "," : "") << "\"" << jesc(a.first) << "\":" << a.second; c = true; }
    out << "},\"counters\":{"; c = false; for (auto &a : counters) { out << (c ? "," : "") << "\"" << jesc(a.first) << "\":" << a.second; c = true; }
    out << "},\"open\":["; c = false;
    for (auto &b : bad) { out << (c ? "," : "") << "{\"label\":\"" << jesc(b.label) << "\",\"kind\":\"" << b.kind << "\",\"status\":\"" << b.status << "\",\"detail\":\"" << jesc(b.detail.substr(0, 3000)) << "\",\"file\":\"" << jesc(b.file) << "\",\"count\":" << (b.status == "pending" ? pendcnt[b.file] : 1) << "}"; c = true; }
    out << "]}\n";
    cerr << unit << ": " << total << " obligations, " << bad.size() << " open, " << paths << " paths" << (unsup.empty() ? "" : ", UNSUPPORTED: " + unsup) << "\n";
    if (tracing) for (size_t i = 0; i < bad.size() && i < 5; ++i) cerr << "  OPEN " << bad[i].label << " [" << bad[i].status << "] " << bad[i].detail.substr(0, 1500) << "\n";
    return 0;
  }
} // namespace sym
