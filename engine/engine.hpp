#pragma once
#include "sym.hpp"
#include <gmpxx.h>
#include <set>
#include <unordered_map>
#include <z3++.h>
namespace sym
{
  using Rat = mpq_class;
  struct Node
  {
    Kind k; std::vector<Node *> ch; std::vector<vint> idx; Rat val; int aux = 0; std::string name; Ver *ver = nullptr;
    std::vector<Param> params; Cond cond; int id = 0;
  };
  using Mono = std::vector<std::pair<int, int>>; // (atom, exponent)
  struct Poly
  {
    std::map<Mono, Rat> t;
    bool zero() const { return t.empty(); }
  };
  struct NFTooBig : std::runtime_error { using std::runtime_error::runtime_error; };
  Node *mkn(Node &&);
  Node *subst_node(Node *, const std::map<int, vint> &);
  vint subst_lin(const vint &, const std::map<int, vint> &);
  Node *resolve_read(Ver *, const std::vector<vint> &);
  Node *resolve_node(Node *);
  Poly nf(Node *);
  std::string poly_str(const Poly &, int limit = 12);
  struct Ob { std::string label, kind, status, detail, file; double t = 0; };
}
