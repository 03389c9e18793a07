// contract of domain_decomposition::slab: the parts of a span are consecutive, cover it exactly, and none is empty
#include "H.hpp"
#include <libmpdata++/formulae/domain_decomposition.hpp>
using namespace libmpdataxx; using domain_decomposition::slab;
UNIT("slab")
{
  vint f = H::integer("first", -5, 5), size = H::size("size", 1), n = H::size("n", 1, 60), r = H::integer("rank", 0, 60);
#ifdef CONC
  size = size % n + 1; r = r % size;
#endif
  H::iassume_le(size, n); H::iassume_le(0, r); H::iassume_le(r, size - 1);
  const rng_t span(f, f + n - 1);
  rng_t whole = slab(span); H::ieq("one part: first point", whole.first(), f); H::ieq("one part: last point", whole.last(), f + n - 1);
  rng_t p = slab(span, r, size); H::ieq("the first part starts the span", slab(span, 0, size).first(), f);
#ifndef CONC
  auto fact = [](const vint &a, const vint &b) { sym::mul_nonneg(a, b); };
#else
  auto fact = [](const vint &, const vint &) {};
#endif
  // size * n / size = n, by cases on the quotient
  rng_t l = slab(span, size - 1, size); vint q = l.last() + 1 - f;
  if (q < n) fact(n - 1 - q, size); if (q > n) fact(q - n - 1, size);
  H::ieq("the last part ends the span", l.last(), f + n - 1);
  // rank * n / size < (rank + 1) * n / size as n >= size
  vint a = p.first() - f, b = p.last() + 1 - f;
  if (b <= a) fact(a - b, size); if (b > a) H::yes("no part is empty", true); else H::ile("no part is empty", p.first(), p.last());
  H::ile("no part starts before the span", f, p.first());
  if (r + 1 < size) { rng_t s = slab(span, r + 1, size); H::ieq("parts are consecutive", s.first(), p.last() + 1); }
  H::fn("domain_decomposition::slab, detail::min, detail::max");
}
