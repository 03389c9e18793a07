// Shared set-up: solver configurations selected by -D flags, symbolic grids, periodic data.
#pragma once
#include "H.hpp"
#ifndef ND
#define ND 1
#endif
#ifndef OPTS
#define OPTS 0
#endif
#ifndef NIT
#define NIT 2
#endif
#ifndef NMIN
#define NMIN 4
#endif
#ifndef NT
#define NT 1
#endif
#ifndef BC
#define BC cyclic
#endif
#include <libmpdata++/solvers/mpdata.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <libmpdata++/bcond/cyclic_1d.hpp>
#include <libmpdata++/bcond/cyclic_2d.hpp>
#include <libmpdata++/bcond/cyclic_3d.hpp>
#include <libmpdata++/bcond/open_1d.hpp>
#include <libmpdata++/bcond/open_2d.hpp>
#include <libmpdata++/bcond/open_3d.hpp>
#include <libmpdata++/bcond/rigid_2d.hpp>
#include <libmpdata++/bcond/rigid_3d.hpp>
using namespace libmpdataxx;
template <class S, int N, bcond::bcond_e B> struct serial_of;
template <class S, bcond::bcond_e B> struct serial_of<S, 1, B> { using type = concurr::serial<S, B, B>; };
template <class S, bcond::bcond_e B> struct serial_of<S, 2, B> { using type = concurr::serial<S, B, B, B, B>; };
template <class S, bcond::bcond_e B> struct serial_of<S, 3, B> { using type = concurr::serial<S, B, B, B, B, B, B>; };
static const char *dimname[] = {"nx", "ny", "nz"};
// the last point of a cyclic dimension is the same physical point as the first
template <class A, int N> void wrap_dim(A a, int d, vint n)
{
  blitz::RectDomain<N> dst(a.domain()), src(a.domain());
  dst.lbound(d) = n - 1; dst.ubound(d) = n - 1; src.lbound(d) = 0; src.ubound(d) = 0;
  a(dst) = a(src);
}
template <class A, int N, class S> void wrap(A a, const S &n) { for (int d = 0; d < N; ++d) wrap_dim<A, N>(a, d, n[d]); }
