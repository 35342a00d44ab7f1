// Engines whose outputs are solver variables.
#pragma once
#include "vp.h"
#include <limits>
#define BOOST_PREVENT_MACRO_SUBSTITUTION
namespace vp {
// fixed range [Min, Max]; at most Limit draws are followed
template <class R, R Min, R Max, int Limit = 3> struct eng {
  typedef R result_type; int n; eng() : n(0) {}
  static constexpr R min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Min; }
  static constexpr R max BOOST_PREVENT_MACRO_SUBSTITUTION() { return Max; }
  R operator()() { if (n >= Limit) vp_cut("engine draws beyond the stated number"); ++n; return in<R>("draw", Min, Max); }
};
template <class R, int Limit = 3> struct full : eng<R, std::numeric_limits<R>::min(), std::numeric_limits<R>::max(), Limit> {};
// range chosen at run time (symbolic); outputs any value in it
template <class R, int Limit = 3> struct rteng {
  typedef R result_type; R lo, hi; int n; rteng(R l, R h) : lo(l), hi(h), n(0) {}
  R min BOOST_PREVENT_MACRO_SUBSTITUTION() const { return lo; }
  R max BOOST_PREVENT_MACRO_SUBSTITUTION() const { return hi; }
  R operator()() { if (n >= Limit) vp_cut("engine draws beyond the stated number"); ++n; R r = in<R>("draw"); vp_assume(lo <= r && r <= hi); return r; }
};
// replays a fixed array of outputs (which may be symbolic)
template <class R, R Min, R Max> struct tape {
  typedef R result_type; const R *p; int n, len; tape(const R *q, int l) : p(q), n(0), len(l) {}
  static constexpr R min BOOST_PREVENT_MACRO_SUBSTITUTION() { return Min; }
  static constexpr R max BOOST_PREVENT_MACRO_SUBSTITUTION() { return Max; }
  R operator()() { if (n >= len) vp_cut("engine draws beyond the stated number"); return p[n++]; }
};
}
