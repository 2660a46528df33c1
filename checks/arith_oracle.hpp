// Exact oracles for multiplication and division on a Dom, as tightest enclosures of the set image.
#pragma once
#include "arith_common.hpp"
typedef std::pair<int, int> P2;

template<class T> Exp<T> mul_exp(const Dom<T>& d, P2 a, P2 b) {
  int xs[2] = {a.first, a.second}, ys[2] = {b.first, b.second};
  Exp<T> e = Exp<T>::E();
  for (int i : xs) for (int j : ys) e = xhull(e, Exp<T>::V(d.L(MUL, i, j), d.U(MUL, i, j)));
  return e;
}
// quotients by the strictly positive (s=1) / strictly negative (s=-1) part of y=[.., b..]; the half is (0, m] or [m, 0)
// where m is the index of the far end point, or [near, far] when zero is outside y.
template<class T> Exp<T> div_half(const Dom<T>& d, P2 a, int m, int s) {
  int sl = d.sgn(a.first), su = d.sgn(a.second);
  const T inf = std::numeric_limits<T>::infinity(), z(0);
  if (sl == 0 && su == 0) return Exp<T>::V(z, z);
  // x / (0, m]: values scale from x/m (smallest magnitude) to infinity in magnitude.
  // end points where both numerator and m are infinite contribute no value of their own beyond 0.
  T lo, hi;
  int fl = s > 0 ? a.first : a.second, fu = s > 0 ? a.second : a.first;   // numerators giving the lower / upper quotient
  int sgl = d.sgn(fl) * s, sgu = d.sgn(fu) * s;                           // signs of those quotients
  lo = sgl < 0 ? -inf : (d.H(DIV, fl, m) ? d.L(DIV, fl, m) : z);
  hi = sgu > 0 ? inf : (d.H(DIV, fu, m) ? d.U(DIV, fu, m) : z);
  return Exp<T>::V(lo, hi);
}
template<class T> Exp<T> div_exp(const Dom<T>& d, P2 a, P2 b) {
  int yl = d.sgn(b.first), yu = d.sgn(b.second);
  Exp<T> e = Exp<T>::E();
  if (yl > 0 || yu < 0) {
    int xs[2] = {a.first, a.second}, ys[2] = {b.first, b.second};
    for (int i : xs) for (int j : ys) if (d.H(DIV, i, j)) e = xhull(e, Exp<T>::V(d.L(DIV, i, j), d.U(DIV, i, j)));
    return e;
  }
  if (yl < 0) e = xhull(e, div_half(d, a, b.first, -1));
  if (yu > 0) e = xhull(e, div_half(d, a, b.second, 1));
  return e;                                  // y = [0,0]: empty
}
