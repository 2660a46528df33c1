// Sets of reals denoted by intervals, judged only through the rank of each bound in the exact order of the reals.
#pragma once
#include "dom.hpp"
#include "../checks/rational_common.hpp"

template<class T> struct is_whole { static const bool value = std::is_integral<T>::value || std::is_same<T, Rat>::value; };   // base types without NaN and infinities
template<class T> inline mpq_class whole_q(const T& a) {
  if constexpr (std::is_integral<T>::value) { mpq_class q; unsigned long long m = a < 0 ? 0ull - (unsigned long long)a : (unsigned long long)a; mpz_set_ui(q.get_num_mpz_t(), m); if (a < 0) q = -q; return q; }
  else return as_q(a);
}
// level 4: the corners of an integer type
template<class T> inline std::vector<T> whole_vals(int level) {
  if constexpr (std::is_integral<T>::value) if (level == 4) {
    typedef std::numeric_limits<T> L; std::vector<T> v; const T h = L::max() / 2;
    for (T a : {L::min(), T(L::min() + 1), T(L::min() / 2), T(L::min() / 2 + 1), T(0), T(1), T(2), T(3), T(h), T(h + 1), T(h + 2), T(L::max() - 1), L::max()}) v.push_back(a);
    if (L::is_signed) for (int a : {-3, -2, -1}) v.push_back(T(a));
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
  }
  if constexpr (std::is_same<T, int>::value || std::is_same<T, Rat>::value) return exact_vals<T>(); else return std::vector<T>();
}
template<class T> struct Vals {
  std::vector<T> v; std::vector<int> r; std::vector<char> fin; bool nan = false; T nanv;
  struct It { int l, u; int kind; };          // kind 0: ordinary; 1: empty() ; 2: reversed bounds; 3: NaN lower; 4: NaN upper
  std::vector<It> it;
  int n;
  static std::vector<T> values(int level, std::vector<ex::XR>& x) {
    std::vector<T> v;
    if constexpr (is_whole<T>::value) { v = whole_vals<T>(level); for (auto& a : v) x.push_back(ex::XR(whole_q(a))); }
    else { v = Alpha<T>::get(level); for (auto& a : v) x.push_back(ex::Num<T>::exact(a)); }
    return v;
  }
  Vals(int level, bool empties, bool badbounds = true) {
    std::vector<ex::XR> x; v = values(level, x); n = v.size();
    std::vector<ex::XR> s = x; std::sort(s.begin(), s.end(), [](const ex::XR& a, const ex::XR& b) { return a < b; });
    s.erase(std::unique(s.begin(), s.end(), [](const ex::XR& a, const ex::XR& b) { return a == b; }), s.end());
    for (int i = 0; i < n; i++) { r.push_back(std::lower_bound(s.begin(), s.end(), x[i], [](const ex::XR& a, const ex::XR& b) { return a < b; }) - s.begin()); fin.push_back(!x[i].inf); }
    if (std::numeric_limits<T>::has_quiet_NaN) { nan = true; nanv = std::numeric_limits<T>::quiet_NaN(); }
    if (level >= 10) for (auto& p : sparse_pairs(x)) it.push_back(It{p.first, p.second, 0});
    else for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if (x[i].inf > 0 || x[j].inf < 0) continue;
      if (r[i] <= r[j]) it.push_back(It{i, j, 0});
    }
    if (empties) {
      it.push_back(It{0, 0, 1});
      if (badbounds) { it.push_back(It{idx(s, x, 1), idx(s, x, 0), 2}); if (nan) { it.push_back(It{0, n / 2, 3}); it.push_back(It{n / 2, 0, 4}); } }
    }
  }
  int idx(const std::vector<ex::XR>&, const std::vector<ex::XR>& x, long k) { for (int i = 0; i < n; i++) if (x[i].finite() && x[i].q == k) return i; return 0; }
  bool empty(const It& a) const { return a.kind != 0; }
  template<class I> I make(const It& a) const {
    if (a.kind == 1) return I::empty();
    return I(a.kind == 3 ? nanv : v[a.l], a.kind == 4 ? nanv : v[a.u], true);
  }
  static std::string sv(const T& a) {
    if constexpr (is_whole<T>::value) return whole_q(a).get_str(); else return ex::str(a);
  }
  std::string s(const It& a) const {
    if (a.kind == 1) return "empty()";
    return "[" + (a.kind == 3 ? std::string("NaN") : sv(v[a.l])) + ", " + (a.kind == 4 ? std::string("NaN") : sv(v[a.u])) + "]";
  }
  std::string s(int i) const { return i < n ? sv(v[i]) : "NaN"; }
  const T& num(int i) const { return i < n ? v[i] : nanv; }
};
template<class T> inline bool rawnan(const T& a) { if constexpr (is_whole<T>::value) return false; else return !isnum(a); }
template<class T> inline bool raweq(const T& a, const T& b) { if constexpr (is_whole<T>::value) return a == b; else return numeq(a, b); }
template<class T> inline bool rawlt(const T& a, const T& b) { if constexpr (is_whole<T>::value) return a < b; else return numlt(a, b); }
template<class I> inline bool is_empty_set(const I& r) { return rawnan(r.lower()) || rawnan(r.upper()) || rawlt(r.upper(), r.lower()); }
