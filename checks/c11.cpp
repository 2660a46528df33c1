// C11: lexicographic and set comparisons
#include "cmp_common.hpp"
inline int lex(int k, RK x, RK y) {
  int c = x.l != y.l ? (x.l < y.l ? -1 : 1) : x.u != y.u ? (x.u < y.u ? -1 : 1) : 0;
  switch (k) { case 0: return c < 0; case 1: return c <= 0; case 2: return c > 0; case 3: return c >= 0; case 4: return c == 0; default: return c != 0; }
}
inline int incl(int k, bool ex, bool ey, RK x, RK y) {
  auto sub = [](bool ea, bool eb, RK a, RK b) { return ea || (!eb && b.l <= a.l && a.u <= b.u); };
  bool xy = sub(ex, ey, x, y), yx = sub(ey, ex, y, x);
  switch (k) { case 0: return xy && !yx; case 1: return xy; case 2: return yx && !xy; case 3: return yx; case 4: return xy && yx; default: return !(xy && yx); }
}
template<class IA, class IB> void suite(const std::string& cfg, bool hw, int level, bool ea, bool eb, bool nandet) {
  auto thr = [](int, bool, bool, RK, RK) { return (int)THROW_; };
  rel_pairs<RLex, IA, IB>("lexicographic/" + cfg, hw, level, ea, eb, lex, thr);
  rel_numbers<RLex, false, IA>("lexicographic/" + cfg, hw, level, ea, nandet, lex);
  rel_pairs<RSet, IA, IB>("set/" + cfg, hw, level, ea, eb, [](int k, RK x, RK y) { return incl(k, false, false, x, y); }, incl);
}
void register_suites() { CMP_CONFIGS(suite) }
MC_MAIN
