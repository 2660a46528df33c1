// C10: certain, possible, tribool and explicit comparisons
#include "cmp_common.hpp"
template<class IA, class IB> void suite(const std::string& cfg, bool hw, int level, bool ea, bool eb, bool nandet) {
  auto cer = [](int k, RK x, RK y) { return (int)all_(k, x, y); };
  auto pos = [](int k, RK x, RK y) { return (int)some_(k, x, y); };
  auto tri = [](int k, RK x, RK y) { return all_(k, x, y) ? (int)T_ : some_(k, x, y) ? (int)I_ : (int)F_; };
  auto thr = [](int, bool, bool, RK, RK) { return (int)THROW_; };
  auto any = [](int, bool, bool, RK, RK) { return -1; };
  rel_pairs<RCertain, IA, IB>("certain/" + cfg, hw, level, ea, eb, cer, thr);
  rel_numbers<RCertain, false, IA>("certain/" + cfg, hw, level, ea, nandet, cer);
  rel_pairs<RPossible, IA, IB>("possible/" + cfg, hw, level, ea, eb, pos, thr);
  rel_numbers<RPossible, false, IA>("possible/" + cfg, hw, level, ea, nandet, pos);
  rel_pairs<RTribool, IA, IB>("tribool/" + cfg, hw, level, ea, eb, tri, thr);
  rel_numbers<RTribool, false, IA>("tribool/" + cfg, hw, level, ea, nandet, tri);
  rel_pairs<RCer, IA, IB>("cer/" + cfg, hw, level, ea, eb, cer, any);
  rel_numbers<RCer, true, IA>("cer/" + cfg, hw, level, ea, nandet, cer, true);
  rel_pairs<RPos, IA, IB>("pos/" + cfg, hw, level, ea, eb, pos, any);
  rel_numbers<RPos, true, IA>("pos/" + cfg, hw, level, ea, nandet, pos, true);
}
void register_suites() { CMP_CONFIGS(suite) }
MC_MAIN
