// C09: the default comparison operators
#include "cmp_common.hpp"
template<class IA, class IB> void suite(const std::string& cfg, bool hw, int level, bool ea, bool eb, bool nandet) {
  auto f = [](int k, RK x, RK y) { return all_(k, x, y) ? (int)T_ : all_(neg(k), x, y) ? (int)F_ : (int)THROW_; };
  auto g = [](int, bool, bool, RK, RK) { return (int)THROW_; };
  rel_pairs<RDefault, IA, IB>(cfg, hw, level, ea, eb, f, g);
  rel_numbers<RDefault, false, IA>(cfg, hw, level, ea, nandet, f);
}
void register_suites() { CMP_CONFIGS(suite) }
MC_MAIN
