// Selects the library's x87 backend where hw_rounding.hpp would take the C99 one (what an i386 build gets).
#ifndef VERIF_X87_SHADOW
#define VERIF_X87_SHADOW
#include <boost/numeric/interval/detail/x86_rounding_control.hpp>
#endif
#undef BOOST_NUMERIC_INTERVAL_NO_HARDWARE
