// Stand-in for <boost/core/invoke_swap.hpp>, which Boost.Core ships from 1.84 on; the sandbox has Boost 1.83.
// Added with -idirafter, so a real one always wins.  The signature is Boost.Core's.
#ifndef VERIF_COMPAT_INVOKE_SWAP_HPP
#define VERIF_COMPAT_INVOKE_SWAP_HPP
#include <utility>
namespace boost { namespace core {
template<class T> inline void invoke_swap(T& a, T& b) { using std::swap; swap(a, b); }
}}
#endif
