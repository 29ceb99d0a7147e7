// Force-included before /repo's headers.  boost's NVP macro cannot bind a bit-field under clang; the replacement
// only changes how serialization archives would see a member and is never executed by a contract.
#pragma once
#ifdef VC_SYMBOLIC   // make libstdc++'s template bodies (std::string) visible instead of calling the shared library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cstdint>
#include <boost/serialization/nvp.hpp>
namespace vc_shim {
    template<class T> const boost::serialization::nvp<T> nvp(const char *n, const T &v)
    { return boost::serialization::nvp<T>(n, const_cast<T &>(v)); }
}
#undef BOOST_SERIALIZATION_NVP
#define BOOST_SERIALIZATION_NVP(name) ::vc_shim::nvp(#name, name)
