// given to every probe first: keeps the body of std::endl out of the analysed functions, so that a diagnostic is one call
#ifndef VG_DIAG_HPP
#define VG_DIAG_HPP
#include <iosfwd>
namespace std { template <typename C, typename T> __attribute__((noinline)) basic_ostream<C, T> & endl(basic_ostream<C, T> &); }
#endif
