// Probes of sparse numbers.  The parts of the standard library that are not
// in headers are replaced by definitions the interpreter can follow.
#pragma once
#include "hjprobe.h"
#include <string>
#include <unordered_map>

#ifndef HJ_HASH
#define HJ_HASH 31
#endif
namespace std
{
__attribute__((weak)) size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    size_t h = seed;
    for (size_t i = 0; i < n; i++)
        h = h * HJ_HASH + (unsigned char)((const char *)p)[i] + HJ_HASH / 4;
    return h;
}
namespace __detail
{
__attribute__((weak)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357};
    for (size_t p : primes)
        if (p >= n)
        {
            _M_next_resize = p;
            return p;
        }
    return 5087;
}
__attribute__((weak)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize)
    {
        size_t want = elt + ins;
        if (!_M_next_resize && want < 11)
            want = 11;
        if (want >= bkt)
            return {true, _M_next_bkt(want + 1 > bkt * 2 ? want + 1 : bkt * 2)};
        _M_next_resize = bkt;
    }
    return {false, 0};
}
}
}

namespace hjs
{
using namespace hjp;
// names of different shapes: short, sharing prefixes, empty, longer than the
// short-string buffer
inline const char *name(long k)
{
    switch (k)
    {
    case 0: return "x";
    case 1: return "y";
    case 2: return "xy";
    case 3: return "a_variable_with_a_long_name";
    case 4: return "";
    case 5: return "X";
    case 6: return "a_variable_with_a_long_namf";
    default: break;
    }
    static const char *more[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9"};
    return more[k - 7];
}
// the entries of mask, with symbols base+1+k
template <class T> typename T::Data entries(long base, long mask)
{
    typename T::Data d;
    for (long k = 0; k < 27; k++)
        if (mask >> k & 1)
            d[std::string(name(k))] = hj_sym(base + 1 + k);
    return d;
}
template <class T> T sj(long base, long mask) { return T(hj_sym(base), entries<T>(base, mask)); }
// value and derivatives with respect to the first N names
template <class T> void sout(long tag, const T &x, long N)
{
    typename T::Scalar r[28];
    hj_outi(tag + 1, x.size());
    r[0] = x.f();
    for (long k = 0; k < N; k++)
        r[1 + k] = x.d(std::string(name(k)));
    outs(tag, r, N + 1);
    hj_outi(tag + 2, x.size());
}
}
using namespace hjs;
