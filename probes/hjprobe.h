// Entry points of the analysis.  These functions are never executed: they
// name the expression whose meaning the abstract interpreter derives from the
// repository's source.
#pragma once
#ifdef HJ_EIGEN
#include <Eigen/Core>
#endif
#include <hyperjet/hyperjet.h>
#include <string>

// Its members are only declared in the header otherwise.
template class std::basic_string<char>;

extern "C" {
double hj_sym(long id);                       // an arbitrary real number
long hj_symi(long id);                        // an arbitrary integer
long hj_arg(long k);                          // configuration argument of this entry
void hj_out(long tag, double v);
void hj_outi(long tag, long v);
void hj_outb(long tag, bool v);
void hj_outp(long tag, const void *p);
void hj_outv(long tag, const double *p, long n);
void hj_outvf(long tag, const float *p, long n);
void hj_outs(long tag, const char *s);
void hj_freeze(const void *p, long bytes, long tag); // writes into it are reported
void hj_freeze_heap(long tag);
void hj_thaw();
void hj_watch_alloc(long on);
void hj_precision(long bits);                  // rounding to fewer significand bits is reported (0: not)
void hj_fail_alloc(long k);                   // the k-th allocation from now on fails (0: none)
long hj_fail_left();                          // 0: it has failed
long hj_live();
int hj_range(const void *p, long n);
void hj_undecided(const char *why);
}

namespace hjp
{
using hyperjet::DDScalar;
using hyperjet::SScalar;
using hyperjet::index;

template <class T> long comps(long n) { return T::order() == 1 ? 1 + n : (n + 1) * (n + 2) / 2; }

// A number of type T with n variables all of whose components are arbitrary:
// symbols base, base+1, ... in packed order.
template <class T> T jet(long base, long n)
{
    typename T::Data d;
    if constexpr (T::is_dynamic())
        d.resize(comps<T>(n));
    for (long k = 0; k < comps<T>(n); k++)
        d[k] = hj_sym(base + k);
    return T::create(d);
}
template <class T> auto disp(long base, long n)
{
    if constexpr (T::is_dynamic())
    {
        std::vector<typename T::Scalar> d(n);
        for (long i = 0; i < n; i++)
            d[i] = hj_sym(base + i);
        return d;
    }
    else
    {
        std::array<typename T::Scalar, T::static_size() < 0 ? 0 : T::static_size()> d{};
        for (long i = 0; i < n; i++)
            d[i] = hj_sym(base + i);
        return d;
    }
}
inline void outs(long tag, const double *p, long n) { hj_outv(tag, p, n); }
inline void outs(long tag, const float *p, long n) { hj_outvf(tag, p, n); }
inline void outs(long tag, const long double *p, long n) { for (long i = 0; i < n; i++) hj_out(tag, (double)p[i]); }
template <class T> void out(long tag, const T &x)
{
    hj_outi(tag + 1, x.size());
    hj_outi(tag + 2, x.data_length());
    outs(tag, x.ptr(), x.data_length());
}
template <class T> void freeze(const T &x, long tag)
{
    hj_freeze(&x, sizeof(T), tag);
    hj_freeze(x.ptr(), x.data_length() * sizeof(typename T::Scalar), tag);
}
} // namespace hjp
