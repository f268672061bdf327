// Specification intrinsics.  In the verifier they generate symbols / assumptions / obligations; the native
// runtime (vc_native.cpp) gives them an executable meaning so that counterexamples can be replayed.
#pragma once
#include <utility>
extern "C"
{
    double __vc_real(const char *n, int i, int j, double lo, double hi);
    long __vc_int(const char *n, int i, int j, long lo, long hi);
    long __vc_enum(const char *n, int i, int j, long lo, long hi);
    void __vc_unit(const char *n, double *out, int dim);
    void __vc_assume(bool c);
    void __vc_assert(bool c, const char *n, int i, int j);
    void __vc_eq(double a, double b, double tol, const char *n, int i, int j);
    void __vc_le(double a, double b, double tol, const char *n, int i, int j);
    void __vc_ieq(long a, long b, const char *n, int i, int j);
    int __vc_symbolic();
    double __vc_diff(double f, double x);
    double __vc_dir(double (*f)(void *, double), void *ctx);
    int __vc_try(void (*f)(void *), void *ctx);
    double __vc_lit(long p, long q);
    void __vc_reach(const char *n, int i, int j);
    int __vc_isconst(double v);
    bool __vc_split(bool c);
}
namespace vc
{
    inline double real(const char *n, double lo, double hi, int i = -1, int j = -1) { return __vc_real(n, i, j, lo, hi); }
    inline long integer(const char *n, long lo, long hi, int i = -1, int j = -1) { return __vc_int(n, i, j, lo, hi); }
    inline long choice(const char *n, long lo, long hi, int i = -1, int j = -1) { return __vc_enum(n, i, j, lo, hi); }
    // positive real, sampling hint [lo,hi]
    inline double positive(const char *n, double lo, double hi, int i = -1, int j = -1)
    {
        double x = __vc_real(n, i, j, lo, hi);
        __vc_assume(x > 0);
        return x;
    }
    inline void assume(bool c) { __vc_assume(c); }
    // proof hint: consider the two cases separately
    inline bool split(bool c) { return __vc_split(c); }
    inline void check(bool c, const char *n, int i = -1, int j = -1) { __vc_assert(c, n, i, j); }
    inline void eq(double a, double b, const char *n, int i = -1, int j = -1, double tol = 0) { __vc_eq(a, b, tol, n, i, j); }
    inline void le(double a, double b, const char *n, int i = -1, int j = -1, double tol = 0) { __vc_le(a, b, tol, n, i, j); }
    inline void ieq(long a, long b, const char *n, int i = -1, int j = -1) { __vc_ieq(a, b, n, i, j); }
    inline double frac(long p, long q) { return __vc_lit(p, q); }
    template <class F>
    bool aborts(F f)
    {
        return __vc_try([](void *p) { (*(F *)p)(); }, (void *)&f);
    }
    // d f(h) / d h at h = 0
    template <class F>
    double dir(F f)
    {
        return __vc_dir([](void *p, double h) { return (*(F *)p)(h); }, (void *)&f);
    }
    // d f / d x   (f re-evaluated on a perturbed x natively; symbolic differentiation in the verifier)
    template <class F>
    double partial(F &&f, double &x)
    {
        if (__vc_symbolic())
        {
            double v = f();
            return __vc_diff(v, x);
        }
        double x0 = x, D[6][6], h = 0.0625;
        for (int i = 0; i < 6; i++)
        {
            x = x0 + h;
            double fp = f();
            x = x0 - h;
            double fm = f();
            x = x0;
            D[i][0] = (fp - fm) / (2 * h);
            double c = 4;
            for (int j = 1; j <= i; j++, c *= 4)
                D[i][j] = D[i][j - 1] + (D[i][j - 1] - D[i - 1][j - 1]) / (c - 1);
            h *= 0.5;
        }
        return D[4][4];
    }
}
#define CONTRACT(name) extern "C" __attribute__((noinline)) void contract_##name()
