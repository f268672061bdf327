// Native (executable) meaning of the specification intrinsics.
#include "vc.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <fstream>
#include <set>
static std::map<std::string, std::string> given;
static std::mt19937_64 rng(1);
static int fails = 0, checks = 0;
static bool quiet = false;
static std::map<std::string, double> used;
static std::string nm(const char *n, int i, int j)
{
    std::string s(n);
    if (i >= 0) s += "_" + std::to_string(i);
    if (j >= 0) s += "_" + std::to_string(j);
    return s;
}
static double u01() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static std::map<std::string, double> rvals;
static std::map<std::string, long> ivals;
extern "C" double __vc_real(const char *n, int i, int j, double lo, double hi)
{
    auto s = nm(n, i, j);
    if (given.count(s)) return used[s] = atof(given[s].c_str());
    if (rvals.count(s)) return rvals[s];
    double k = u01(), v;
    if (k < 0.04) v = lo;
    else if (k < 0.08) v = hi;
    else if (k < 0.16) v = lo + (hi - lo) * double(rng() % 5) / 4.0;
    else if (lo > 0 && hi / lo > 20 && k < 0.6) v = std::exp(std::log(lo) + u01() * (std::log(hi) - std::log(lo)));
    else v = lo + (hi - lo) * u01();
    rvals[s] = v;
    return used[s] = v;
}
static long ri(const std::string &s, long lo, long hi)
{
    if (given.count(s)) { long v = atol(given[s].c_str()); used[s] = double(v); return v; }
    if (ivals.count(s)) return ivals[s];
    double k = u01();
    long v;
    if (k < 0.1) v = lo;
    else if (k < 0.2) v = hi;
    else if (k < 0.5) v = lo + long(rng() % 9);
    else { unsigned long span = (unsigned long)hi - (unsigned long)lo; v = span == ~0ul ? long(rng()) : long((unsigned long)lo + rng() % (span + 1)); }
    if (v > hi) v = hi;
    if (v < lo) v = lo;
    ivals[s] = v;
    used[s] = double(v);
    return v;
}
extern "C" long __vc_int(const char *n, int i, int j, long lo, long hi) { return ri(nm(n, i, j), lo, hi); }
extern "C" long __vc_enum(const char *n, int i, int j, long lo, long hi)
{
    auto s = nm(n, i, j);
    if (hi < lo) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(3); }
    if (given.count(s)) { long v = atol(given[s].c_str()); used[s] = double(v); return v; }
    if (ivals.count(s)) return ivals[s];
    long v = lo + long(rng() % (unsigned long)(hi - lo + 1));
    ivals[s] = v;
    used[s] = double(v);
    return v;
}
extern "C" void __vc_unit(const char *n, double *out, int dim)
{
    double s = 0;
    do {
        s = 0;
        for (int k = 0; k < dim; k++) { out[k] = 2 * u01() - 1; if (u01() < .1) out[k] = 0; s += out[k] * out[k]; }
    } while (s < 0.01);
    for (int k = 0; k < dim; k++) out[k] /= std::sqrt(s);
    bool g = false;
    for (int k = 0; k < dim; k++) { auto q = nm(n, k, -1); if (given.count(q)) { out[k] = atof(given[q].c_str()); g = true; } }
    if (g) { s = 0; for (int k = 0; k < dim; k++) s += out[k] * out[k]; for (int k = 0; k < dim; k++) out[k] /= std::sqrt(s); }
    for (int k = 0; k < dim; k++) used[nm(n, k, -1)] = out[k];
}
extern "C" void __vc_assume(bool c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(3); } }
static void dump()
{
    for (auto &p : used) printf("  input %s = %.17g\n", p.first.c_str(), p.second);
}
static void fail(const std::string &s, const char *why)
{
    if (!fails++) dump();
    printf("FAIL %s %s\n", s.c_str(), why);
    fflush(stdout);
}
extern "C" void __vc_assert(bool c, const char *n, int i, int j) { checks++; if (!c) fail(nm(n, i, j), "assertion false"); }
static double TOLF = 1;
extern "C" void __vc_eq(double a, double b, double tol, const char *n, int i, int j)
{
    checks++;
    double d = std::fabs(a - b), sc = 1 + std::fabs(a) + std::fabs(b);
    if (a == b) return;
    if (!(d <= (1e-7 * TOLF + 2 * tol) * sc)) { char buf[200]; snprintf(buf, 200, "%.17g != %.17g", a, b); fail(nm(n, i, j), buf); }
}
extern "C" void __vc_le(double a, double b, double tol, const char *n, int i, int j)
{
    checks++;
    double sc = 1 + std::fabs(a) + std::fabs(b);
    if (!(a - b <= (1e-9 * TOLF + 2 * tol) * sc)) { char buf[200]; snprintf(buf, 200, "%.17g > %.17g", a, b); fail(nm(n, i, j), buf); }
}
extern "C" void __vc_ieq(long a, long b, const char *n, int i, int j)
{
    checks++;
    if (a != b) { char buf[200]; snprintf(buf, 200, "%ld != %ld", a, b); fail(nm(n, i, j), buf); }
}
extern "C" int __vc_symbolic() { return 0; }
extern "C" double __vc_diff(double, double) { abort(); }
extern "C" int __vc_isconst(double) { return 1; }
extern "C" double __vc_dir(double (*f)(void *, double), void *ctx)
{
    double D[6][6], h = 0.03125;
    for (int i = 0; i < 6; i++)
    {
        D[i][0] = (f(ctx, h) - f(ctx, -h)) / (2 * h);
        double c = 4;
        for (int j = 1; j <= i; j++, c *= 4)
            D[i][j] = D[i][j - 1] + (D[i][j - 1] - D[i - 1][j - 1]) / (c - 1);
        h *= 0.5;
    }
    return D[4][4];
}
namespace { struct Suspended {}; }
extern "C" int __vc_suspendable(void (*f)(void *), void *ctx)
{
    try { f(ctx); } catch (Suspended &) { return 1; }
    return 0;
}
extern "C" void __vc_suspend() { throw Suspended(); }
extern "C" int __vc_try(void (*f)(void *), void *ctx)
{
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        freopen("/dev/null", "w", stdout);
        freopen("/dev/null", "w", stderr);
        try { f(ctx); } catch (...) { _exit(1); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { f(ctx); return 0; }
    return 1;
}
__attribute__((weak)) std::string __DNDS_getTraceString() { return ""; }
extern "C" double __vc_lit(long p, long q) { return double(p) / double(q); }
extern "C" bool __vc_split(bool c) { return c; }
extern "C" void __vc_reach(const char *, int, int) {}
int main(int argc, char **argv)
{
    if (argc < 3) return 9;
    void *h = dlopen(nullptr, RTLD_NOW);
    auto f = (void (*)())dlsym(h, argv[1]);
    if (!f) { printf("NO-CONTRACT %s\n", argv[1]); return 9; }
    rng.seed(strtoull(argv[2], nullptr, 10));
    if (argc > 3)
    {
        std::ifstream in(argv[3]);
        std::string k, v;
        while (in >> k >> v) given[k] = v;
    }
    if (getenv("VC_TOLF")) TOLF = atof(getenv("VC_TOLF"));
    try { f(); } catch (std::exception &e) { fail("no-throw", e.what()); } catch (...) { fail("no-throw", "exception"); }
    printf("DONE checks=%d fails=%d\n", checks, fails);
    return fails ? 1 : 0;
}
