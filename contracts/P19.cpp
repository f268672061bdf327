// P19: time integrators.
//  Runge-Kutta: the step is run on formal vectors (coefficients of x0 and of the stage right-hand sides), which extracts the tableau
//  that the code really executes; the order conditions of that tableau give the order for every right-hand side.
//  Multistep / Hermite: the step is run on the monomials t^m; the converged residual must vanish up to the stated degree.
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include "DNDS/MPI.hpp"
#include "Solver/ODE.hpp"
using namespace DNDS;

struct Tau
{
    double v = 0;
};
template <int N>
struct Vec
{
    double c[N];
    Vec()
    {
        for (int i = 0; i < N; i++)
            c[i] = 1e30; // never meaningful
    }
    void setConstant(double a)
    {
        for (int i = 0; i < N; i++)
            c[i] = a;
    }
    void addTo(const Vec &o, double a)
    {
        for (int i = 0; i < N; i++)
            c[i] += o.c[i] * a;
    }
    Vec &operator+=(const Vec &o)
    {
        addTo(o, 1);
        return *this;
    }
    Vec &operator*=(double a)
    {
        for (int i = 0; i < N; i++)
            c[i] *= a;
        return *this;
    }
    Vec &operator*=(const Tau &a) { return (*this) *= a.v; }
};
static auto nop = [](auto &) {};

// ---------------------------------------------------------------- Runge-Kutta
static constexpr int NB = 16;
using V = Vec<NB>;
struct Tableau
{
    int s = 0;            // stages evaluated so far
    double X[NB][NB];     // argument of the stage right-hand side
    double ct[NB];        // time at which it was evaluated
};
static V basis(int i)
{
    V r;
    r.setConstant(0);
    r.c[i] = 1;
    return r;
}
// one step from x = x0 (basis vector 0 at the first step); stage k's right-hand side is the formal vector 1 + k
template <class TODE>
static void runRK(TODE &ode, V &x, double dt, double tau, Tableau &T, bool explicitScheme)
{
    V xinc;
    int calls = 0;
    auto frhs = [&](V &r, V &X, Tau &, int iter, real ct, int)
    {
        if (explicitScheme || iter == 1 || iter == INT_MAX)
            T.s++;
        for (int i = 0; i < NB; i++)
            T.X[T.s - 1][i] = X.c[i];
        T.ct[T.s - 1] = ct;
        r = basis(T.s);
    };
    auto fsolve = [&](V &X, V &res, V &resOther, Tau &, real ldt, real alpha, V &inc, int iter, real ct, int)
    {
        vc::eq(ldt, dt, "solver-gets-dt");
        vc::eq(ct, T.ct[T.s - 1], "solver-gets-stage-time");
        for (int i = 0; i < NB; i++)
        {
            // residual = other - x/dt + alpha * rhs(x): the linear system the implicit solver is told to solve
            vc::eq(res.c[i] * dt, resOther.c[i] * dt - X.c[i] + alpha * dt * (i == T.s ? 1.0 : 0.0), "residual-split", T.s, i, 1e-12);
            if (iter > 1)
                vc::eq(res.c[i] * dt, 0, "converged", T.s, i, 1e-12);
        }
        inc = res;
        inc *= dt;
    };
    auto fdt = [&](V &, Tau &t, real, int) { t.v = tau; };
    auto fstop = [&](int iter, V &, int) { calls++; return iter >= 2; };
    auto finc = [&](V &X, V &inc, real a, int) { X.addTo(inc, a); };
    ode.Step(x, xinc, frhs, fdt, fsolve, 2, fstop, finc, dt);
}
static void orderConditions(int s, const double (*A)[NB], const double *b, const double *c, int order, double tol)
{
    double Ac[NB], Acc[NB], AAc[NB];
    for (int i = 0; i < s; i++)
    {
        Ac[i] = Acc[i] = 0;
        double row = 0;
        for (int j = 0; j < s; j++)
            Ac[i] += A[i][j] * c[j], Acc[i] += A[i][j] * c[j] * c[j], row += A[i][j];
        vc::eq(row, c[i], "stage-time", i, -1, tol);
    }
    double q[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    const double w[8] = {1, 1. / 2, 1. / 3, 1. / 6, 1. / 4, 1. / 8, 1. / 12, 1. / 24};
    for (int i = 0; i < s; i++)
    {
        AAc[i] = 0;
        for (int j = 0; j < s; j++)
            AAc[i] += A[i][j] * Ac[j];
        q[0] += b[i], q[1] += b[i] * c[i], q[2] += b[i] * c[i] * c[i], q[3] += b[i] * Ac[i];
        q[4] += b[i] * c[i] * c[i] * c[i], q[5] += b[i] * c[i] * Ac[i], q[6] += b[i] * Acc[i], q[7] += b[i] * AAc[i];
    }
    const int n[5] = {0, 1, 2, 4, 8};
    for (int k = 0; k < n[order]; k++)
        vc::eq(q[k], w[k], "order-condition", order, k, tol);
}
static void tableauOf(const Tableau &T, const V &x, int s, double h, double (*A)[NB], double *b, double *c)
{
    for (int i = 0; i < s; i++)
    {
        vc::eq(T.X[i][0], 1, "stage-starts-from-x0", i, -1, 1e-12);
        for (int j = 0; j < s; j++)
            A[i][j] = T.X[i][1 + j] / h;
        b[i] = x.c[1 + i] / h;
        c[i] = T.ct[i];
    }
    vc::eq(x.c[0], 1, "step-starts-from-x0", -1, -1, 1e-12);
    for (int i = s + 1; i < NB; i++)
        vc::eq(x.c[i], 0, "no-other-terms", i);
}
CONTRACT(implicit_euler)
{
    double dt = vc::positive("dt", 0.1, 2);
    ODE::ImplicitEulerDualTimeStep<V, Tau> ode(1, nop, nop);
    Tableau T;
    V x = basis(0);
    runRK(ode, x, dt, 1, T, false);
    double A[NB][NB], b[NB], c[NB];
    tableauOf(T, x, 1, dt, A, b, c);
    orderConditions(1, A, b, c, 1, 0);
    vc::eq(ode.getLatestRHS().c[1], 1, "latest-rhs");
    vc::eq(A[0][0], 1, "backward");
}
CONTRACT(ssprk3)
{
    double dt = vc::positive("dt", 0.1, 2), tau = vc::positive("tau", 0.1, 2);
    for (int local = 0; local < 2; local++)
    {
        ODE::ExplicitSSPRK3TimeStepAsImplicitDualTimeStep<V, Tau> ode(1, nop, nop, local);
        Tableau T;
        V x = basis(0);
        runRK(ode, x, dt, tau, T, true);
        vc::ieq(T.s, 3, "stages");
        double A[NB][NB], b[NB], c[NB];
        tableauOf(T, x, 3, local ? tau : dt, A, b, c);
        orderConditions(3, A, b, c, 3, 0);
        // strong stability preservation: the Shu-Osher coefficients are convex
        for (int i = 0; i < 3; i++)
        {
            vc::le(0, b[i], "non-negative-weights", i);
            for (int j = i; j < 3; j++)
                vc::eq(A[i][j], 0, "explicit", i, j);
        }
    }
}
CONTRACT(sdirk4)
{
    double dt = vc::positive("dt", 0.1, 2);
    ODE::ImplicitSDIRK4DualTimeStep<V, Tau> ode(1, nop, nop, 0);
    Tableau T;
    V x = basis(0);
    runRK(ode, x, dt, 1, T, false);
    vc::ieq(T.s, 3, "stages");
    double A[NB][NB], b[NB], c[NB];
    tableauOf(T, x, 3, dt, A, b, c);
    orderConditions(3, A, b, c, 4, 1e-10);
    for (int i = 0; i < 3; i++)
        vc::eq(A[i][i], A[0][0], "singly-diagonal", i, -1, 1e-12);
    vc::eq(ode.getLatestRHS().c[3], 1, "latest-rhs");
}
CONTRACT(esdirk4)
{
    double dt = vc::positive("dt", 0.1, 2), dt2 = vc::positive("dt2", 0.1, 2);
    ODE::ImplicitSDIRK4DualTimeStep<V, Tau> ode(1, nop, nop, 1);
    Tableau T;
    V x = basis(0);
    runRK(ode, x, dt, 1, T, false);
    vc::ieq(T.s, 6, "stages");
    double A[NB][NB], b[NB], c[NB];
    tableauOf(T, x, 6, dt, A, b, c);
    orderConditions(6, A, b, c, 4, 1e-7);
    for (int j = 0; j < 6; j++)
        vc::eq(A[0][j], 0, "explicit-first-stage", j), vc::eq(A[5][j], b[j], "stiffly-accurate", j, -1, 1e-12);
    // the next step reuses the right-hand side at the end point as its first stage
    V x1 = basis(0);
    Tableau T2;
    T2.s = 6;
    runRK(ode, x1, dt2, 1, T2, false);
    vc::ieq(T2.s, 11, "first-same-as-last");
    for (int i = 0; i < 6; i++)
        vc::eq(x1.c[i ? 6 + i : 6], dt2 * b[i], "second-step-weights", i, -1, 1e-12);
    for (int i = 1; i < 6; i++)
        for (int j = 0; j < 6; j++)
            vc::eq(T2.X[5 + i][j ? 6 + j : 6], dt2 * A[i][j], "second-step-stages", i, j, 1e-12);
}
// ---------------------------------------------------------------- monomials
static constexpr int NM = 6;
using M = Vec<NM>;
static double pw(double t, int n)
{
    double r = 1;
    for (int i = 0; i < n; i++)
        r *= t;
    return r;
}
static M mono(double t)
{
    M r;
    for (int m = 0; m < NM; m++)
        r.c[m] = pw(t, m);
    return r;
}
static M dmono(double t)
{
    M r;
    for (int m = 0; m < NM; m++)
        r.c[m] = m ? m * pw(t, m - 1) : 0.0;
    return r;
}
// one step of a multistep scheme along the exact trajectory t^m; the converged residual vanishes for m <= degree
template <class TODE>
static void runMS(TODE &ode, double &t, double dt, int degree, int mode, double tol)
{
    M x = mono(t), xinc;
    auto frhs = [&](M &r, M &, Tau &, int, real ct, int) { r = dmono(t + ct * dt); };
    bool checked = false;
    auto fsolve = [&](M &X, M &res, M &resOther, Tau &, real ldt, real alpha, M &inc, int iter, real ct, int)
    {
        M want = mono(t + ct * dt), f = dmono(t + ct * dt);
        vc::eq(ldt, dt, "solver-gets-dt");
        for (int m = 0; m < NM; m++)
        {
            vc::eq(res.c[m] * dt, resOther.c[m] * dt - X.c[m] + alpha * dt * f.c[m], "residual-split", degree, m, tol);
            if (iter > 1 && m <= degree)
                vc::eq(res.c[m] * dt, 0, "exact-for-degree", degree, m, tol), checked = true;
            inc.c[m] = want.c[m] - X.c[m];
        }
    };
    auto fdt = [&](M &, Tau &, real, int) {};
    auto fstop = [&](int iter, M &, int) { return iter >= 2; };
    auto finc = [&](M &X, M &inc, real a, int) { X.addTo(inc, a); };
    if (mode == 0)
        ode.Step(x, xinc, frhs, fdt, fsolve, 2, fstop, finc, dt);
    else
    {
        const M xl = x;
        int n = 0;
        auto falpha = [&](M &, int) {};
        auto fpp = [&](M &cx, M &base, M &crhs, M &inc, const std::function<void()> &renew, real ct, int)
        {
            n++;
            M f = dmono(t + ct * dt);
            for (int m = 0; m < NM; m++)
                vc::eq(crhs.c[m], f.c[m], "limiter-sees-current-rhs", n, m, tol);
            renew();
            if (n > 1)
                for (int m = 0; m <= degree; m++) // increment over the base state
                    vc::eq(inc.c[m], cx.c[m] - (mode == 1 ? xl.c[m] : base.c[m] * dt), "limited-increment", degree, m, tol);
        };
        if constexpr (!std::is_same_v<TODE, ODE::ImplicitEulerDualTimeStep<M, Tau>>)
            ode.StepPP(x, xinc, frhs, fdt, fsolve, 2, fstop, finc, dt, falpha, fpp);
    }
    vc::check(checked, "ran");
    M f = dmono(t + dt);
    for (int m = 0; m < NM; m++)
        vc::eq(ode.getLatestRHS().c[m], f.c[m], "latest-rhs", degree, m, tol);
    t += dt;
    M want = mono(t);
    for (int m = 0; m < NM; m++)
        vc::eq(x.c[m], want.c[m], "solution", degree, m, tol);
}
static void bdf(int k, int mode)
{
    double t = vc::real("t", -1, 1), dt = vc::positive("dt", 0.2, 2);
    ODE::ImplicitBDFDualTimeStep<M, Tau> ode(1, nop, nop, k);
    for (int n = 1; n <= k + 3; n++)
        runMS(ode, t, dt, n < k ? n : k, mode, 0);
}
CONTRACT(bdf1) { bdf(1, 0); }
CONTRACT(bdf2) { bdf(2, 0); }
CONTRACT(bdf3) { bdf(3, 0); }
CONTRACT(bdf4) { bdf(4, 0); }
CONTRACT(bdf1_pp) { bdf(1, 1); }
CONTRACT(bdf2_pp) { bdf(2, 1); }
CONTRACT(bdf3_pp) { bdf(3, 1); }
CONTRACT(bdf4_pp) { bdf(4, 1); }
static void vbdf(int k, int mode)
{
    double t = vc::real("t", -1, 1);
    ODE::ImplicitVBDFDualTimeStep<M, Tau> ode(1, nop, nop, k);
    for (int n = 1; n <= 4; n++)
    {
        double dt = vc::positive("dt", 0.2, 2, n);
        runMS(ode, t, dt, n < k ? n : k, mode ? 2 : 0, 0);
    }
}
CONTRACT(vbdf1) { vbdf(1, 0); }
CONTRACT(vbdf2) { vbdf(2, 0); }
CONTRACT(vbdf1_pp) { vbdf(1, 1); }
CONTRACT(vbdf2_pp) { vbdf(2, 1); }
CONTRACT(euler_monomials)
{
    double t = vc::real("t", -1, 1);
    ODE::ImplicitEulerDualTimeStep<M, Tau> ode(1, nop, nop);
    for (int n = 1; n <= 3; n++)
        runMS(ode, t, vc::positive("dt", 0.2, 2, n), 1, 0, 0);
}
// Hermite: exact for quadratics (U2R1, and the first U3R1 step) or cubics (U2R2, U3R1) at both the inner and the end point
static void hermite(int mask)
{
    double t = vc::real("t", -1, 1), alpha = vc::real("alpha", 0.1, 0.9), theta = vc::positive("theta", 0.5, 1);
    vc::assume(alpha > 0 && alpha < 1);
    ODE::ImplicitHermite3SimpleJacobianDualStep<M, Tau> ode(1, nop, nop, alpha, 0, 0, theta, mask);
    for (int n = 1; n <= 3; n++)
    {
        double dt = vc::positive("dt", 0.5, 2, n);
        if (n > 1)
            vc::assume(ode.dtPrev / dt < 100 && ode.dtPrev / dt > 0.01);
        M x = mono(t), xinc;
        const int dMid = mask == 0 || (mask == 2 && n > 1) ? 3 : 2;
        int nrhs = 0, nMid = 0;
        auto frhs = [&](M &r, M &, Tau &, int, real ct, int) { r = dmono(t + ct * dt), nrhs++; };
        auto fsolve = [&](M &X, M &res, M &resOther, Tau &, real ldt, real a, M &inc, int iter, real ct, int uPos)
        {
            M want = mono(t + ct * dt), f = dmono(t + ct * dt);
            vc::check(ct > 0 && ct <= 1, "stage-time-in-step");
            for (int m = 0; m < NM; m++)
            {
                if (iter > 1 && m <= (uPos == 1 ? dMid : 3))
                {
                    vc::eq(res.c[m] * dt, 0, uPos == 1 ? "inner-point-exact" : "end-point-exact", n, m);
                    vc::eq(res.c[m] * dt, resOther.c[m] * dt - X.c[m] + a * dt * f.c[m], "residual-split", n, m);
                }
                inc.c[m] = want.c[m] - X.c[m];
            }
            nMid += uPos == 1;
        };
        auto fdt = [&](M &, Tau &, real, int) {};
        auto fstop = [&](int iter, M &, int) { return iter >= 2; };
        auto finc = [&](M &X, M &inc, real a, int) { X.addTo(inc, a); };
        ode.Step(x, xinc, frhs, fdt, fsolve, 2, fstop, finc, dt);
        vc::ieq(nMid, 2, "inner-solves");
        vc::ieq(nrhs, n == 1 ? 5 : 4, "rhs-evaluations");
        t += dt;
        M want = mono(t), f = dmono(t);
        for (int m = 0; m < NM; m++)
        {
            vc::eq(x.c[m], want.c[m], "solution", n, m);
            vc::eq(ode.getLatestRHS().c[m], f.c[m], "latest-rhs", n, m);
        }
    }
}
CONTRACT(hermite_u2r2) { hermite(0); }
CONTRACT(hermite_u2r1) { hermite(1); }
CONTRACT(hermite_u3r1) { hermite(2); }
// ---------------------------------------------------------------- step-size helpers
static void bisect(int maxIter)
{
    double a = vc::positive("a", 0.1, 2), b = vc::positive("b", 0.1, 2), v0 = vc::real("v0", 0, 1), w = vc::positive("w", 0.1, 2);
    vc::assume(v0 >= 0);
    auto F = [&](double v) { return a * v + b * v * v; };
    double target = vc::real("target", 0, 5), v1 = v0 + w;
    vc::assume(F(v0) <= target && F(v1) >= target);
    double r = Scalar::BisectSolveLower(F, v0, v1, target, maxIter);
    vc::le(v0, r, "in-bracket-low");
    vc::le(r, v1, "in-bracket-high");
    vc::le(F(r), target, "never-overshoots");
    if (maxIter <= 2)
        vc::check(F(v0) == target || F(r + w / (1 << maxIter)) >= target, "bisection-accuracy");
}
CONTRACT(bisect_0) { bisect(0); }
CONTRACT(bisect_1) { bisect(1); }
CONTRACT(bisect_2) { bisect(2); }
CONTRACT(bisect_3) { bisect(3); }
CONTRACT(bounded_limit_dt)
{
    double t = vc::real("t", -1, 1), dt1 = vc::positive("dt1", 0.2, 2), dtWish = vc::positive("dtw", 0.05, 8), lim = vc::real("lim", 0, 1.3);
    double inc = vc::positive("maxinc", 1.1, 4);
    ODE::ImplicitVBDFDualTimeStep<M, Tau> ode(1, nop, nop, 2);
    M x = mono(t);
    double dt = dtWish;
    ode.LimitDt_StepPPV2(x, [&](M &, M &) { return 0.0; }, dt, inc);
    vc::eq(dt, dtWish, "first-step-unlimited");
    M xold = x;
    runMS(ode, t, dt1, 1, 0, 1e-12);
    x = mono(t);
    auto B = [&](double d) { double p = d / (d + dt1), R = d / dt1; return R * p / (1 + p); };
    ode.LimitDt_StepPPV2(x, [&](M &u, M &du)
                         {
                             for (int m = 0; m < NM; m++)
                             {
                                 vc::eq(u.c[m], x.c[m], "limits-current-state", m);
                                 vc::eq(du.c[m], B(dtWish) * (x.c[m] - xold.c[m]), "extrapolation-increment", m, -1, 1e-12);
                             }
                             return lim; },
                         dt, inc);
    vc::check(dt > 0 || lim == 0, "positive-step");
    vc::le(dt, dtWish, "never-larger-than-wished");
    if (lim >= 1)
        vc::eq(dt, dtWish, "unlimited");
    else
        vc::le(B(dt), lim * B(dtWish), "increment-limited", -1, -1, 1e-12);
}
