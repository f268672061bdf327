// P21: Krylov solvers (restarted left-preconditioned GMRES, preconditioned CG).
//  The solvers touch vectors only through addTo / *= / += / = and the user's operator and dot callbacks, so their scalars are
//  invariant under an orthonormal change of basis; the GMRES contracts use the basis in which the preconditioned operator is upper Hessenberg and
//  the initial residual is beta*e1 (every operator has such a basis for its first k Krylov vectors).
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include "Solver/Linear.hpp"
#include <Eigen/Dense>
using namespace DNDS;

// Assumed contract of the small dense least-squares solve: full column rank k, X = argmin |A X - B| (normal equations)
namespace DNDS::HardEigen
{
    static int lsCalls = 0;
    static int lsRankDrop = 0;
    Eigen::Index EigenLeastSquareSolve(const Eigen::MatrixXd &A, const Eigen::MatrixXd &B, Eigen::MatrixXd &X)
    {
        lsCalls++;
        int k = A.cols();
        X.resize(k, B.cols());
        double G[3][3], g[3];
        for (int i = 0; i < k; i++)
        {
            g[i] = 0;
            for (int r = 0; r < A.rows(); r++)
                g[i] += A(r, i) * B(r, 0);
            for (int j = 0; j < k; j++)
            {
                G[i][j] = 0;
                for (int r = 0; r < A.rows(); r++)
                    G[i][j] += A(r, i) * A(r, j);
            }
        }
        if (k == 1)
            X(0, 0) = g[0] / G[0][0];
        else if (k == 2)
        {
            double d = G[0][0] * G[1][1] - G[0][1] * G[1][0];
            X(0, 0) = (G[1][1] * g[0] - G[0][1] * g[1]) / d;
            X(1, 0) = (G[0][0] * g[1] - G[1][0] * g[0]) / d;
        }
        else
        {
            Eigen::Matrix3d M;
            Eigen::Vector3d v;
            for (int i = 0; i < 3; i++)
            {
                v(i) = g[i];
                for (int j = 0; j < 3; j++)
                    M(i, j) = G[i][j];
            }
            v = (M.inverse() * v).eval();
            for (int i = 0; i < 3; i++)
                X(i, 0) = v(i);
        }
        return k - lsRankDrop;
    }
}

template <int N>
struct V
{
    double c[N];
    void addTo(const V &o, double a)
    {
        for (int i = 0; i < N; i++)
            c[i] += a * o.c[i];
    }
    V &operator*=(double a)
    {
        for (int i = 0; i < N; i++)
            c[i] *= a;
        return *this;
    }
    V &operator+=(const V &o)
    {
        addTo(o, 1);
        return *this;
    }
};
template <int N>
static double dot(const V<N> &a, const V<N> &b)
{
    double s = 0;
    for (int i = 0; i < N; i++)
        s += a.c[i] * b.c[i];
    return s;
}
template <int N>
struct Mat
{
    double a[N][N];
    void mul(const V<N> &x, V<N> &y) const
    {
        V<N> t;
        for (int i = 0; i < N; i++)
        {
            t.c[i] = 0;
            for (int j = 0; j < N; j++)
                t.c[i] += a[i][j] * x.c[j];
        }
        y = t;
    }
};
template <int N>
static V<N> symV(const char *n)
{
    V<N> v;
    for (int i = 0; i < N; i++)
        v.c[i] = vc::real(n, -1, 1, i);
    return v;
}
static auto init = [](auto &v) {
    for (auto &x : v.c)
        x = 1e30;
};

// one cycle of subspace size K on the general problem: minimal residual over x0 + span of the Krylov vectors
template <int N, int K>
static void minimalResidual()
{
    Mat<N> H;
    double m[N];
    for (int i = 0; i < N; i++)
    {
        m[i] = N > 3 ? 1.0 : vc::positive("m", 0.5, 2, i);
        for (int j = 0; j < N; j++)
            H.a[i][j] = (i <= j + 1) ? vc::real("H", -1, 1, i, j) : 0.0;
    }
    for (int j = 0; j < K && j + 1 < N; j++)
        vc::assume(H.a[j + 1][j] > 0.05);
    auto x = symV<N>("x");
    if (N > 3)
        for (int i = 0; i < N; i++)
            x.c[i] = 0;
    auto x0 = x;
    double beta = vc::positive("beta", 0.5, 2);
    if (N > 3)
        vc::assume(beta < 100);
    // b such that  M (b - A x0) = beta e1 with A = M^-1 H
    V<N> b;
    H.mul(x0, b);
    b.c[0] += beta;
    for (int i = 0; i < N; i++)
        b.c[i] /= m[i];
    V<N> bIn = b;
    {
        V<N> mb;
        for (int i = 0; i < N; i++)
            mb.c[i] = m[i] * b.c[i];
        if (N <= 3)
            vc::assume(dot<N>(mb, mb) < 1e20); // the breakdown threshold is relative to |M b|
    }
    Linear::GMRES_LeftPreconditioned<V<N>> solver(K, init);
    int nStop = 0;
    double lastRes[3], lastScale[3];
    bool r = solver.solve(
        [&](V<N> &u, V<N> &Au) {
            H.mul(u, Au);
            for (int i = 0; i < N; i++)
                Au.c[i] /= m[i];
        },
        [&](V<N> &u, V<N> &Mu) {
            V<N> t;
            for (int i = 0; i < N; i++)
                t.c[i] = m[i] * u.c[i];
            Mu = t;
        },
        [&](V<N> &u, V<N> &v) { return dot<N>(u, v); },
        b, x, 1,
        [&](uint32_t i, double res, double resB) {
            lastRes[nStop] = res, lastScale[nStop] = resB;
            nStop++;
            return false;
        });
    vc::check(!r, "restarts_exhausted_is_not_convergence");
    vc::ieq(nStop, 2, "stop_criterion_polled_per_cycle");
    vc::eq(lastRes[0], beta, "reported_residual");
    V<N> res; // preconditioned residual at the returned x
    V<N> d;
    for (int i = 0; i < N; i++)
        d.c[i] = x.c[i] - x0.c[i];
    H.mul(d, res);
    for (int i = 0; i < N; i++)
        res.c[i] = -res.c[i];
    res.c[0] += beta;
    vc::eq(lastRes[1] * lastRes[1], dot<N>(res, res), "reported_residual_after_cycle");
    for (int i = K; i < N; i++)
        vc::eq(d.c[i], 0, "update_in_krylov_space", i);
    for (int j = 0; j < K; j++)
    {
        double s = 0;
        for (int i = 0; i < N; i++)
            s += H.a[i][j] * res.c[i];
        vc::eq(s, 0, "residual_orthogonal_to_image", j); // first order optimality == minimal residual (convex)
    }
    for (int i = 0; i < N; i++)
        vc::eq(b.c[i], bIn.c[i], "rhs_untouched", i);
}
CONTRACT(gmres_minimal_n2_k1) { minimalResidual<2, 1>(); }
CONTRACT(gmres_minimal_n3_k1) { minimalResidual<3, 1>(); }
CONTRACT(gmres_minimal_n3_k2) { minimalResidual<3, 2>(); }

// restarting: every cycle continues from the iterate the previous one returned
CONTRACT(gmres_restart_n2_k1)
{
    constexpr int N = 2;
    Mat<N> H;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            H.a[i][j] = vc::real("H", -1, 1, i, j);
    vc::assume(H.a[1][0] > 0.05);
    V<N> x, b, xs[4];
    x.c[0] = x.c[1] = b.c[1] = 0;
    b.c[0] = 1;
    Linear::GMRES_LeftPreconditioned<V<N>> solver(1, init);
    int n = 0;
    solver.solve([&](V<N> &u, V<N> &Au) { H.mul(u, Au); },
                 [&](V<N> &u, V<N> &Mu) { Mu = V<N>(u); },
                 [&](V<N> &u, V<N> &v) { return dot<N>(u, v); },
                 b, x, 2, [&](uint32_t i, double res, double resB) {
                     if (n < 4)
                         xs[n++] = x;
                     return false;
                 });
    if (n != 3) // the second residual is invariant under the operator (or zero): a breakdown, see below
        return;
    V<N> r1, r2, Ar1, t;
    H.mul(xs[1], t);
    for (int i = 0; i < N; i++)
        r1.c[i] = b.c[i] - t.c[i];
    H.mul(x, t);
    for (int i = 0; i < N; i++)
        r2.c[i] = b.c[i] - t.c[i];
    H.mul(r1, Ar1);
    vc::eq(dot<N>(r2, Ar1), 0, "second_cycle_minimal_residual");
    vc::eq((x.c[0] - xs[1].c[0]) * r1.c[1] - (x.c[1] - xs[1].c[1]) * r1.c[0], 0, "second_cycle_update_along_residual");
}

// the Krylov space becomes invariant before the subspace is full: the cycle must still return the exact solution
template <int N, int K, int INV>
static void invariantSubspace()
{
    Mat<N> H;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            H.a[i][j] = (i <= j + 1) ? vc::real("H", -1, 1, i, j) : 0.0;
    for (int j = 0; j + 1 < INV; j++)
        vc::assume(H.a[j + 1][j] > 0.05);
    for (int j = 0; j < INV; j++)
        H.a[INV][j] = 0;
    if (INV == 1)
        vc::assume(H.a[0][0] > 0.1);
    auto x = symV<N>("x");
    auto x0 = x;
    double beta = vc::positive("beta", 0.5, 2);
    V<N> b;
    H.mul(x0, b);
    b.c[0] += beta;
    vc::assume(dot<N>(b, b) > 0 && dot<N>(b, b) < 1e20);
    Linear::GMRES_LeftPreconditioned<V<N>> solver(K, init);
    HardEigen::lsRankDrop = 0;
    solver.solve([&](V<N> &u, V<N> &Au) { H.mul(u, Au); },
                 [&](V<N> &u, V<N> &Mu) { Mu = V<N>(u); },
                 [&](V<N> &u, V<N> &v) { return dot<N>(u, v); },
                 b, x, 1, [&](uint32_t i, double res, double resB) { return false; });
    V<N> r;
    H.mul(x, r);
    for (int i = 0; i < N; i++)
        vc::eq(r.c[i], b.c[i], "solution_exact_on_invariant_subspace", i);
}
CONTRACT(gmres_invariant_1_of_2) { invariantSubspace<2, 2, 1>(); }
CONTRACT(gmres_invariant_2_of_3) { invariantSubspace<3, 3, 2>(); }

// the stopping protocol
CONTRACT(gmres_stop_protocol)
{
    constexpr int N = 2;
    long stopAt = vc::choice("stopAt", 0, 3), nRestart = vc::choice("nRestart", 0, 3);
    Mat<N> H;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            H.a[i][j] = vc::real("H", -1, 1, i, j);
    V<N> x = symV<N>("x"), b = symV<N>("b"), x0 = x;
    Linear::GMRES_LeftPreconditioned<V<N>> solver(1, init);
    HardEigen::lsCalls = 0;
    int polled = 0;
    bool order = true;
    bool r = solver.solve([&](V<N> &u, V<N> &Au) { Au = V<N>(u); Au.c[0] += u.c[1]; },
                          [&](V<N> &u, V<N> &Mu) { Mu = V<N>(u); },
                          [&](V<N> &u, V<N> &v) { return 1.0; }, // norms all 1
                          b, x, nRestart, [&](uint32_t i, double res, double resB) {
                              order = order && (int)i == polled;
                              polled++;
                              return (long)i == stopAt; });
    vc::check(order, "cycles_numbered_in_order");
    vc::ieq(polled, (stopAt < nRestart ? stopAt : nRestart) + 1, "polled_until_stop");
    vc::ieq(HardEigen::lsCalls, stopAt < nRestart ? stopAt : nRestart, "cycles_before_stop");
    vc::check(r == (stopAt < nRestart), "returns_whether_stopped_before_exhaustion");
    if (stopAt == 0 || nRestart == 0)
        for (int i = 0; i < N; i++)
            vc::eq(x.c[i], x0.c[i], "guess_untouched_when_converged", i);
}

// ------------------------------------------------------------------ PCG
template <int N>
struct PcgRun
{
    Mat<N> A;
    double m[N];
    V<N> b, x, x0;
    V<N> P[8];
    int nP = 0;
    PcgRun()
    {
        for (int i = 0; i < N; i++)
        {
            m[i] = vc::positive("m", 0.5, 2, i);
            for (int j = i; j < N; j++)
                A.a[i][j] = A.a[j][i] = i == j ? vc::real("A", 1, 2, i, j) : vc::real("A", -0.3, 0.3, i, j);
        }
        b = symV<N>("b");
        x = x0 = symV<N>("x");
    }
    template <class S, class F>
    bool go(S &s, int niter, F &&stop)
    {
        return s.solve([&](V<N> &p, V<N> &Ap) { if (nP < 8) P[nP++] = p; A.mul(p, Ap); },
                       [&](V<N> &z, V<N> &r) { V<N> t; for (int i = 0; i < N; i++) t.c[i] = m[i] * z.c[i]; r = t; },
                       [&](V<N> &u, V<N> &z) { A.mul(u, z); for (int i = 0; i < N; i++) z.c[i] = (b.c[i] - z.c[i]) / m[i]; },
                       [&](V<N> &u, V<N> &v) { return dot<N>(u, v); }, x, niter, stop);
    }
};
CONTRACT(pcg_exact_n1)
{
    PcgRun<1> R;
    Linear::PCG_PreconditionedRes<V<1>, double> s(init);
    bool r = R.go(s, 1, [](int, double, double) { return false; });
    vc::check(!r, "not_stopped");
    vc::eq(R.A.a[0][0] * R.x.c[0], R.b.c[0], "exact_after_one_step");
}
CONTRACT(pcg_exact_n2)
{
    PcgRun<2> R;
    Linear::PCG_PreconditionedRes<V<2>, double> s(init);
    R.go(s, 2, [](int, double, double) { return false; });
    V<2> t;
    R.A.mul(R.x, t);
    for (int i = 0; i < 2; i++)
        vc::eq(t.c[i], R.b.c[i], "exact_after_two_steps", i);
    vc::ieq(s.getPHistorySize(), 2, "direction_count");
}
CONTRACT(pcg_conjugate_n3)
{
    PcgRun<3> R;
    Linear::PCG_PreconditionedRes<V<3>, double> s(init);
    R.go(s, 2, [](int, double, double) { return false; });
    vc::ieq(R.nP, 2, "one_operator_application_per_step");
    V<3> Ap, t;
    R.A.mul(R.P[1], Ap);
    vc::eq(dot<3>(R.P[0], Ap), 0, "directions_conjugate");
}
// A-norm optimality in the eigenbasis of the operator (every symmetric operator has one)
CONTRACT(pcg_optimal_n3)
{
    PcgRun<3> R;
    for (int i = 0; i < 3; i++)
    {
        R.m[i] = 1;
        R.x.c[i] = 0;
        for (int j = 0; j < 3; j++)
            if (i != j)
                R.A.a[i][j] = 0;
    }
    Linear::PCG_PreconditionedRes<V<3>, double> s(init);
    R.go(s, 2, [](int, double, double) { return false; });
    V<3> t;
    R.A.mul(R.x, t);
    for (int k = 0; k < 2; k++)
    {
        double d = 0;
        for (int i = 0; i < 3; i++)
            d += R.P[k].c[i] * (R.b.c[i] - t.c[i]);
        vc::eq(d, 0, "error_minimised_over_directions", k); // A-norm optimality
    }
}
// continuing a solve keeps the search history; reset() discards it
CONTRACT(pcg_continue_and_reset)
{
    PcgRun<2> R;
    Linear::PCG_PreconditionedRes<V<2>, double> s(init), s1(init);
    PcgRun<2> Q = R;
    auto no = [](int, double, double) { return false; };
    R.go(s, 1, no);
    R.go(s, 1, no);
    V<2> t;
    R.A.mul(R.x, t);
    for (int i = 0; i < 2; i++)
        vc::eq(t.c[i], R.b.c[i], "two_single_steps_are_one_double_step", i);
    Q.go(s1, 1, no);
    V<2> xa = Q.x;
    s1.reset();
    vc::ieq(s1.getPHistorySize(), 0, "reset_clears_history");
    Q.go(s1, 1, no);
    // after reset: a steepest-descent step from xa
    PcgRun<2> F = R;
    F.x = xa;
    Linear::PCG_PreconditionedRes<V<2>, double> s2(init);
    F.go(s2, 1, no);
    for (int i = 0; i < 2; i++)
        vc::eq(Q.x.c[i], F.x.c[i], "reset_restarts", i);
}
CONTRACT(pcg_stop_protocol)
{
    PcgRun<2> R;
    Linear::PCG_PreconditionedRes<V<2>, double> s(init);
    long stopAt = vc::choice("stopAt", 1, 3), niter = vc::choice("niter", 0, 2);
    int polled = 0;
    V<2> t, z;
    R.A.mul(R.x, t);
    double zr = 0, zz = 0;
    for (int i = 0; i < 2; i++)
    {
        z.c[i] = (R.b.c[i] - t.c[i]) / R.m[i];
        zr += z.c[i] * z.c[i] * R.m[i], zz += z.c[i] * z.c[i];
    }
    double g1 = 0, g2 = 0;
    bool r = R.go(s, niter, [&](int it, double a, double c) {
        if (polled == 0)
            g1 = a, g2 = c;
        polled++;
        return it == stopAt;
    });
    vc::check(r == (stopAt <= niter), "returns_whether_stopped");
    vc::ieq(polled, stopAt <= niter ? stopAt : niter, "polled_until_stop");
    if (niter > 0)
    {
        vc::eq(g1, zr, "reported_energy_residual");
        vc::eq(g2, zz, "reported_residual");
    }
    if (stopAt == 1 || niter == 0)
        for (int i = 0; i < 2; i++)
            vc::eq(R.x.c[i], R.x0.c[i], "guess_untouched_when_converged", i);
}
// however the steps are divided among calls, the iterates are those of one call
CONTRACT(pcg_any_division)
{
    PcgRun<3> R;
    PcgRun<3> Q = R;
    Linear::PCG_PreconditionedRes<V<3>, double> s(init), s1(init);
    auto no = [](int, double, double) { return false; };
    Q.go(s1, 3, no);
    long first = vc::choice("first", 0, 3), second = vc::choice("second", 0, 2);
    R.go(s, (int)first, no), R.go(s, (int)second, no);
    if (first + second < 3)
        R.go(s, (int)(3 - first - second), no);
    if (first + second <= 3)
        for (int i = 0; i < 3; i++)
            vc::eq(R.x.c[i], Q.x.c[i], "same_iterate", i);
}
