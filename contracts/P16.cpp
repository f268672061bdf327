// P16: viscous flux and gradient conversion
#include "gas_common.hpp"
using Eigen::Matrix;

template <int dim>
struct Visc
{
    double gamma, mu, k, Cp, mutRatio;
    State<dim> S;
    Matrix<double, dim, dim + 2> G; // rows: d/dx_i, columns: rho, velocity, pressure
    Vector<double, dim> n;
};
template <int dim>
static Visc<dim> visc()
{
    Visc<dim> V;
    V.gamma = gammaIn();
    V.S = physState<dim>("s", "a", "v", V.gamma);
    V.mu = vc::positive("mu", 0.1, 2);
    V.k = vc::positive("k", 0.1, 2);
    V.Cp = vc::positive("Cp", 0.5, 2);
    V.mutRatio = vc::real("mutRatio", 0, 1);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim + 2; j++)
            V.G(i, j) = vc::real("G", -2, 2, i, j);
    V.n = unitN<dim>("n");
    return V;
}
template <int dim>
static Vector<double, dim + 2> vflux(const Visc<dim> &V, const Vector<double, dim> &n, bool adiabatic, bool qcr)
{
    Vector<double, dim + 2> F;
    G::ViscousFlux_IdealGas<dim>(V.S.U, V.G, n, adiabatic, V.gamma, V.mu, V.mutRatio, qcr, V.k, V.Cp, F);
    return F;
}
// Newtonian stress with Stokes' hypothesis; L(i,j) = d v_j / d x_i
template <int dim>
static Matrix<double, dim, dim> newton(const Matrix<double, dim, dim + 2> &G, double mu)
{
    Matrix<double, dim, dim> T;
    double div = 0;
    for (int i = 0; i < dim; i++)
        div += G(i, 1 + i);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            T(i, j) = mu * (G(i, 1 + j) + G(j, 1 + i)) - (i == j ? vc::frac(2, 3) * mu * div : 0.0);
    return T;
}
template <int dim>
static void formula(bool adiabatic, bool qcr)
{
    auto V = visc<dim>();
    auto F = vflux<dim>(V, V.n, adiabatic, qcr);
    auto T = newton<dim>(V.G, V.mu);
    if (qcr)
    { // quadratic constitutive relation: T_ij - c mutRatio (O_ik T_jk + O_jk T_ik), O = normalised rotation tensor
        double b = 0;
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
                b += V.G(i, 1 + j) * V.G(i, 1 + j);
        b = std::sqrt(b);
        vc::assume(b > 0);
        Matrix<double, dim, dim> Q;
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
            {
                Q(i, j) = 0;
                for (int k = 0; k < dim; k++)
                    Q(i, j) += (V.G(k, 1 + i) - V.G(i, 1 + k)) / b * T(j, k) + (V.G(k, 1 + j) - V.G(j, 1 + k)) / b * T(i, k);
            }
        T = (T - vc::frac(3, 10) * V.mutRatio * Q).eval();
    }
    Vector<double, dim> gT;
    for (int i = 0; i < dim; i++)
        gT(i) = vc::dir([&](double h) { // temperature = gamma/(gamma-1) p/(rho Cp) along x_i
            return V.gamma / (V.gamma - 1) * (V.S.p + h * V.G(i, dim + 1)) / ((V.S.rho + h * V.G(i, 0)) * V.Cp);
        });
    double q = 0, gn = 0, w = 0;
    for (int i = 0; i < dim; i++)
        q += V.k * gT(i) * V.n(i);
    if (adiabatic)
        q = 0;
    vc::eq(F(0), 0, "no-mass-flux");
    for (int i = 0; i < dim; i++)
    {
        double t = 0;
        for (int j = 0; j < dim; j++)
            t += T(i, j) * V.n(j);
        vc::eq(F(1 + i), t, "viscous-stress", i);
        w += t * V.S.v(i);
    }
    vc::eq(F(dim + 1), w + q, "viscous-work-and-heat-flux");
}
CONTRACT(newtonian_2d) { formula<2>(false, false); }
CONTRACT(newtonian_3d) { formula<3>(false, false); }
CONTRACT(adiabatic_2d) { formula<2>(true, false); }
CONTRACT(adiabatic_3d) { formula<3>(true, false); }
CONTRACT(qcr_2d) { formula<2>(false, true); }
CONTRACT(qcr_3d) { formula<3>(false, true); }
CONTRACT(adiabatic_qcr_2d) { formula<2>(true, true); }
CONTRACT(adiabatic_qcr_3d) { formula<3>(true, true); }

// the stress is symmetric (angular momentum) and the flux is odd in the normal (conservation across a face)
template <int dim>
static void symmetric(bool qcr)
{
    auto V = visc<dim>();
    auto m = unitN<dim>("m");
    auto F = vflux<dim>(V, V.n, false, qcr), Fm = vflux<dim>(V, m, false, qcr);
    double a = 0, b = 0;
    for (int i = 0; i < dim; i++)
        a += F(1 + i) * m(i), b += Fm(1 + i) * V.n(i);
    vc::eq(a, b, "stress-symmetric");
}
CONTRACT(symmetric_2d) { symmetric<2>(false); }
CONTRACT(symmetric_3d) { symmetric<3>(false); }
CONTRACT(symmetric_qcr_2d) { symmetric<2>(true); }
CONTRACT(symmetric_qcr_3d) { symmetric<3>(true); }
template <int dim>
static void odd(bool adiabatic, bool qcr)
{
    auto V = visc<dim>();
    Vector<double, dim> m = -V.n;
    auto F = vflux<dim>(V, V.n, adiabatic, qcr), Fm = vflux<dim>(V, m, adiabatic, qcr);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), -Fm(i), "odd-in-normal", i);
}
CONTRACT(odd_2d) { odd<2>(false, true); }
CONTRACT(odd_3d) { odd<3>(false, true); }
CONTRACT(odd_adiabatic_2d) { odd<2>(true, false); }
CONTRACT(odd_adiabatic_3d) { odd<3>(true, false); }
// rigid-body motion of a uniform gas produces no viscous flux
template <int dim>
static void rigid(bool qcr)
{
    auto V = visc<dim>();
    V.G.setZero();
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < i; j++)
        {
            double w = vc::real("w", -2, 2, i, j);
            V.G(i, 1 + j) = w;
            V.G(j, 1 + i) = -w;
        }
    if (qcr)
        vc::assume(V.G.squaredNorm() > 0);
    auto F = vflux<dim>(V, V.n, false, qcr);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), 0, "rigid-motion-free", i);
}
CONTRACT(rigid_2d) { rigid<2>(false); }
CONTRACT(rigid_3d) { rigid<3>(false); }
CONTRACT(rigid_qcr_2d) { rigid<2>(true); }
CONTRACT(rigid_qcr_3d) { rigid<3>(true); }
// viscosity dissipates: stress : velocity gradient >= 0
template <int dim>
static void dissipates()
{
    auto V = visc<dim>();
    double D = 0;
    for (int j = 0; j < dim; j++)
    {
        Vector<double, dim> e;
        e.setZero();
        e(j) = 1;
        auto F = vflux<dim>(V, e, false, false);
        for (int i = 0; i < dim; i++)
            D += F(1 + i) * V.G(j, 1 + i);
    }
    vc::le(0, D, "dissipation-nonnegative");
}
CONTRACT(dissipates_2d) { dissipates<2>(); }
CONTRACT(dissipates_3d) { dissipates<3>(); }

// gradient of conserved -> gradient of primitive variables is the chain rule (nx transported scalars)
template <int dim, int nx>
static void gradPrim()
{
    const int nv = dim + 2 + nx;
    double gamma = gammaIn();
    Vector<double, nv> U;
    for (int i = 0; i < nv; i++)
        U(i) = vc::real("U", 0.5, 3, i);
    vc::assume(U(0) > 0);
    Matrix<double, dim, nv> Gc, Gp;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < nv; j++)
            Gc(i, j) = vc::real("G", -2, 2, i, j), Gp(i, j) = 0;
    G::GradientCons2Prim_IdealGas<dim>(U, Gc, Gp, gamma);
    auto gv = G::GetGradVelo<dim>(U, Gc);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < nv; j++)
        {
            double d = vc::dir([&](double h) {
                Vector<double, nv> W, P;
                for (int q = 0; q < nv; q++)
                    W(q) = U(q) + h * Gc(i, q);
                G::IdealGasThermalConservative2Primitive<dim>(W, P, gamma);
                return P(j);
            });
            vc::eq(Gp(i, j), d, "primitive-gradient", i, j);
            if (j >= 1 && j <= dim)
                vc::eq(gv(i, j - 1), d, "velocity-gradient", i, j);
        }
}
CONTRACT(gradprim_2d) { gradPrim<2, 0>(); }
CONTRACT(gradprim_3d) { gradPrim<3, 0>(); }
CONTRACT(gradprim_2d_scalars) { gradPrim<2, 1>(); }
CONTRACT(gradprim_3d_scalars) { gradPrim<3, 2>(); }
