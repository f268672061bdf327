// P14: characteristic decomposition and linearised fluxes are the exact derivatives of the Euler flux
#include "gas_common.hpp"

template <int dim>
static Vector<double, dim + 2> fluxOf(const Vector<double, dim + 2> &U, const Vector<double, dim> &vg, const Vector<double, dim> &n, double gamma)
{
    Vector<double, dim> velo = U.template segment<dim>(1) / U(0);
    double p, asqr, H;
    G::IdealGasThermal(U(dim + 1), U(0), velo.squaredNorm(), gamma, p, asqr, H);
    Vector<double, dim + 2> F;
    G::GasInviscidFlux_XY<dim>(U, velo, vg, n, p, F);
    return F;
}
template <int dim>
static void physicalFlux()
{
    double gamma = gammaIn();
    auto S = physState<dim>("s", "a", "v", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    auto F = fluxOf<dim>(S.U, vg, n, gamma);
    auto Fe = exactFlux<dim>(S, vg, n);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), Fe(i), "physical-flux", i);
    // x-direction form
    Vector<double, dim> ex;
    ex.setZero();
    ex(0) = 1;
    Vector<double, dim + 2> Fx;
    G::GasInviscidFlux<dim>(S.U, S.v, vg, S.p, Fx);
    auto Fxe = exactFlux<dim>(S, vg, ex);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(Fx(i), Fxe(i), "physical-flux-x", i);
}
CONTRACT(flux_2d) { physicalFlux<2>(); }
CONTRACT(flux_3d) { physicalFlux<3>(); }

template <int dim>
static void fluxBatch()
{
    const int nB = 2;
    double gamma = gammaIn();
    Eigen::Matrix<double, dim + 2, -1, Eigen::ColMajor, dim + 2, G::MaxBatch> U(dim + 2, nB), F(dim + 2, nB), Fx(dim + 2, nB);
    Eigen::Matrix<double, dim, -1, Eigen::ColMajor, dim, G::MaxBatch> V(dim, nB), vg(dim, nB), n(dim, nB);
    Eigen::Matrix<double, 1, -1, Eigen::RowMajor, 1, G::MaxBatch> p(1, nB);
    for (int b = 0; b < nB; b++)
    {
        for (int i = 0; i < dim + 2; i++)
            U(i, b) = vc::real("U", 0.5, 3, i, b);
        for (int i = 0; i < dim; i++)
            V(i, b) = vc::real("v", -2, 2, i, b), vg(i, b) = vc::real("vg", -2, 2, i, b), n(i, b) = vc::real("n", -1, 1, i, b);
        p(b) = vc::real("p", 0.2, 2, b);
    }
    G::GasInviscidFlux_XY_Batch<dim>(U, V, vg, n, p, F);
    G::GasInviscidFlux_Batch<dim>(U, V, vg, p, Fx);
    for (int b = 0; b < nB; b++)
    {
        Vector<double, dim + 2> Ub = U.col(b), Fb, Fxb;
        Vector<double, dim> Vb = V.col(b), vgb = vg.col(b), nb = n.col(b);
        G::GasInviscidFlux_XY<dim>(Ub, Vb, vgb, nb, p(b), Fb);
        G::GasInviscidFlux<dim>(Ub, Vb, vgb, p(b), Fxb);
        for (int i = 0; i < dim + 2; i++)
        {
            vc::eq(F(i, b), Fb(i), "flux-batch-equals-pointwise", i, b);
            vc::eq(Fx(i, b), Fxb(i), "flux-x-batch-equals-pointwise", i, b);
        }
    }
}
CONTRACT(flux_batch_2d) { fluxBatch<2>(); }
CONTRACT(flux_batch_3d) { fluxBatch<3>(); }

template <int dim>
static void eigen()
{
    double gamma = gammaIn();
    auto S = physState<dim>("s", "a", "v", gamma);
    auto R = G::IdealGas_EulerGasRightEigenVector<dim>(S.U, gamma);
    auto L = G::IdealGas_EulerGasLeftEigenVector<dim>(S.U, gamma);
    for (int i = 0; i < dim + 2; i++)
        for (int j = 0; j < dim + 2; j++)
        {
            double q = 0, r = 0;
            for (int k = 0; k < dim + 2; k++)
                q += L(i, k) * R(k, j), r += R(i, k) * L(k, j);
            vc::eq(q, i == j ? 1 : 0, "left-times-right", i, j);
            vc::eq(r, i == j ? 1 : 0, "right-times-left", i, j);
        }
    // flux Jacobian in x
    Vector<double, dim> ex, vg0;
    ex.setZero(), vg0.setZero();
    ex(0) = 1;
    Vector<double, dim + 2> W;
    for (int i = 0; i < dim + 2; i++)
        W(i) = vc::real("W", 0.5, 3, i);
    Vector<double, dim + 2> lam;
    for (int k = 0; k < dim + 2; k++)
        lam(k) = k == 0 ? S.v(0) - S.a : (k == dim + 1 ? S.v(0) + S.a : S.v(0));
    // R is the matrix of eigenvectors of dF/dU : dF(U; R_k) = lam_k R_k
    for (int k = 0; k < dim + 2; k++)
        for (int i = 0; i < dim + 2; i++)
        {
            double d = vc::dir(
                [&](double h)
                {
                    Vector<double, dim + 2> Uh;
                    for (int m = 0; m < dim + 2; m++)
                        Uh(m) = S.U(m) + h * R(m, k);
                    return fluxOf<dim>(Uh, vg0, ex, gamma)(i);
                });
            vc::eq(d, lam(k) * R(i, k), "eigenvector-of-flux-jacobian", i, k);
        }
}
CONTRACT(eigen_2d) { eigen<2>(); }
CONTRACT(eigen_3d) { eigen<3>(); }

template <int dim>
static void increments()
{
    double gamma = gammaIn();
    auto S = physState<dim>("s", "a", "v", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    Vector<double, dim + 2> dU;
    for (int i = 0; i < dim + 2; i++)
        dU(i) = vc::real("dU", -1, 1, i);
    Vector<double, dim> dV;
    double dp;
    G::IdealGasUIncrement<dim>(S.U, dU, S.v, gamma, dV, dp);
    auto Uh = [&](double h)
    {
        Vector<double, dim + 2> r;
        for (int m = 0; m < dim + 2; m++)
            r(m) = S.U(m) + h * dU(m);
        return r;
    };
    auto prim = [&](int i, double h)
    {
        Vector<double, dim + 2> P;
        G::IdealGasThermalConservative2Primitive<dim>(Uh(h), P, gamma);
        return P(i);
    };
    for (int i = 0; i < dim; i++)
        vc::eq(dV(i), vc::dir([&](double h) { return prim(1 + i, h); }), "velocity-increment", i);
    vc::eq(dp, vc::dir([&](double h) { return prim(dim + 1, h); }), "pressure-increment");
    Vector<double, dim + 2> dF;
    G::GasInviscidFluxFacialIncrement<dim>(S.U, dU, n, S.v, dV, vg, dp, S.p, dF);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(dF(i), vc::dir([&](double h) { return fluxOf<dim>(Uh(h), vg, n, gamma)(i); }), "flux-increment", i);
}
CONTRACT(increments_2d) { increments<2>(); }
CONTRACT(increments_3d) { increments<3>(); }
