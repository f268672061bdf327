// P17: the flux the flow solver puts through a face, and its Jacobians: exact for equal states, assembled from the Riemann,
// viscous and turbulence-transport fluxes, in every model and scheme
#include "eval_common.hpp"
#define FLUXFACE(M)                                                                                                                       \
    template EulerEvaluator<M>::TU_Batch EulerEvaluator<M>::fluxFace(                                                                     \
        const TU_Batch &, const TU_Batch &, const TU &, const TU &, const TDiffU_Batch &, const TDiffU_Batch &, const TVec_Batch &,        \
        const TVec_Batch &, const TVec &, const TVec &, TU_Batch &, TU_Batch &, TReal_Batch &, TReal_Batch &, TReal_Batch &,               \
        Geom::t_index, typename Gas::RiemannSolverType, DNDS::index, bool);
#define SOURCE(M)                                                                                                                         \
    template EulerEvaluator<M>::TU EulerEvaluator<M>::source(const TU &, const TDiffU &, const Geom::tPoint &, TJacobianU &, DNDS::index, \
                                                             DNDS::index, int);
namespace DNDS::Euler
{
    FLUXFACE(NS_2D)
    FLUXFACE(NS_3D)
    FLUXFACE(NS_SA_3D)
    FLUXFACE(NS_2EQ_3D)
    SOURCE(NS_2D)
    SOURCE(NS_3D)
}
static void noDump() {}
static constexpr Geom::t_index INNER = Geom::BC_ID_INTERNAL;

template <EulerModel M>
struct Face
{
    using EV = EulerEvaluator<M>;
    static constexpr int dim = EV::dim, nV = EV::nVarsFixed;
    int nB;
    typename EV::TU_Batch UL, UR, FL, FR, out;
    typename EV::TU ULm, URm;
    typename EV::TDiffU_Batch G, GP;
    typename EV::TVec_Batch n, vg;
    typename EV::TVec nC, vgC;
    typename EV::TReal_Batch l0, l1, l4;
    Face(int nB) : nB(nB)
    {
        UL.resize(nV, nB), UR.resize(nV, nB), n.resize(dim, nB), vg.resize(dim, nB);
        G.resize(dim * nB, nV), GP.resize(dim * nB, nV);
        for (int i = 0; i < dim * nB; i++)
            for (int j = 0; j < nV; j++)
                G(i, j) = vc::real("dU", -1, 1, i, j), GP(i, j) = vc::real("dW", -1, 1, i, j);
        for (int b = 0; b < nB; b++)
        {
            auto nb = unitN<dim>(b ? "n1" : "n");
            auto g = vec<dim>(b ? "vg1" : "vg");
            for (int i = 0; i < dim; i++)
                n(i, b) = nb(i), vg(i, b) = g(i);
            nC = nb, vgC = g;
        }
        vc::assume(true);
    }
    void run(Eval<M> &ev, Geom::t_index bc, G::RiemannSolverType t, bool ignoreVis)
    {
        out = ev->fluxFace(UL, UR, ULm, URm, G, GP, n, vg, nC, vgC, FL, FR, l0, l1, l4, bc, t, 0, ignoreVis);
    }
};
// laminar viscosity of the three models
template <EulerModel M>
static double muOf(Eval<M> &ev, double rho, double T)
{
    int m = ev->settings.idealGasProperty.muModel;
    double t = T / ev.TRef;
    return m == 0 ? ev.mu : m == 2 ? ev.mu * rho : ev.mu * t * std::sqrt(t) * (ev.TRef + ev.CSut) / (T + ev.CSut);
}
// Newtonian stress (viscosity mu) and Fourier heat flux (conductivity k) through n at state S
template <int dim, class TG, class TN>
static Vector<double, dim + 2> viscous(const State<dim> &S, const TG &W, const TN &n, double mu, double k, double Cp, double gamma, bool adiabatic)
{
    Vector<double, dim + 2> F;
    double div = 0, q = 0;
    for (int i = 0; i < dim; i++)
        div += W(i, 1 + i);
    F(0) = 0, F(dim + 1) = 0;
    for (int i = 0; i < dim; i++)
    {
        F(1 + i) = 0;
        for (int j = 0; j < dim; j++)
            F(1 + i) += mu * (W(i, 1 + j) + W(j, 1 + i)) * n(j);
        F(1 + i) -= vc::frac(2, 3) * mu * div * n(i);
        F(dim + 1) += F(1 + i) * S.v(i);
        q += (W(i, dim + 1) - S.p / S.rho * W(i, 0)) / (S.rho * Cp) * gamma / (gamma - 1) * n(i); // grad T . n,  T = p gamma / ((gamma-1) Cp rho)
    }
    if (!adiabatic)
        F(dim + 1) += k * q;
    return F;
}
// equal states on both sides of a face: minus the exact convective flux plus the viscous flux, at every quadrature point
template <EulerModel M, int nB>
static void exactNS(G::RiemannSolverType t, bool wall, bool vis, bool means)
{
    constexpr int dim = EulerEvaluator<M>::dim;
    Eval<M> ev;
    ev->settings.idealGasProperty.muModel = vis ? (int)vc::choice("muModel", 0, 2) : 0;
    Face<M> f(nB);
    State<dim> S[nB];
    for (int b = 0; b < nB; b++)
    {
        S[b] = physState<dim>(b ? "s1" : "s", b ? "a1" : "a", b ? "v1" : "v", ev.gamma);
        for (int i = 0; i < dim + 2; i++)
            f.UL(i, b) = f.UR(i, b) = S[b].U(i);
    }
    f.ULm = f.URm = S[0].U;
    ev->deltaLambdaFace[0] = vc::positive("dLambda", 0, 1);
    f.run(ev, wall ? Geom::BC_ID_DEFAULT_WALL : INNER, t, !vis);
    for (int b = 0; b < nB; b++)
    {
        Vector<double, dim> n = f.n.col(b), vg = f.vg.col(b);
        auto F = exactFlux<dim>(S[b], vg, n);
        Vector<double, dim + 2> V;
        V.setZero();
        if (vis)
        {
            double T = S[b].p / (ev.Rgas * S[b].rho), mu = muOf(ev, S[b].rho, T);
            V = viscous<dim>(S[b], f.GP.middleRows(b * dim, dim), n, mu, ev.Cp * mu / ev.Pr, ev.Cp, ev.gamma, wall);
        }
        for (int i = 0; i < dim + 2; i++)
            vc::eq(f.out(i, b), V(i) - F(i), "exact-flux", i, b);
    }
}
CONTRACT(exact_roe_2d) { exactNS<NS_2D, 2>(G::Roe, false, false, false); }
CONTRACT(exact_roe_3d) { exactNS<NS_3D, 2>(G::Roe, false, false, false); }
CONTRACT(exact_hllc_2d) { exactNS<NS_2D, 1>(G::HLLC, false, false, false); }
CONTRACT(exact_viscous_2d) { exactNS<NS_2D, 1>(G::Roe_M2, false, true, false); }
CONTRACT(exact_viscous_3d) { exactNS<NS_3D, 1>(G::Roe_M2, false, true, false); }
CONTRACT(exact_viscous_batch_2d) { exactNS<NS_2D, 2>(G::Roe_M2, false, true, false); }
CONTRACT(exact_wall_2d) { exactNS<NS_2D, 1>(G::Roe_M2, true, true, false); }
CONTRACT(exact_wall_3d) { exactNS<NS_3D, 1>(G::Roe_M2, true, true, false); }

// the Riemann flux of the solver in use, as contracted by P15
template <int dim, int nV>
struct RS
{
    Vector<double, nV> F;
    double l0, l1, l4;
};
template <int dim, int nV, class TN>
static RS<dim, nV> riemann(G::RiemannSolverType t, const Vector<double, nV> &UL, const Vector<double, nV> &UR, const Vector<double, nV> &ULm,
                           const Vector<double, nV> &URm, const Vector<double, dim> &vg, const TN &n, double gamma, double dl)
{
    RS<dim, nV> r;
    r.F.setZero();
    G::InviscidFlux_IdealGas_Dispatcher<dim>(t, UL, UR, ULm, URm, vg, n, gamma, r.F, dl, noDump, r.l0, r.l1, r.l4);
    return r;
}
// different states on the two sides: Riemann flux, plus upwinded turbulence scalars carried by the relative normal velocity,
// plus the isotropic turbulent stress 2/3 rho k acting along the face normal
template <EulerModel M>
static void convective(G::RiemannSolverType t, int eigScheme, bool turbOnly = false)
{
    constexpr int dim = EulerEvaluator<M>::dim, nV = EulerEvaluator<M>::nVarsFixed;
    Eval<M> ev;
    ev->settings.idealGasProperty.muModel = 0;
    ev->settings.ransEigScheme = eigScheme;
    Face<M> f(1);
    auto SL = physState<dim>("sL", "aL", "vL", ev.gamma);
    auto SR = physState<dim>("sR", "aR", "vR", ev.gamma);
    Vector<double, nV> UL = widen<dim, nV>(SL.U, "tL"), UR = widen<dim, nV>(SR.U, "tR");
    f.UL.col(0) = UL, f.UR.col(0) = UR;
    f.ULm = UL, f.URm = UR;
    double dl = ev->deltaLambdaFace[0] = vc::positive("dLambda", 0, 1);
    f.run(ev, INNER, t, true);
    Vector<double, dim> n = f.n.col(0), vg = f.vg.col(0);
    auto r = riemann<dim, nV>(t, UL, UR, UL, UR, vg, n, ev.gamma, dl);
    Vector<double, nV> F = r.F;
    double wL = 0, wR = 0, rM = (UL(0) + UR(0)) / 2, vM = 0;
    for (int i = 0; i < dim; i++)
        wL += (SL.v(i) - vg(i)) * n(i), wR += (SR.v(i) - vg(i)) * n(i), vM += (UL(1 + i) + UR(1 + i)) / 2 * n(i) / rM;
    double lam = eigScheme ? std::max(std::max(r.l1, r.l0), r.l4) : r.l1;
    for (int i = dim + 2; i < nV; i++)
        F(i) = (wL * UL(i) + wR * UR(i) - lam * (UR(i) - UL(i))) / 2;
    if (nV == dim + 4)
    {
        double pk = vc::frac(2, 3) * (UL(dim + 2) + UR(dim + 2)) / 2;
        for (int i = 0; i < dim; i++)
            F(1 + i) += pk * n(i);
        F(dim + 1) += pk * vM;
    }
    for (int i = 0; i < nV; i++)
        vc::eq(f.out(i, 0), -F(i), "convective-flux", i);
}
CONTRACT(convective_2d) { convective<NS_2D>(G::Roe_M2, 0); }
CONTRACT(convective_3d) { convective<NS_3D>(G::Roe_M2, 0); }
CONTRACT(convective_sa) { convective<NS_SA_3D>(G::Roe_M2, 0); }
CONTRACT(convective_sa_maxspeed) { convective<NS_SA_3D>(G::Roe_M2, 1); }
CONTRACT(convective_2eq) { convective<NS_2EQ_3D>(G::Roe_M2, 0); }
CONTRACT(convective_2eq_maxspeed) { convective<NS_2EQ_3D>(G::Roe_M2, 1); }
CONTRACT(convective_hllc) { convective<NS_SA_3D>(G::HLLC, 0); }

// Rotated scheme (2-D): the face normal is split into a part along the velocity jump and a part across it, both with non-negative weight;
// the flux is the weighted sum of the fluxes in the two directions (so it keeps the sign of the dissipation), the reported speeds are
// the weighted means.
static void rotated(G::RiemannSolverType t, G::RiemannSolverType aux, int meanEig)
{
    Eval<NS_2D> ev;
    ev->settings.idealGasProperty.muModel = 0;
    ev->settings.rsRotateScheme = 1;
    ev->settings.rsTypeAux = aux;
    ev->settings.rsMeanValueEig = meanEig;
    Face<NS_2D> f(1);
    auto SL = physState<2>("sL", "aL", "vL", ev.gamma);
    // directions of the jump: a sample (the scheme commutes with rotations of the frame)
    Vector<double, 2> e{vc::frac(3, 5), vc::frac(4, 5)};
    double m = vc::positive("m", 0.1, 2); // size of the velocity jump
    State<2> SR;
    SR.s = vc::positive("sR", 0.3, 2), SR.rho = SR.s * SR.s, SR.a = vc::positive("aR", 0.4, 2);
    SR.v = SL.v + m * e;
    SR.p = SR.rho * SR.a * SR.a / ev.gamma;
    SR.E = SR.p / (ev.gamma - 1) + 0.5 * SR.rho * (SR.v(0) * SR.v(0) + SR.v(1) * SR.v(1));
    SR.U << SR.rho, SR.rho * SR.v(0), SR.rho * SR.v(1), SR.E;
    // well away from a vanishing jump, where the plain scheme takes over
    double vl = SL.v.norm(), vr = SR.v.norm();
    vc::assume(!(m < (smallReal * 10) * (vl + vr)));
    vc::assume(!(m < std::sqrt(verySmallReal)));
    // bounded: the face normal makes a fixed angle with the jump, in each of the four quadrants (all states, speeds and jumps are free)
    int quad = vc::choice("quad", 0, 3);
    bool cp = quad & 1, sp = quad & 2;
    double c = cp ? vc::frac(5, 13) : -vc::frac(5, 13), s = sp ? vc::frac(12, 13) : -vc::frac(12, 13);
    Vector<double, 2> n{c * e(0) - s * e(1), c * e(1) + s * e(0)};
    f.n.col(0) = n, f.nC = n;
    f.UL.col(0) = SL.U, f.UR.col(0) = SR.U;
    f.ULm = SL.U, f.URm = SR.U;
    double dl = ev->deltaLambdaFace[0] = vc::positive("dLambda", 0, 1);
    f.run(ev, INNER, t, true);
    double k1 = cp ? c : -c, k2 = sp ? s : -s;
    Vector<double, 2> n1 = e, n2{-e(1), e(0)}, vg = f.vg.col(0);
    if (!cp)
        n1 = -n1;
    if (!sp)
        n2 = -n2;
    auto r1 = riemann<2, 4>(aux == G::UnknownRS ? t : aux, SL.U, SR.U, SL.U, SR.U, vg, n1, ev.gamma, dl);
    auto r2 = riemann<2, 4>(t, SL.U, SR.U, SL.U, SR.U, vg, n2, ev.gamma, dl);
    for (int i = 0; i < 4; i++)
        vc::eq(f.out(i, 0), -(k1 * r1.F(i) + k2 * r2.F(i)), "rotated-flux", i);
    vc::eq(f.l0(0), (k1 * r1.l0 + k2 * r2.l0) / (k1 + k2), "rotated-speed", 0);
    vc::eq(f.l1(0), (k1 * r1.l1 + k2 * r2.l1) / (k1 + k2), "rotated-speed", 1);
    vc::eq(f.l4(0), (k1 * r1.l4 + k2 * r2.l4) / (k1 + k2), "rotated-speed", 4);
}
CONTRACT(rotated_m2) { rotated(G::Roe_M2, G::UnknownRS, 0); }
CONTRACT(rotated_m2_mean) { rotated(G::Roe_M2, G::UnknownRS, 1); }

// a conserved state with every component free (density positive)
template <int dim, int nV>
static Vector<double, nV> consState(const char *rho, const char *m)
{
    Vector<double, nV> U;
    U(0) = vc::positive(rho, 0.5, 2);
    for (int i = 1; i < nV; i++)
        U(i) = vc::real(m, i == dim + 1 ? 6 : -1, i == dim + 1 ? 9 : 1, i);
    return U;
}
// the exact flux, turbulence scalars carried with the flow
template <int dim, int nV>
static Vector<double, nV> carried(const Vector<double, nV> &U, double gamma, const Vector<double, dim> &vg, const Vector<double, dim> &n)
{
    Vector<double, dim + 2> Ug;
    for (int i = 0; i < dim + 2; i++)
        Ug(i) = U(i);
    auto F = fluxOf<dim>(Ug, gamma, vg, n);
    Vector<double, nV> r;
    for (int i = 0; i < nV; i++)
        r(i) = i < dim + 2 ? F(i) : F(0) / U(0) * U(i);
    return r;
}
// The linearised flux of the implicit solver is the derivative of the exact flux, plus the requested scalar dissipation
template <EulerModel M>
static void jacobian(int what)
{
    constexpr int dim = EulerEvaluator<M>::dim, nV = EulerEvaluator<M>::nVarsFixed;
    Eval<M> ev;
    using TU = typename EulerEvaluator<M>::TU;
    TU U = consState<dim, nV>("rho", "U"), dU, UO = U;
    for (int i = 0; i < nV; i++)
        dU(i) = vc::real("dU", -1, 1, i);
    Vector<double, dim> n = unitN<dim>("n"), vg = vec<dim>("vg");
    if (what == 3)
        vg.setZero();
    Eigen::Matrix<double, nV, nV> J;
    for (int j = 0; j < nV; j++)
        for (int i = 0; i < nV; i++)
            J(i, j) = vc::partial([&]() { return carried<dim, nV>(U, ev.gamma, vg, n)(i); }, U(j));
    Vector<double, nV> D;
    for (int i = 0; i < nV; i++)
    {
        D(i) = 0;
        for (int j = 0; j < nV; j++)
            D(i) += J(i, j) * dU(j);
    }
    if (what == 0)
    {
        TU r = ev->fluxJacobianC_Right_Times_du(U, n, vg, INNER, dU);
        for (int i = 0; i < nV; i++)
            vc::eq(r(i), D(i), "linearised-flux", i);
        return;
    }
    if (what == 3)
    {
        if constexpr (dim == 3)
        {
            auto A = ev->fluxJacobian0_Right(U, n, INNER);
            for (int i = 0; i < nV; i++)
                for (int j = 0; j < nV; j++)
                    vc::eq(A(i, j), J(i, j), "flux-jacobian", i, j);
        }
        return;
    }
    double l = vc::real("lMain", 0, 2), lC = vc::real("lC", 0, 2), lV = vc::real("lVis", 0, 2);
    int sign = vc::choice("sign", 0, 1) ? 1 : -1, omit = vc::choice("omitF", 0, 1);
    if (what == 1)
    {
        TU r = ev->fluxJacobian0_Right_Times_du(U, UO, n, vg, INNER, dU, l, lC, lV, 0, 0, 0, 0, sign, omit);
        for (int i = 0; i < nV; i++)
            vc::eq(r(i), (omit ? 0. : D(i)) + sign * l * dU(i), "linearised-flux", i);
    }
    if (what == 2)
    {
        auto A = ev->fluxJacobian0_Right_Times_du_AsMatrix(U, UO, n, vg, INNER, l, lC, lV, 0, 0, 0, 0, sign, omit);
        for (int i = 0; i < nV; i++)
            for (int j = 0; j < nV; j++)
                vc::eq(A(i, j), (omit ? 0. : J(i, j)) + (i == j ? sign * l : 0.), "linearised-matrix", i, j);
    }
}
CONTRACT(jac_2d) { jacobian<NS_2D>(0); }
CONTRACT(jac_3d) { jacobian<NS_3D>(0); }
CONTRACT(jac_sa) { jacobian<NS_SA_3D>(0); }
CONTRACT(jac_2eq) { jacobian<NS_2EQ_3D>(0); }
CONTRACT(jac_scalar_2d) { jacobian<NS_2D>(1); }
CONTRACT(jac_scalar_3d) { jacobian<NS_3D>(1); }
CONTRACT(jac_scalar_sa) { jacobian<NS_SA_3D>(1); }
CONTRACT(jac_scalar_2eq) { jacobian<NS_2EQ_3D>(1); }
CONTRACT(jac_matrix_2d) { jacobian<NS_2D>(2); }
CONTRACT(jac_matrix_sa) { jacobian<NS_SA_3D>(2); }
CONTRACT(jac_full_3d) { jacobian<NS_3D>(3); }
CONTRACT(jac_full_sa) { jacobian<NS_SA_3D>(3); }
CONTRACT(jac_full_2eq) { jacobian<NS_2EQ_3D>(3); }
// with Roe's wave-by-wave dissipation: equal wave speeds give scalar dissipation on the flow variables
template <EulerModel M>
static void roeTerm()
{
    constexpr int dim = EulerEvaluator<M>::dim, nV = EulerEvaluator<M>::nVarsFixed;
    Eval<M> ev;
    using TU = typename EulerEvaluator<M>::TU;
    auto S = physState<dim>("s", "a", "v", ev.gamma), SO = physState<dim>("sO", "aO", "vO", ev.gamma);
    TU U = widen<dim, nV>(S.U, "t"), UO = widen<dim, nV>(SO.U, "tO"), dU;
    for (int i = 0; i < nV; i++)
        dU(i) = vc::real("dU", -1, 1, i);
    Vector<double, dim> n = unitN<dim>("n"), vg = vec<dim>("vg");
    double l = vc::real("lMain", 0, 2), lC = vc::real("lC", 0, 2), lV = vc::real("lVis", 0, 2), w = vc::real("lWave", 0, 2);
    int sign = vc::choice("sign", 0, 1) ? 1 : -1;
    TU r0 = ev->fluxJacobianC_Right_Times_du(U, n, vg, INNER, dU);
    TU r = ev->fluxJacobian0_Right_Times_du(U, UO, n, vg, INNER, dU, l, lC, lV, w, w, w, 1, sign, 0);
    for (int i = 0; i < nV; i++)
        vc::eq(r(i) - r0(i), sign * (i < dim + 2 ? w + lV : l) * dU(i), "roe-dissipation", i);
}
CONTRACT(jac_roe_2d) { roeTerm<NS_2D>(); }
CONTRACT(jac_roe_3d) { roeTerm<NS_3D>(); }
CONTRACT(jac_roe_sa) { roeTerm<NS_SA_3D>(); }
// body force and rotating frame: force on the mass, its work on the energy, -Omega x (rho v) (absolute velocities in a rotating frame
// conserve energy); the momentum-momentum and energy-momentum blocks of the Jacobian are minus the derivatives of the source
template <EulerModel M>
static void sourceNS(bool rot)
{
    constexpr int dim = EulerEvaluator<M>::dim, nV = EulerEvaluator<M>::nVarsFixed;
    Eval<M> ev;
    using TU = typename EulerEvaluator<M>::TU;
    TU U = consState<dim, nV>("rho", "U");
    for (int i = 0; i < 3; i++)
        ev->settings.constMassForce(i) = vc::real("f", -1, 1, i);
    Eigen::Vector3d om{0, 0, 0};
    auto &fr = ev->settings.frameConstRotation;
    fr.enabled = rot;
    if (rot)
    {
        fr.rpm = vc::real("rpm", -100, 100);
        if (dim == 3)
            fr.axis = unitN<3>("axis");
        om = fr.axis * (fr.rpm * (2 * pi / 60.));
    }
    new (&ev->dWall[0]) std::decay_t<decltype(ev->dWall[0])>(2);
    ev->dWall[0][0] = vc::real("d", 0.1, 1, 0), ev->dWall[0][1] = vc::real("d", 0.1, 1, 1);
    typename EulerEvaluator<M>::TDiffU G;
    G.resize(dim, nV);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < nV; j++)
            G(i, j) = vc::real("dU", -1, 1, i, j);
    Geom::tPoint p{0, 0, 0};
    typename EulerEvaluator<M>::TJacobianU J;
    int ig = (int)vc::choice("ig", 0, 1) - 1;
    TU s = ev->source(U, G, p, J, 0, ig, 0);
    Vector<double, nV> e;
    e(0) = 0, e(dim + 1) = 0;
    double m[3] = {U(1), U(2), dim == 3 ? U(3) : 0.};
    double c[3] = {om(1) * m[2] - om(2) * m[1], om(2) * m[0] - om(0) * m[2], om(0) * m[1] - om(1) * m[0]};
    for (int i = 0; i < dim; i++)
        e(1 + i) = U(0) * ev->settings.constMassForce(i) - c[i], e(dim + 1) += ev->settings.constMassForce(i) * m[i];
    for (int i = 0; i < nV; i++)
        vc::eq(s(i), e(i), "source", i);
    ev->source(U, G, p, J, 0, ig, 2);
    for (int i = 1; i < nV; i++)
        for (int j = 1; j <= dim; j++)
            vc::eq(J(i, j), -vc::partial([&]() { typename EulerEvaluator<M>::TJacobianU K; return ev->source(U, G, p, K, 0, ig, 0)(i); }, U(j)), "source-jacobian", i, j);
}
CONTRACT(source_2d) { sourceNS<NS_2D>(false); }
CONTRACT(source_3d) { sourceNS<NS_3D>(false); }
CONTRACT(source_rotating_2d) { sourceNS<NS_2D>(true); }
CONTRACT(source_rotating_3d) { sourceNS<NS_3D>(true); }

// turbulent flow, equal states on both sides: eddy viscosity adds to the stress, its conductivity (turbulent Prandtl number 0.9) to the
// heat flux, and the turbulence variables diffuse; the closures themselves are contracted by P25
template <EulerModel M>
static void turbulent(RANSModel rm, bool wall)
{
    constexpr int dim = 3, nV = EulerEvaluator<M>::nVarsFixed;
    Eval<M> ev;
    ev->settings.idealGasProperty.muModel = vc::choice("muModel", 0, 1) ? 2 : 0;
    ev->settings.ransModel = rm;
    ev->settings.ransUseQCR = 0;
    ev->dWallFace[0] = vc::positive("dWall", 0.2, 2);
    ev->deltaLambdaFace[0] = vc::positive("dLambda", 0, 1);
    Face<M> f(1);
    auto S = physState<dim>("s", "a", "v", ev.gamma);
    Vector<double, nV> U = widen<dim, nV>(S.U, "t");
    for (int i = dim + 2; i < nV; i++)
        vc::assume(nV == dim + 3 || U(i) > 0);
    f.UL.col(0) = U, f.UR.col(0) = U;
    f.ULm = f.URm = U;
    f.run(ev, wall ? Geom::BC_ID_DEFAULT_WALL : INNER, G::Roe_M2, false);
    Vector<double, dim> n = f.n.col(0), vg = f.vg.col(0);
    double mu = muOf(ev, S.rho, 1.), muT = 0;
    Vector<double, nV> F = carried<dim, nV>(U, ev.gamma, vg, n), D;
    D.setZero();
    Eigen::Matrix<double, dim, nV> Gu = f.G, Gp = f.GP;
    if constexpr (nV == dim + 3)
    {
        double chi = U(5) * ev.mu / mu, c = chi;
        if (chi < 10)
            c = 0.05 * std::log(1 + std::exp(20 * chi));
        double c3 = std::pow(c, 3);
        muT = mu * std::max(c * (c3 / (c3 + std::pow(7.1, 3))), 0.);
        double fn = 1, g = 0;
        if (U(5) < 0)
            fn = (16 + std::pow(chi, 3)) / (16 - std::pow(chi, 3));
        for (int i = 0; i < dim; i++)
            g += Gp(i, 5) * n(i);
        D(5) = g * (mu + U(5) * ev.mu * fn) / (2. / 3.);
    }
    else if (rm == RANS_KOWilcox)
        muT = RANS::GetMut_KOWilcox<dim>(U, Gu, mu, ev->dWallFace[0]), RANS::GetVisFlux_KOWilcox<dim>(U, Gp, n, muT, ev->dWallFace[0], mu, D);
    else if (rm == RANS_KOSST)
        muT = RANS::GetMut_SST<dim>(U, Gu, mu, ev->dWallFace[0]), RANS::GetVisFlux_SST<dim>(U, Gp, n, muT, ev->dWallFace[0], mu, D);
    else
        muT = RANS::GetMut_RealizableKe<dim>(U, Gu, mu, ev->dWallFace[0]), RANS::GetVisFlux_RealizableKe<dim>(U, Gp, n, muT, ev->dWallFace[0], mu, D);
    auto V = viscous<dim>(S, Gp, n, mu + muT, ev.Cp * (mu / ev.Pr + muT / 0.9), ev.Cp, ev.gamma, wall);
    if (nV == dim + 4)
        for (int i = 0; i < dim; i++)
            V(1 + i) -= 2. / 3. * U(5) * n(i), V(dim + 1) -= 2. / 3. * U(5) * n(i) * S.v(i);
    for (int i = 0; i < nV; i++)
        vc::eq(f.out(i, 0), (i < dim + 2 ? V(i) : D(i)) - F(i), "turbulent-flux", i);
}
CONTRACT(turbulent_sa) { turbulent<NS_SA_3D>(RANS_SA, false); }
CONTRACT(turbulent_sa_wall) { turbulent<NS_SA_3D>(RANS_SA, true); }
CONTRACT(turbulent_wilcox) { turbulent<NS_2EQ_3D>(RANS_KOWilcox, false); }
CONTRACT(turbulent_sst) { turbulent<NS_2EQ_3D>(RANS_KOSST, false); }
CONTRACT(turbulent_rke) { turbulent<NS_2EQ_3D>(RANS_RKE, false); }
CONTRACT(rotated_roe) { rotated(G::Roe, G::UnknownRS, 0); }
CONTRACT(rotated_aux) { rotated(G::Roe_M2, G::Roe_M1, 0); }
