// P15: numerical (Riemann) fluxes: consistency, orientation symmetry, upwinding, Roe property, batch = pointwise
#include "gas_common.hpp"

static const G::RiemannSolverType ALL[] = {G::Roe, G::HLLC, G::HLLEP, G::HLLEP_V1, G::Roe_M1, G::Roe_M2, G::Roe_M3, G::Roe_M4, G::Roe_M5};
static void noDump() {}

template <int dim>
static Vector<double, dim + 2> flux(G::RiemannSolverType t, const Vector<double, dim + 2> &UL, const Vector<double, dim + 2> &UR,
                                    const Vector<double, dim + 2> &ULm, const Vector<double, dim + 2> &URm,
                                    const Vector<double, dim> &vg, const Vector<double, dim> &n, double gamma, double dLambda)
{
    Vector<double, dim + 2> F;
    double l0, l1, l4;
    G::InviscidFlux_IdealGas_Dispatcher<dim>(t, UL, UR, ULm, URm, vg, n, gamma, F, dLambda, noDump, l0, l1, l4);
    return F;
}

// F(U,U,n) is the exact Euler flux, on fixed and moving faces, for every solver
template <int dim>
static void consistency(G::RiemannSolverType t)
{
    double gamma = gammaIn();
    auto S = physState<dim>("s", "a", "v", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    auto F = flux<dim>(t, S.U, S.U, S.U, S.U, vg, n, gamma, dl);
    auto Fe = exactFlux<dim>(S, vg, n);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), Fe(i), "consistent", i);
}
// with reconstructed point values equal but distinct (mean) states for the dissipation: still the exact flux
template <int dim>
static void consistencyMean(G::RiemannSolverType t)
{
    double gamma = gammaIn();
    auto S = physState<dim>("s", "a", "v", gamma);
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    auto F = flux<dim>(t, S.U, S.U, SL.U, SR.U, vg, n, gamma, dl);
    auto Fe = exactFlux<dim>(S, vg, n);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), Fe(i), "consistent-distinct-means", i);
}
// F(UL,UR,n) = -F(UR,UL,-n)
template <int dim>
static void mirror(G::RiemannSolverType t, bool means)
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    Vector<double, dim + 2> A = SL.U, B = SR.U;
    if (means)
        for (int i = 0; i < dim + 2; i++)
        {
            A(i) = vc::real("UL", 0.5, 3, i), B(i) = vc::real("UR", 0.5, 3, i);
            if (i == 0)
                vc::assume(A(0) > 0), vc::assume(B(0) > 0);
        }
    Vector<double, dim> m = -n;
    auto F = flux<dim>(t, A, B, SL.U, SR.U, vg, n, gamma, dl);
    auto Fm = flux<dim>(t, B, A, SR.U, SL.U, vg, m, gamma, dl);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), -Fm(i), "orientation-antisymmetric", i);
}
#define FORALL(NAME, FN)                                   \
    CONTRACT(NAME##_roe_2d) { FN<2>(G::Roe); }             \
    CONTRACT(NAME##_roe_3d) { FN<3>(G::Roe); }             \
    CONTRACT(NAME##_m1_2d) { FN<2>(G::Roe_M1); }           \
    CONTRACT(NAME##_m1_3d) { FN<3>(G::Roe_M1); }           \
    CONTRACT(NAME##_m2_2d) { FN<2>(G::Roe_M2); }           \
    CONTRACT(NAME##_m2_3d) { FN<3>(G::Roe_M2); }           \
    CONTRACT(NAME##_m3_2d) { FN<2>(G::Roe_M3); }           \
    CONTRACT(NAME##_m3_3d) { FN<3>(G::Roe_M3); }           \
    CONTRACT(NAME##_m4_2d) { FN<2>(G::Roe_M4); }           \
    CONTRACT(NAME##_m4_3d) { FN<3>(G::Roe_M4); }           \
    CONTRACT(NAME##_m5_2d) { FN<2>(G::Roe_M5); }           \
    CONTRACT(NAME##_m5_3d) { FN<3>(G::Roe_M5); }           \
    CONTRACT(NAME##_hllep1_2d) { FN<2>(G::HLLEP_V1); }     \
    CONTRACT(NAME##_hllep1_3d) { FN<3>(G::HLLEP_V1); }     \
    CONTRACT(NAME##_hllep_2d) { FN<2>(G::HLLEP); }         \
    CONTRACT(NAME##_hllep_3d) { FN<3>(G::HLLEP); }         \
    CONTRACT(NAME##_hllc_2d) { FN<2>(G::HLLC); }           \
    CONTRACT(NAME##_hllc_3d) { FN<3>(G::HLLC); }
FORALL(cons, consistency)

template <int dim>
static void mirrorRoe(G::RiemannSolverType t) { mirror<dim>(t, false); }
#define FORROE(NAME, FN)                               \
    CONTRACT(NAME##_roe_2d) { FN<2>(G::Roe); }         \
    CONTRACT(NAME##_roe_3d) { FN<3>(G::Roe); }         \
    CONTRACT(NAME##_m1_2d) { FN<2>(G::Roe_M1); }       \
    CONTRACT(NAME##_m1_3d) { FN<3>(G::Roe_M1); }       \
    CONTRACT(NAME##_m2_2d) { FN<2>(G::Roe_M2); }       \
    CONTRACT(NAME##_m2_3d) { FN<3>(G::Roe_M2); }       \
    CONTRACT(NAME##_m3_2d) { FN<2>(G::Roe_M3); }       \
    CONTRACT(NAME##_m3_3d) { FN<3>(G::Roe_M3); }       \
    CONTRACT(NAME##_m4_2d) { FN<2>(G::Roe_M4); }       \
    CONTRACT(NAME##_m4_3d) { FN<3>(G::Roe_M4); }       \
    CONTRACT(NAME##_m5_2d) { FN<2>(G::Roe_M5); }       \
    CONTRACT(NAME##_m5_3d) { FN<3>(G::Roe_M5); }
#define FORHLLE(NAME, FN)                                  \
    CONTRACT(NAME##_hllep1_2d) { FN<2>(G::HLLEP_V1); }     \
    CONTRACT(NAME##_hllep1_3d) { FN<3>(G::HLLEP_V1); }     \
    CONTRACT(NAME##_hllep_2d) { FN<2>(G::HLLEP); }         \
    CONTRACT(NAME##_hllep_3d) { FN<3>(G::HLLEP); }
CONTRACT(mirror_roe_2d) { mirrorRoe<2>(G::Roe); }
CONTRACT(mirror_roe_3d) { mirrorRoe<3>(G::Roe); }
CONTRACT(mirror_m1_2d) { mirrorRoe<2>(G::Roe_M1); }
CONTRACT(mirror_m2_2d) { mirrorRoe<2>(G::Roe_M2); }
CONTRACT(mirror_m2_3d) { mirrorRoe<3>(G::Roe_M2); }
CONTRACT(mirror_m3_2d) { mirrorRoe<2>(G::Roe_M3); }
CONTRACT(mirror_m3_3d) { mirrorRoe<3>(G::Roe_M3); }
CONTRACT(mirror_m4_2d) { mirrorRoe<2>(G::Roe_M4); }
CONTRACT(mirror_m4_3d) { mirrorRoe<3>(G::Roe_M4); }
CONTRACT(mirror_m5_2d) { mirrorRoe<2>(G::Roe_M5); }
CONTRACT(mirror_m5_3d) { mirrorRoe<3>(G::Roe_M5); }
FORHLLE(mirror, mirrorRoe)
// the same through the reported wave speeds: swapping sides swaps the acoustic speeds, and the dissipation operator is odd;
// with the dissipation_* contracts (flux = central flux - dissipation/2) this is the orientation symmetry again
template <int dim>
static void mirrorSpeeds(G::RiemannSolverType t)
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    Vector<double, dim> m = -n;
    Vector<double, dim + 2> F;
    double l0, l1, l4, k0, k1, k4;
    G::InviscidFlux_IdealGas_Dispatcher<dim>(t, SL.U, SR.U, SL.U, SR.U, vg, n, gamma, F, dl, noDump, l0, l1, l4);
    G::InviscidFlux_IdealGas_Dispatcher<dim>(t, SR.U, SL.U, SR.U, SL.U, vg, m, gamma, F, dl, noDump, k0, k1, k4);
    vc::eq(l0, k4, "mirrored-speed-0");
    vc::eq(l1, k1, "mirrored-speed-123");
    vc::eq(l4, k0, "mirrored-speed-4");
}
FORROE(mirrorspeeds, mirrorSpeeds)
template <int dim>
static void dissipationOdd()
{
    double gamma = gammaIn();
    auto n = unitN<dim>("n");
    auto v = vec<dim>("vRoe");
    double a = vc::positive("aRoe", 0.5, 2), l0 = vc::real("l0", 0, 2), l1 = vc::real("l1", 0, 2), l4 = vc::real("l4", 0, 2);
    double H = vc::real("HRoe", 1, 5), vsq = vc::real("vsq", 0, 3);
    Vector<double, dim + 2> dU, E, D, Dm;
    for (int i = 0; i < dim + 2; i++)
        dU(i) = vc::real("dU", -1, 1, i), E(i) = -dU(i), D(i) = 0, Dm(i) = 0;
    Vector<double, dim> m = -n;
    G::RoeFluxIncFDiff<dim>(dU, n, v, vsq, a, a * a, H, l0, l1, l4, gamma, D);
    G::RoeFluxIncFDiff<dim>(E, m, v, vsq, a, a * a, H, l4, l1, l0, gamma, Dm);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(D(i), -Dm(i), "dissipation-odd", i);
}
CONTRACT(dissipation_odd_2d) { dissipationOdd<2>(); }
CONTRACT(dissipation_odd_3d) { dissipationOdd<3>(); }
FORROE(consmean, consistencyMean)

// HLLC: orientation symmetry wherever the two states do not collide faster than the sum of their sound speeds
// (beyond that the pressure-based wave estimates may cross, see DESIGN.md)
template <int dim>
static void mirrorHLLC()
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    vc::assume((SL.v - SR.v).dot(n) < SL.a + SR.a);
    Vector<double, dim> m = -n;
    auto F = flux<dim>(G::HLLC, SL.U, SR.U, SL.U, SR.U, vg, n, gamma, 0.0);
    auto Fm = flux<dim>(G::HLLC, SR.U, SL.U, SR.U, SL.U, vg, m, gamma, 0.0);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), -Fm(i), "orientation-antisymmetric", i);
}
CONTRACT(bounded_mirror_hllc_2d) { mirrorHLLC<2>(); }
CONTRACT(bounded_mirror_hllc_3d) { mirrorHLLC<3>(); }

// HLLC is the three-wave solver of Toro/Batten: wave speeds from the linearised star pressure (a collision raises it), flux of the
// region that contains the face
template <int dim>
static void hllcFormula()
{
    double gamma = gammaIn();
    auto L = physState<dim>("sL", "aL", "vL", gamma);
    auto R = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    Vector<double, dim> vR;
    double vsq, a, asq, H;
    G::GetRoeAverage<dim>(L.U, R.U, gamma, vR, vsq, a, asq, H);
    double vgn = vg.dot(n), uL = (L.v - vg).dot(n), uR = (R.v - vg).dot(n);
    double pE = 0.5 * (L.p + R.p) - 0.5 * (uR - uL) * (L.s * R.s) * a;
    double pS = vc::split(pE > 0) ? pE : 0.0;
    vc::split(pS <= L.p), vc::split(pS <= R.p);
    auto F = flux<dim>(G::HLLC, L.U, R.U, L.U, R.U, vg, n, gamma, 0.0);
    auto q = [&](double p) { double z = std::sqrt(1 + (gamma + 1) / 2 / gamma * (pS / p - 1)); return pS <= p ? 1.0 : z; };
    double SL = uL - L.a * q(L.p), SR = uR + R.a * q(R.p);
    auto FL = exactFlux<dim>(L, vg, n), FR = exactFlux<dim>(R, vg, n);
    double den = L.rho * (SL - uL) - R.rho * (SR - uR);
    double SS = std::abs(den) > verySmallReal ? (R.p - L.p + (L.U.template segment<dim>(1).dot(n) - vgn * L.rho) * (SL - uL) - (R.U.template segment<dim>(1).dot(n) - vgn * R.rho) * (SR - uR)) / den : 0.0;
    auto star = [&](const State<dim> &K, double SK, double uK, const Vector<double, dim + 2> &FK, int i) {
        if (dim == 3 && i == dim + 1) // Batten's form of the energy flux (in 2D proved from the jump conditions as well)
            return (SS * (SK * K.E - FK(i)) + SK * (K.p + K.rho * (SK - uK) * (SS - uK)) * (SS + vgn)) / (SK - SS);
        // F_K + S_K (U*_K - U_K), U*_K from the jump conditions across the acoustic wave
        double c = K.rho * (SK - uK) / (SK - SS);
        double Us = i == 0 ? c : i <= dim ? c * (K.v(i - 1) + (SS - uK) * n(i - 1)) : c * (K.E / K.rho + (SS - uK) * (SS + vgn + K.p / (K.rho * (SK - uK))));
        return FK(i) + SK * (Us - K.U(i));
    };
    if (0 <= SL)
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i), FL(i), "hllc-left", i);
    else if (SR <= 0)
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i), FR(i), "hllc-right", i);
    else if (SS >= 0)
    {
        if (!(std::abs(SL - SS) < verySmallReal))
            for (int i = 0; i < dim + 2; i++)
                vc::eq(F(i), star(L, SL, uL, FL, i), "hllc-star-left", i);
    }
    else if (!(std::abs(SR - SS) < verySmallReal))
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i), star(R, SR, uR, FR, i), "hllc-star-right", i);
}
CONTRACT(hllc_formula_2d) { hllcFormula<2>(); }
CONTRACT(hllc_formula_3d) { hllcFormula<3>(); }

// Roe average: A(UL,UR) (UR-UL) = F(UR)-F(UL) with the signed eigenvalues
template <int dim>
static void roeProperty()
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    Vector<double, dim> v0;
    v0.setZero();
    Vector<double, dim> vR;
    double vsq, a, asq, H;
    G::GetRoeAverage<dim>(SL.U, SR.U, gamma, vR, vsq, a, asq, H);
    vc::le(0, a, "roe-sound-speed-nonnegative");
    vc::eq(a * a, asq, "roe-sound-speed");
    double vn = vR.dot(n);
    Vector<double, dim + 2> dF, base;
    for (int i = 0; i < dim + 2; i++)
        base(i) = vc::real("base", -1, 1, i), dF(i) = base(i);
    Vector<double, dim + 2> dU = SR.U - SL.U;
    G::RoeFluxIncFDiff<dim>(dU, n, vR, vsq, a, asq, H, vn - a, vn, vn + a, gamma, dF);
    auto FL = exactFlux<dim>(SL, v0, n), FR = exactFlux<dim>(SR, v0, n);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(dF(i) - base(i), FR(i) - FL(i), "roe-property", i);
    // equal weights give a multiple of the jump: completeness of the wave decomposition
    double l = vc::real("lam", -1, 1);
    for (int i = 0; i < dim + 2; i++)
        dF(i) = 0;
    Vector<double, dim + 2> W;
    for (int i = 0; i < dim + 2; i++)
        W(i) = vc::real("W", -1, 1, i);
    G::RoeFluxIncFDiff<dim>(W, n, vR, vsq, a, asq, H, l, l, l, gamma, dF);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(dF(i), l * W(i), "waves-complete", i);
}
CONTRACT(roe_property_2d) { roeProperty<2>(); }
CONTRACT(roe_property_3d) { roeProperty<3>(); }

// the flux is F = (FL+FR)/2 - 1/2 * dissipation with the wave speeds the solver reports
template <int dim>
static void reportedDissipation(G::RiemannSolverType t)
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    Vector<double, dim + 2> F, D;
    double l0, l1, l4;
    G::InviscidFlux_IdealGas_Dispatcher<dim>(t, SL.U, SR.U, SL.U, SR.U, vg, n, gamma, F, dl, noDump, l0, l1, l4);
    Vector<double, dim> vR;
    double vsq, a, asq, H;
    G::GetRoeAverage<dim>(SL.U, SR.U, gamma, vR, vsq, a, asq, H);
    D.setZero();
    Vector<double, dim + 2> dU = SR.U - SL.U;
    G::RoeFluxIncFDiff<dim>(dU, n, vR, vsq, a, asq, H, l0, l1, l4, gamma, D);
    auto FL = exactFlux<dim>(SL, vg, n), FR = exactFlux<dim>(SR, vg, n);
    for (int i = 0; i < dim + 2; i++)
        vc::eq(F(i), 0.5 * (FL(i) + FR(i)) - 0.5 * D(i), "reported-dissipation", i);
    if (t != G::HLLEP_V1)
    {
        vc::le(0, l0, "wave-speed-0-nonnegative");
        vc::le(0, l1, "wave-speed-123-nonnegative");
        vc::le(0, l4, "wave-speed-4-nonnegative");
    }
}
FORROE(dissipation, reportedDissipation)
CONTRACT(dissipation_hllep1_2d) { reportedDissipation<2>(G::HLLEP_V1); }
CONTRACT(dissipation_hllep1_3d) { reportedDissipation<3>(G::HLLEP_V1); }

// supersonic flow through the face: the flux of the upwind state (both directions), for Roe and the HLL family
template <int dim>
static void upwind(G::RiemannSolverType t)
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    Vector<double, dim> vg;
    vg.setZero();
    Vector<double, dim> vR;
    double vsq, a, asq, H;
    G::GetRoeAverage<dim>(SL.U, SR.U, gamma, vR, vsq, a, asq, H);
    double vn = vR.dot(n);
    auto F = flux<dim>(t, SL.U, SR.U, SL.U, SR.U, vg, n, gamma, 0.0);
    auto FL = exactFlux<dim>(SL, vg, n), FR = exactFlux<dim>(SR, vg, n);
    if (vn - a > 0 && SL.v.dot(n) - SL.a > 0 && SR.v.dot(n) - SR.a > 0)
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i), FL(i), "supersonic-takes-left", i);
    if (vn + a < 0 && SL.v.dot(n) + SL.a < 0 && SR.v.dot(n) + SR.a < 0)
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i), FR(i), "supersonic-takes-right", i);
}
// through the reported wave speeds: in supersonic flow they are the signed (left) or negated (right) characteristic speeds, so by
// roe_property_* and dissipation_* the flux is the flux of the upwind state
template <int dim>
static void upwindSpeeds(G::RiemannSolverType t)
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    Vector<double, dim> vg;
    vg.setZero();
    Vector<double, dim> vR;
    double vsq, a, asq, H, l0, l1, l4;
    G::GetRoeAverage<dim>(SL.U, SR.U, gamma, vR, vsq, a, asq, H);
    double vn = vR.dot(n);
    Vector<double, dim + 2> F;
    bool left = vn - a > 0 && SL.v.dot(n) - SL.a > 0 && SR.v.dot(n) - SR.a > 0;
    bool right = vn + a < 0 && SL.v.dot(n) + SL.a < 0 && SR.v.dot(n) + SR.a < 0;
    vc::assume(left || right);
    G::InviscidFlux_IdealGas_Dispatcher<dim>(t, SL.U, SR.U, SL.U, SR.U, vg, n, gamma, F, 0.0, noDump, l0, l1, l4);
    double sg = left ? 1 : -1;
    vc::eq(l0, sg * (vn - a), "supersonic-speed-0");
    vc::eq(l1, sg * vn, "supersonic-speed-123");
    vc::eq(l4, sg * (vn + a), "supersonic-speed-4");
}
// Roe: the reported speeds are the absolute Roe characteristic speeds, with the Harten-Yee entropy fix on the acoustic ones below
// the threshold max(0.05(|v|+a), dLambda): outside the threshold (supersonic flow) the flux is again the upwind flux
template <int dim>
static void roeSpeeds()
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n = unitN<dim>("n");
    auto vg = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    Vector<double, dim> vR;
    double vsq, a, asq, H, l0, l1, l4;
    Vector<double, dim + 2> F;
    G::InviscidFlux_IdealGas_Dispatcher<dim>(G::Roe, SL.U, SR.U, SL.U, SR.U, vg, n, gamma, F, dl, noDump, l0, l1, l4);
    G::GetRoeAverage<dim>(SL.U, SR.U, gamma, vR, vsq, a, asq, H);
    double w = vR.dot(n) - vg.dot(n), thr = std::max(0.05 * (std::sqrt(vsq) + a), dl);
    auto hy = [&](double x) { return x < thr ? (x * x + thr * thr) / (2 * thr) : x; };
    vc::eq(l0, hy(std::abs(w - a)), "roe-speed-0");
    vc::eq(l1, std::abs(w), "roe-speed-123");
    vc::eq(l4, hy(std::abs(w + a)), "roe-speed-4");
}
CONTRACT(upwind_roe_2d) { roeSpeeds<2>(); }
CONTRACT(upwind_roe_3d) { roeSpeeds<3>(); }
CONTRACT(upwind_hllep1_2d) { upwindSpeeds<2>(G::HLLEP_V1); }
CONTRACT(upwind_hllep1_3d) { upwindSpeeds<3>(G::HLLEP_V1); }
CONTRACT(upwind_hllep_2d) { upwind<2>(G::HLLEP); }
CONTRACT(upwind_hllep_3d) { upwind<3>(G::HLLEP); }

// batch evaluation equals pointwise evaluation
template <int dim>
static void batch(G::RiemannSolverType t)
{
    const int nB = 2;
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n0 = unitN<dim>("n");
    auto vg0 = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    Eigen::Matrix<double, dim + 2, -1, Eigen::ColMajor, dim + 2, G::MaxBatch> UL(dim + 2, nB), UR(dim + 2, nB), F(dim + 2, nB);
    Eigen::Matrix<double, dim, -1, Eigen::ColMajor, dim, G::MaxBatch> vg(dim, nB), n(dim, nB);
    for (int b = 0; b < nB; b++)
    {
        for (int i = 0; i < dim + 2; i++)
            UL(i, b) = vc::real("UL", 0.5, 3, i, b), UR(i, b) = vc::real("UR", 0.5, 3, i, b);
        vc::assume(UL(0, b) > 0), vc::assume(UR(0, b) > 0);
        vg.col(b) = vg0, n.col(b) = n0;
    }
    double l0, l1, l4, k0, k1, k4;
    auto nd = []() {};
    G::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(t, UL, UR, SL.U, SR.U, vg, vg0, n, n0, gamma, F, dl, nd, l0, l1, l4);
    for (int b = 0; b < nB; b++)
    {
        Vector<double, dim + 2> A = UL.col(b), B = UR.col(b), Fp;
        G::InviscidFlux_IdealGas_Dispatcher<dim>(t, A, B, SL.U, SR.U, vg0, n0, gamma, Fp, dl, noDump, k0, k1, k4);
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i, b), Fp(i), "batch-equals-pointwise", i, b);
        vc::eq(l0, k0, "batch-wave-speed-0", b);
        vc::eq(l1, k1, "batch-wave-speed-123", b);
        vc::eq(l4, k4, "batch-wave-speed-4", b);
    }
}
CONTRACT(batch_roe_2d) { batch<2>(G::Roe); }
CONTRACT(batch_roe_3d) { batch<3>(G::Roe); }
CONTRACT(batch_m2_2d) { batch<2>(G::Roe_M2); }
CONTRACT(batch_m2_3d) { batch<3>(G::Roe_M2); }
CONTRACT(batch_m3_2d) { batch<2>(G::Roe_M3); }
CONTRACT(batch_m3_3d) { batch<3>(G::Roe_M3); }
CONTRACT(batch_m4_2d) { batch<2>(G::Roe_M4); }
CONTRACT(batch_m4_3d) { batch<3>(G::Roe_M4); }
CONTRACT(batch_m5_2d) { batch<2>(G::Roe_M5); }
CONTRACT(batch_m5_3d) { batch<3>(G::Roe_M5); }
// ... and, point by point, the batch flux is the central flux minus half the dissipation with the reported wave speeds
template <int dim>
static void batchDissipation(G::RiemannSolverType t)
{
    const int nB = 2;
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n0 = unitN<dim>("n");
    auto vg0 = vec<dim>("vg");
    double dl = vc::real("dLambda", 0, 1);
    vc::assume(dl >= 0);
    Eigen::Matrix<double, dim + 2, -1, Eigen::ColMajor, dim + 2, G::MaxBatch> UL(dim + 2, nB), UR(dim + 2, nB), F(dim + 2, nB);
    Eigen::Matrix<double, dim, -1, Eigen::ColMajor, dim, G::MaxBatch> vg(dim, nB), n(dim, nB);
    for (int b = 0; b < nB; b++)
    {
        for (int i = 0; i < dim + 2; i++)
            UL(i, b) = vc::real("UL", 0.5, 3, i, b), UR(i, b) = vc::real("UR", 0.5, 3, i, b);
        vc::assume(UL(0, b) > 0), vc::assume(UR(0, b) > 0);
        vg.col(b) = vg0, n.col(b) = n0;
    }
    double l0, l1, l4;
    auto nd = []() {};
    G::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(t, UL, UR, SL.U, SR.U, vg, vg0, n, n0, gamma, F, dl, nd, l0, l1, l4);
    Vector<double, dim> vR;
    double vsq, a, asq, H;
    G::GetRoeAverage<dim>(SL.U, SR.U, gamma, vR, vsq, a, asq, H);
    for (int b = 0; b < nB; b++)
    {
        Vector<double, dim + 2> A = UL.col(b), B = UR.col(b), D, dU = B - A;
        D.setZero();
        G::RoeFluxIncFDiff<dim>(dU, n0, vR, vsq, a, asq, H, l0, l1, l4, gamma, D);
        auto FA = fluxOf<dim>(A, gamma, vg0, n0), FB = fluxOf<dim>(B, gamma, vg0, n0);
        for (int i = 0; i < dim + 2; i++)
            vc::eq(F(i, b), 0.5 * (FA(i) + FB(i)) - 0.5 * D(i), "batch-reported-dissipation", i, b);
    }
}
FORROE(batchdiss, batchDissipation)
// component-wise Lax-Friedrichs (M1): the batch speeds are the largest of the two one-sided characteristic speeds of each family
// (the pointwise form additionally floors the normal velocity at 0.2 of the sound speed, see DESIGN.md)
template <int dim>
static void m1Speeds()
{
    double gamma = gammaIn();
    auto SL = physState<dim>("sL", "aL", "vL", gamma);
    auto SR = physState<dim>("sR", "aR", "vR", gamma);
    auto n0 = unitN<dim>("n");
    auto vg0 = vec<dim>("vg");
    Eigen::Matrix<double, dim + 2, -1, Eigen::ColMajor, dim + 2, G::MaxBatch> UL(dim + 2, 1), UR(dim + 2, 1), F(dim + 2, 1);
    Eigen::Matrix<double, dim, -1, Eigen::ColMajor, dim, G::MaxBatch> vg(dim, 1), n(dim, 1);
    UL.col(0) = SL.U, UR.col(0) = SR.U, vg.col(0) = vg0, n.col(0) = n0;
    double l0, l1, l4;
    auto nd = []() {};
    G::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(G::Roe_M1, UL, UR, SL.U, SR.U, vg, vg0, n, n0, gamma, F, 0.0, nd, l0, l1, l4);
    double wL = (SL.v - vg0).dot(n0), wR = (SR.v - vg0).dot(n0);
    vc::eq(l0, std::max(std::abs(wL - SL.a), std::abs(wR - SR.a)), "m1-speed-0");
    vc::eq(l1, std::max(std::abs(wL), std::abs(wR)), "m1-speed-123");
    vc::eq(l4, std::max(std::abs(wL + SL.a), std::abs(wR + SR.a)), "m1-speed-4");
}
CONTRACT(m1_speeds_2d) { m1Speeds<2>(); }
CONTRACT(m1_speeds_3d) { m1Speeds<3>(); }
