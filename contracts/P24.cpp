// P24: boundary conditions: the state the solver puts outside a boundary face, and what the outer control of the boundaries records
#include "eval_common.hpp"
#define INST(M)                                                                                                                  \
    template EulerEvaluator<M>::TU EulerEvaluator<M>::generateBoundaryValue(TU &, const TU &, DNDS::index, DNDS::index, int,     \
                                                                            const TVec &, const TMat &, const Geom::tPoint &,    \
                                                                            real, Geom::t_index, bool, int);
namespace DNDS::Euler
{
    INST(NS_2D)
    INST(NS_3D)
    INST(NS_SA_3D)
    INST(NS_2EQ_3D)
}
template <EulerModel M>
struct Bnd
{
    using EV = EulerEvaluator<M>;
    static constexpr int dim = EV::dim, nV = EV::nVarsFixed;
    Eval<M> ev;
    State<dim> S;
    typename EV::TU U, UMean;
    typename EV::TVec n;
    typename EV::TMat nb;
    Geom::tPoint p{0, 0, 0};
    Eigen::Vector3d w{0, 0, 0}; // velocity of the rotating frame at the point
    double time;
    Bnd()
    {
        ev->settings.idealGasProperty.muModel = 0;
        new (&ev->pCLDriver) decltype(ev->pCLDriver)();
        S = physState<dim>("s", "a", "v", ev.gamma);
        U = widen<dim, nV>(S.U, "t");
        UMean = widen<dim, nV>(physState<dim>("sM", "aM", "vM", ev.gamma).U, "tM");
        n = unitN<dim>("n");
        nb.setIdentity();
        time = vc::real("t0", 0, 1);
    }
    // the frame turns about an axis (z in 2-D), and the point is anywhere
    void rotate(bool forward = false)
    {
        auto &f = ev->settings.frameConstRotation;
        f.enabled = true;
        f.rpm = forward ? vc::positive("rpm", 1, 20) : vc::real("rpm", -20, 20);
        if (forward)
        {
            time = vc::positive("time", 0.1, 1);
            vc::assume(f.rpm * time > vc::frac(1, 1000)); // the code takes smaller angles than smallReal for zero
        }
        if (dim == 3)
            f.axis = unitN<3>("axis");
        for (int i = 0; i < dim; i++)
            p(i) = vc::real("p", -1, 1, i), f.center(i) = vc::real("c", -1, 1, i);
        double o = f.rpm * (2 * pi / 60.);
        Eigen::Vector3d r = p - f.center, a = f.axis;
        w = Eigen::Vector3d{o * (a(1) * r(2) - a(2) * r(1)), o * (a(2) * r(0) - a(0) * r(2)), o * (a(0) * r(1) - a(1) * r(0))};
    }
    // one face and one cell of a mesh that is not periodic
    void geometry()
    {
        using VFV = std::decay_t<decltype(*ev->vfv)>;
        auto *v = (VFV *)std::calloc(1, sizeof(VFV));
        auto *m = (Geom::UnstructuredMesh *)std::calloc(1, sizeof(Geom::UnstructuredMesh));
        new (&v->mesh) ssp<Geom::UnstructuredMesh>(m, [](Geom::UnstructuredMesh *) {});
        DNDS::MPIInfo mpi;
        for (auto *a : {&v->faceCent, &v->cellBary})
        {
            new (a) std::decay_t<decltype(*a)>();
            DNDS_MAKE_SSP(a->father, mpi);
            DNDS_MAKE_SSP(a->son, mpi);
            a->father->Resize(1), a->son->Resize(0);
            for (int i = 0; i < 3; i++)
                (*a)[0](i) = vc::real(a == &v->faceCent ? "fc" : "cb", -1, 1, i);
        }
        new (&ev->vfv) ssp<VFV>(v, [](VFV *) {});
    }
    // a lift driver with any angle of attack turns velocities from outside, about z or y
    template <class TV>
    void lift(TV &v)
    {
        CLDriverSettings s;
        s.AOAInit = vc::real("aoa", -5, 5);
        bool y = dim == 3 && vc::choice("axis", 0, 1);
        s.AOAAxis = y ? "y" : "z", s.CL0Axis = y ? "z" : "y";
        ev->pCLDriver = std::make_unique<CLDriver>(s);
        double a = s.AOAInit * pi / 180., c = std::cos(a), sn = std::sin(a), x = v(0), z = v(y ? 2 : 1);
        v(0) = c * x - sn * z, v(y ? 2 : 1) = sn * x + c * z;
    }
    Geom::t_index push(EulerBCType t, const typename EV::TU &v, int frameOpt = 0, int anchorOpt = 0)
    {
        auto &h = *ev->pBCHandler;
        h.BCTypes.push_back(t);
        h.BCValues.push_back(v);
        h.BCValuesExtra.emplace_back();
        h.BCFlags.emplace_back();
        h.BCFlags.back()["frameOpt"] = frameOpt;
        h.BCFlags.back()["anchorOpt"] = anchorOpt;
        return (Geom::t_index)h.BCTypes.size() - 1;
    }
    typename EV::TU run(Geom::t_index id, bool fixUL = false)
    {
        return ev->generateBoundaryValue(U, UMean, 0, 0, -2, n, nb, p, time, id, fixUL, 0);
    }
    // the result has density rho, velocity v, pressure p and turbulence variables per volume t
    template <class TV, class TT>
    void is(const typename EV::TU &R, double rho, const TV &v, double pr, const TT &t)
    {
        double k = 0;
        vc::eq(R(0), rho, "density");
        for (int i = 0; i < dim; i++)
            vc::eq(R(1 + i), rho * v(i), "momentum", i), k += v(i) * v(i);
        vc::eq(R(dim + 1), pr / (ev.gamma - 1) + rho * k / 2, "energy");
        for (int i = dim + 2; i < nV; i++)
            vc::eq(R(i), t(i), "turbulence", i);
    }
};
// slip walls and symmetry planes mirror the velocity relative to the wall and nothing else
template <EulerModel M>
static void mirror(EulerBCType t, bool rot, bool dflt = false)
{
    Bnd<M> b;
    if (rot)
        b.rotate();
    auto id = dflt ? Geom::BC_ID_DEFAULT_WALL_INVIS : b.push(t, b.U);
    auto U0 = b.U;
    auto R = b.run(id);
    double q = 0;
    for (int i = 0; i < b.dim; i++)
        q += (b.S.v(i) - b.w(i)) * b.n(i);
    Vector<double, Bnd<M>::dim> v;
    for (int i = 0; i < b.dim; i++)
        v(i) = b.S.v(i) - 2 * q * b.n(i);
    b.is(R, b.S.rho, v, b.S.p, U0);
}
CONTRACT(slip_2d) { mirror<NS_2D>(BCWallInvis, false); }
CONTRACT(slip_3d) { mirror<NS_SA_3D>(BCWallInvis, false, true); }
CONTRACT(slip_rotating_2d) { mirror<NS_2D>(BCWallInvis, true); }
CONTRACT(slip_rotating_3d) { mirror<NS_SA_3D>(BCWallInvis, true); }
CONTRACT(symmetry_2d) { mirror<NS_2D>(BCSym, false); }
CONTRACT(symmetry_3d) { mirror<NS_2EQ_3D>(BCSym, false); }
CONTRACT(symmetry_rotating_3d) { mirror<NS_3D>(BCSym, true); }
// no-slip walls: the mean of both sides moves with the wall (with the frame, or at rest if the wall is marked so), same density and
// pressure; the SA variable and k vanish in the mean (exactly if asked for), omega has its wall value in the mean
template <EulerModel M>
static void wall(bool rot, int frameOpt, bool dflt = false, RANSModel rm = RANS_None)
{
    constexpr int dim = Bnd<M>::dim, nV = Bnd<M>::nV;
    Bnd<M> b;
    if (rot)
        b.rotate();
    b.ev->settings.ransModel = rm;
    double d = 0;
    if (nV == dim + 4)
    {
        new (&b.ev->dWall[0]) std::decay_t<decltype(b.ev->dWall[0])>(2);
        b.ev->dWall[0][0] = vc::positive("d0", 0.1, 1), b.ev->dWall[0][1] = vc::positive("d1", 0.1, 1);
        d = (b.ev->dWall[0][0] + b.ev->dWall[0][1]) / 2;
    }
    if (rm == RANS_RKE)
        b.geometry();
    auto id = dflt ? Geom::BC_ID_DEFAULT_WALL : b.push(BCWall, b.U, frameOpt);
    bool fix = vc::choice("fixUL", 0, 1);
    Vector<double, nV> U0 = b.U, t = U0;
    auto R = b.run(id, fix);
    Vector<double, dim> v;
    for (int i = 0; i < dim; i++)
        v(i) = 2 * (frameOpt ? 0. : b.w(i)) - b.S.v(i);
    if (nV == dim + 3)
        t(dim + 2) = fix ? 0. : -U0(dim + 2), U0(dim + 2) = fix ? 0. : U0(dim + 2);
    if (nV == dim + 4)
        t(dim + 2) = -U0(dim + 2), t(dim + 3) = 2 * 800 * b.ev.mu / (d * d) - U0(dim + 3);
    if (rm == RANS_RKE) // the wall dissipation 2 nu k / d^2 of the first cell
        t(dim + 3) = 2 * b.S.rho * (2 * b.ev.mu / b.UMean(0) * (b.UMean(dim + 2) / b.UMean(0)) / (d * d)) - U0(dim + 3);
    b.is(R, b.S.rho, v, b.S.p, t);
    for (int i = 0; i < nV; i++)
        vc::eq(b.U(i), U0(i), "inner-state", i);
}
CONTRACT(wall_2d) { wall<NS_2D>(false, 0); }
CONTRACT(wall_3d) { wall<NS_3D>(false, 0, true); }
CONTRACT(wall_sa) { wall<NS_SA_3D>(false, 0); }
CONTRACT(wall_wilcox) { wall<NS_2EQ_3D>(false, 0, false, RANS_KOWilcox); }
CONTRACT(wall_sst) { wall<NS_2EQ_3D>(false, 0, true, RANS_KOSST); }
CONTRACT(wall_rke) { wall<NS_2EQ_3D>(false, 0, false, RANS_RKE); }
CONTRACT(wall_rotating_2d) { wall<NS_2D>(true, 0); }
CONTRACT(wall_rotating_3d) { wall<NS_SA_3D>(true, 0); }
CONTRACT(wall_rotating_default_3d) { wall<NS_3D>(true, 0, true); }
CONTRACT(wall_at_rest_3d) { wall<NS_3D>(true, 1); }
// far field and pressure outlet: supersonic outflow copies the inside, supersonic inflow is the far state, in subsonic outflow the
// pressure comes from outside, in subsonic inflow the pressure comes from inside
template <EulerModel M>
static void far(EulerBCType t, bool rot, bool dflt, int anchor = 0, bool turned = false, bool lift = false)
{
    constexpr int dim = Bnd<M>::dim, nV = Bnd<M>::nV;
    Bnd<M> b;
    if (rot)
        b.rotate(turned);
    auto F = physState<dim>("sF", "aF", "vF", b.ev.gamma);
    Vector<double, nV> Uf = widen<dim, nV>(F.U, "tF"), U0 = b.U;
    if (dflt)
        b.ev->settings.farFieldStaticValue = Uf;
    typename EulerEvaluator<M>::TU UF = Uf;
    auto id = dflt ? Geom::BC_ID_DEFAULT_FAR : b.push(t, UF, turned, anchor);
    double pOut = F.p;
    if (anchor == 1 && vc::choice("recorded", 0, 1))
    {
        auto A = physState<dim>("sA", "aA", "vA", b.ev.gamma);
        AnchorPointRecorder<nV> rec(DNDS::MPIInfo{});
        Vector<double, nV> UA = widen<dim, nV>(A.U, "tA");
        rec.AddAnchor(UA, vc::positive("dist", 0.1, 1));
        b.ev->anchorRecorders.emplace(std::make_pair(id, rec));
        pOut = F.p + std::max(b.S.p - A.p, -0.95 * F.p);
    }
    if (anchor == 2) // one cell of the profile holds the pressure offset there, relative to the weight
    {
        OneDimProfile<nV> pr(DNDS::MPIInfo{});
        pr.GenerateUniform(2, nV, 0., 2.);
        pr.SetZero();
        double a = vc::real("offset", -2, 2, 0), c = vc::real("offset", -2, 2, 1);
        double L = vc::positive("L", 0.5, 1), w = pr.div[0] = pr.div[1] = vc::positive("weight", 0.5, 1);
        pr.nodes[1] = L, pr.nodes[2] = 2 * L;
        pr.v(dim + 1, 0) = a, pr.v(dim + 1, 1) = c;
        b.ev->profileRecorders.emplace(std::make_pair(id, pr));
        double r = b.p(0) = vc::real("r", 0, 0.5);
        vc::assume(r > 0 && r < L);
        a /= w + verySmallReal, c /= w + verySmallReal;
        double h = r / (L + verySmallReal); // linear between cell-face averages, the ends taking the values of the end cells
        pOut = F.p + std::max(h * (a + c) / 2 + (1 - h) * a, -0.95 * F.p);
    }
    if (lift)
        b.lift(F.v);
    auto R = b.run(id);
    double q = 0;
    for (int i = 0; i < dim; i++)
        q += (b.S.v(i) - b.w(i)) * b.n(i);
    if (turned) // the far field is at rest in the outer frame: seen from the rotating frame it has turned back
    {
        double o = -b.ev->settings.frameConstRotation.rpm * (2 * pi / 60.) * b.time, c = std::cos(o), s = std::sin(o);
        double x = F.v(0), y = F.v(1);
        F.v(0) = c * x - s * y, F.v(1) = s * x + c * y;
    }
    if (q - b.S.a > 0)
        b.is(R, b.S.rho, b.S.v, b.S.p, U0);
    else if (q > 0)
        b.is(R, b.S.rho, b.S.v, pOut, U0);
    else if (q + b.S.a > 0)
        b.is(R, F.rho, F.v, b.S.p, Uf);
    else
        b.is(R, F.rho, F.v, F.p, Uf);
}
CONTRACT(far_2d) { far<NS_2D>(BCFar, false, false); }
CONTRACT(far_3d) { far<NS_3D>(BCFar, false, true); }
CONTRACT(far_sa) { far<NS_SA_3D>(BCFar, false, false); }
CONTRACT(far_2eq) { far<NS_2EQ_3D>(BCFar, false, true); }
CONTRACT(far_rotating_2d) { far<NS_2D>(BCFar, true, false); }
CONTRACT(far_rotating_3d) { far<NS_3D>(BCFar, true, false); }
CONTRACT(far_rotating_default_3d) { far<NS_3D>(BCFar, true, true); }
CONTRACT(far_turned_2d) { far<NS_2D>(BCFar, true, false, 0, true); }
CONTRACT(outp_2d) { far<NS_2D>(BCOutP, false, false); }
CONTRACT(outp_sa) { far<NS_SA_3D>(BCOutP, false, false); }
CONTRACT(outp_anchor_3d) { far<NS_3D>(BCOutP, false, false, 1); }
CONTRACT(outp_profile_2d) { far<NS_2D>(BCOutP, false, false, 2); }
CONTRACT(far_lift_2d) { far<NS_2D>(BCFar, false, false, 0, false, true); }
CONTRACT(far_lift_3d) { far<NS_3D>(BCFar, false, true, 0, false, true); }
// prescribed inflow, plain outflow
template <EulerModel M>
static void simple(bool rot = false, bool lift = false)
{
    constexpr int dim = Bnd<M>::dim, nV = Bnd<M>::nV;
    Bnd<M> b;
    auto F = physState<dim>("sF", "aF", "vF", b.ev.gamma);
    typename EulerEvaluator<M>::TU Uf = widen<dim, nV>(F.U, "tF"), U0 = b.U;
    if (rot)
        b.rotate();
    auto in = b.push(BCIn, Uf), out = b.push(BCOut, Uf);
    if (lift)
    {
        Vector<double, dim> v = F.v;
        b.lift(v);
        for (int i = 0; i < dim; i++)
            Uf(1 + i) = F.rho * v(i);
    }
    auto R = b.run(in), Q = b.run(out);
    for (int i = 0; i < nV; i++)
        vc::eq(R(i), Uf(i), "inflow", i), vc::eq(Q(i), U0(i), "outflow", i), vc::eq(b.U(i), U0(i), "inner-state", i);
}
CONTRACT(simple_2d) { simple<NS_2D>(); }
CONTRACT(simple_2eq) { simple<NS_2EQ_3D>(); }
CONTRACT(simple_rotating_3d) { simple<NS_3D>(true); }
CONTRACT(simple_lift_3d) { simple<NS_3D>(false, true); }
// inflow with total pressure and total temperature: those of the ghost state are the prescribed ones, its speed is the inner speed (kept
// below 95 per cent of the limit speed in energy), its direction the prescribed one
template <EulerModel M>
static void totals(bool rot = false, bool lift = false)
{
    constexpr int dim = Bnd<M>::dim, nV = Bnd<M>::nV;
    Bnd<M> b;
    double p0 = vc::positive("p0", 0.5, 2), T0 = vc::positive("T0", 0.5, 2), g = b.ev.gamma;
    Vector<double, dim> e = unitN<dim>("e");
    typename EulerEvaluator<M>::TU v;
    v.setZero();
    v(0) = p0, v(1) = T0;
    for (int i = 0; i < dim; i++)
        v(2 + i) = e(i);
    if (nV > dim + 2)
        v(dim + 2) = vc::real("nu", 0, 1);
    b.ev.Cp = b.ev->settings.idealGasProperty.CpGas = vc::positive("Cp", 1, 4);
    double v2 = b.S.v.squaredNorm(), lim = T0 * 2 * b.ev.Cp * 0.95;
    if (vc::split(lim < v2))
        vc::assume(lim < v2);
    else
        vc::assume(T0 - v2 / 2 / b.ev.Cp > 0);
    if (rot)
        b.rotate();
    auto id = b.push(BCInPsTs, v);
    if (lift)
        b.lift(e);
    auto R = b.run(id);
    double q2 = std::min(b.S.v.squaredNorm(), T0 * 2 * b.ev.Cp * 0.95);
    double T = T0 - 0.5 * q2 / b.ev.Cp, p = p0 * std::pow(T / T0, g / (g - 1)), rho = p / (b.ev.Rgas * T);
    Vector<double, dim> vel = e * std::sqrt(q2);
    Vector<double, nV> t;
    t.setZero();
    for (int i = dim + 2; i < nV; i++)
        t(i) = rho * v(i);
    b.is(R, rho, vel, p, t);
}
CONTRACT(totals_2d) { totals<NS_2D>(); }
CONTRACT(totals_3d) { totals<NS_3D>(); }
CONTRACT(totals_sa) { totals<NS_SA_3D>(); }
CONTRACT(totals_rotating_3d) { totals<NS_3D>(true); }
CONTRACT(totals_lift_2d) { totals<NS_2D>(false, true); }
// the moving isentropic vortex is an exact solution: entropy 1, total temperature excess as given, centred at (5,5)+t
CONTRACT(vortex_2d)
{
    Bnd<NS_2D> b;
    double x = b.p(0) = vc::real("p", 4, 6, 0), y = b.p(1) = vc::real("p", 4, 6, 1), g = b.ev.gamma;
    auto R = b.run(Geom::BC_ID_DEFAULT_SPECIAL_IV_FAR);
    double dx = x - 5 - b.time, dy = y - 5 - b.time, r2 = dx * dx + dy * dy;
    double T = 1 - (g - 1) * 25 / (8 * g * pi * pi) * std::exp(1 - r2);
    double h = 5. / 2 / pi * std::exp((1 - r2) / 2), rho = std::pow(T, 1 / (g - 1));
    b.is(R, rho, Vector<double, 2>{1 - h * dy, 1 + h * dx}, rho * T, R);
}
// ---- lift control ----
static CLDriverSettings clSettings()
{
    CLDriverSettings s;
    s.AOAInit = vc::real("aoa", -5, 5);
    s.targetCL = vc::real("target", 0.2, 1);
    s.CLIncrementRelax = vc::positive("relax", 0.1, 1);
    s.CLconvergeWindow = 2, s.nIterConvergeMin = 2, s.nIterStartDrive = 0;
    return s;
}
static DNDS::MPIInfo silent()
{
    DNDS::MPIInfo m;
    m.rank = 1, m.size = 2;
    return m;
}
// the inflow direction is turned by the angle of attack, towards lift
CONTRACT(aoa_rotation)
{
    auto s = clSettings();
    bool y = vc::choice("axis", 0, 1);
    s.AOAAxis = y ? "y" : "z", s.CL0Axis = y ? "z" : "y";
    CLDriver d(s);
    Eigen::Matrix3d R = d.GetAOARotation();
    Eigen::Vector3d D = R * d.GetCD0Direction(), L = R * d.GetCL0Direction(), L0 = d.GetCL0Direction();
    double a = s.AOAInit * pi / 180., c = std::cos(a), sn = std::sin(a);
    for (int i = 0; i < 3; i++)
    {
        vc::eq(D(i), i == 0 ? c : sn * L0(i), "drag-direction", i);
        vc::eq(L(i), i == 0 ? -sn : c * L0(i), "lift-direction", i);
    }
    vc::eq(d.GetAOA(), s.AOAInit, "angle");
}
// the angle moves only when the lift has settled within the threshold, and then by relax * (target - CL) / slope; afterwards the slope
// is that of the last two settled points, kept within [0.9, 10] standard slopes
CONTRACT(cl_update)
{
    auto s = clSettings();
    CLDriver d(s);
    auto mpi = silent();
    double c1 = vc::real("c1", 0.2, 0.2005), c2 = vc::real("c2", 0.2, 0.2005), std0 = pi * pi / 90.;
    vc::assume(c1 < 1e10 && c1 > -1e10 && c2 < 1e10 && c2 > -1e10 && s.targetCL < 1e10 && s.targetCL > -1e10);
    d.Update(0, c1, mpi);
    vc::eq(d.GetAOA(), s.AOAInit, "one-sample-is-not-settled");
    d.Update(1, c2, mpi);
    double dev = std::abs(c1 - c2) / 2;
    if (dev <= s.CLconvergeThreshold)
        vc::eq(d.GetAOA(), s.AOAInit + (s.targetCL - c2) / std0 * s.CLIncrementRelax, "settled");
    else
        vc::eq(d.GetAOA(), s.AOAInit, "unsettled");
}
CONTRACT(cl_not_started)
{
    auto s = clSettings();
    s.nIterStartDrive = 5;
    CLDriver d(s);
    auto mpi = silent();
    double c = vc::real("c", 0.2, 0.3);
    for (int i = 0; i < 5; i++)
        d.Update(i, c, mpi);
    vc::eq(d.GetAOA(), s.AOAInit, "before-start");
}
CONTRACT(cl_converged)
{
    auto s = clSettings();
    s.nIterStartDrive = 100, s.CLconvergeLongWindow = 2;
    CLDriver d(s);
    auto mpi = silent();
    double tol = 1e-4; // default of CLconvergeLongThreshold
    bool in[3];
    for (int i = 0; i < 3; i++)
    {
        double e = vc::real("e", -2e-4, 2e-4, i);
        in[i] = std::abs(e) <= tol;
        d.Update(i, s.targetCL + e, mpi);
    }
    vc::check(d.ConvergedAtTarget() == (in[1] && in[2]), "converged-iff-within-tolerance-over-the-window");
}
// ---- profiles along a line: spreading an amount over an interval keeps the amount and its share in every cell ----
CONTRACT(profile_spread)
{
    OneDimProfile<2> pr(silent());
    pr.GenerateUniform(3, 2, 0., 3.);
    pr.SetZero();
    double l = vc::real("l", 0.2, 1.4), r = vc::real("r", 1.6, 2.8), w = vc::positive("w", 0.5, 2);
    vc::assume(l >= 0 && r <= 3 && r > l);
    Eigen::Vector2d u{vc::real("u", -1, 1, 0), vc::real("u", -1, 1, 1)};
    pr.AddSimpleInterval(u, w, l, r);
    double s = 0, sv[2] = {0, 0};
    for (int i = 0; i < 3; i++)
    {
        double len = std::max(std::min(r, i + 1.) - std::max(l, (double)i), 0.);
        vc::eq(pr.div[i], w * len / (r - l), "share", i);
        s += pr.div[i];
        for (int k = 0; k < 2; k++)
            vc::eq(pr.v(k, i), u(k) * w * len / (r - l), "amount", i, k), sv[k] += pr.v(k, i);
    }
    vc::eq(s, w, "total-weight");
    vc::eq(sv[0], w * u(0), "total", 0), vc::eq(sv[1], w * u(1), "total", 1);
}
// ---- recorders over ranks ----
CONTRACT(recorders)
{
    double v[2][2], dv[2], di[2];
    for (int r = 0; r < 2; r++)
    {
        dv[r] = vc::positive(r ? "w1" : "w0", 0.5, 2), di[r] = vc::positive(r ? "d1" : "d0", 0.1, 1);
        for (int k = 0; k < 2; k++)
            v[r][k] = vc::real("v", -1, 1, r, k);
    }
    vc::assume(di[0] != di[1] && di[0] < 1e10 && di[1] < 1e10);
    int n = 2;
    vmpi::run(n, [&](int rank) {
        DNDS::MPIInfo mpi;
        mpi.setWorld();
        IntegrationRecorder ir(mpi, 2);
        ir.Add(Eigen::Vector2d{v[rank][0], v[rank][1]}, dv[rank]);
        ir.Reduce();
        for (int k = 0; k < 2; k++)
            vc::eq(ir.v(k), v[0][k] + v[1][k], "integral", rank, k);
        vc::eq(ir.div, dv[0] + dv[1] + 2 * verySmallReal, "weight", rank);
        AnchorPointRecorder<2> ar(mpi);
        ar.AddAnchor(Eigen::Vector2d{v[rank][0], v[rank][1]}, di[rank]);
        ar.AddAnchor(Eigen::Vector2d{5, 5}, di[rank] + 1);
        ar.ObtainAnchorMPI();
        int w = di[1] < di[0];
        for (int k = 0; k < 2; k++)
            vc::eq(ar.val(k), v[w][k], "nearest-anchor", rank, k);
        OneDimProfile<2> pr(mpi);
        pr.GenerateUniform(2, 2, 0., 2.);
        pr.SetZero();
        pr.AddSimpleInterval(Eigen::Vector2d{v[rank][0], v[rank][1]}, dv[rank], rank * 0.5, rank * 0.5 + 1);
        pr.Reduce();
        double s = dv[1] / 2;
        vc::eq(pr.div[0], dv[0] + s, "profile-weight", rank, 0), vc::eq(pr.div[1], s, "profile-weight", rank, 1);
        for (int k = 0; k < 2; k++)
            vc::eq(pr.v(k, 0), v[0][k] * dv[0] + v[1][k] * s, "profile", rank, k), vc::eq(pr.v(k, 1), v[1][k] * s, "profile", rank, k + 2);
    });
}
CONTRACT(cl_second_update)
{
    auto s = clSettings();
    CLDriver d(s);
    auto mpi = silent();
    double A = vc::real("A", 0.2, 0.3), B = vc::real("B", 0.3, 0.4), std0 = pi * pi / 90.;
    vc::assume(A < 1e10 && A > -1e10 && B < 1e10 && B > -1e10 && s.targetCL < 1e10 && s.targetCL > -1e10);
    vc::assume(s.targetCL > A + vc::frac(1, 1000) && s.AOAInit < 1e10 && s.AOAInit > -1e10);
    double A2 = A + vc::real("dA", -1e-4, 1e-4);
    vc::assume(A2 - A < vc::frac(1, 1000) && A - A2 < vc::frac(1, 1000) && s.targetCL > A2 + vc::frac(1, 1000));
    d.Update(0, A, mpi), d.Update(1, A2, mpi);
    double a1 = d.GetAOA();
    d.Update(2, B, mpi), d.Update(3, B, mpi);
    double k = (B - (A + A2) / 2) / (a1 - s.AOAInit); // against the settled mean
    if (k < 0)
        k = std0;
    k = std::max(std::min(k, 10 * std0), 0.9 * std0);
    vc::eq(d.GetAOA(), a1 + (s.targetCL - B) / k * s.CLIncrementRelax, "secant-slope");
}
// the spread that counts is the larger of those above and below the mean of the window
CONTRACT(cl_window)
{
    auto s = clSettings();
    s.CLconvergeWindow = 3;
    CLDriver d(s);
    auto mpi = silent();
    double c = vc::real("c", 0.2, 0.3), e = vc::real("e", -2e-3, 2e-3), h = e / 3;
    vc::assume(c < 1e10 && c > -1e10 && s.targetCL < 1e10 && s.targetCL > -1e10 && e < 1 && e > -1);
    d.Update(0, c, mpi), d.Update(1, c + e, mpi), d.Update(2, c, mpi);
    if (std::abs(2 * h) <= s.CLconvergeThreshold)
        vc::eq(d.GetAOA(), s.AOAInit + (s.targetCL - c) / (pi * pi / 90.) * s.CLIncrementRelax, "settled");
    else
        vc::eq(d.GetAOA(), s.AOAInit, "unsettled");
}
// after a move the window is filled anew, and at least the least number of iterations passes; the count of convergence starts again
CONTRACT(cl_restarts)
{
    auto s = clSettings();
    s.nIterConvergeMin = 3, s.CLconvergeLongWindow = 4;
    CLDriver d(s);
    auto mpi = silent();
    double c = s.targetCL - vc::real("c", 0, 5e-5);
    vc::assume(s.targetCL < 1e10 && s.targetCL > -1e10 && s.targetCL - c < vc::frac(1, 10000) && s.targetCL - c > 0);
    double last = s.AOAInit;
    for (int i = 0; i < 6; i++)
    {
        d.Update(i, c, mpi);
        if (i != 2 && i != 5)
            vc::eq(d.GetAOA(), last, "no-move", i);
        else
            vc::check(d.GetAOA() > last, "move", i);
        last = d.GetAOA();
        vc::check(!d.ConvergedAtTarget(), "not-converged", i);
    }
}
