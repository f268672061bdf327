// P13: conservative/primitive conversion and ideal-gas thermodynamics
#include "gas_common.hpp"

// primitive -> conservative -> primitive and back is the identity, for any number of transported extras
template <int dim, int nv>
static void roundTrip()
{
    double gamma = gammaIn();
    auto S = physState<dim>("s", "a", "v", gamma);
    Vector<double, nv> U, P, U2, P2;
    for (int i = 0; i < dim + 2; i++)
        U(i) = S.U(i);
    for (int i = dim + 2; i < nv; i++)
        U(i) = vc::real("extra", -1, 1, i);
    G::IdealGasThermalConservative2Primitive<dim>(U, P, gamma);
    vc::eq(P(0), S.rho, "prim-density");
    for (int i = 0; i < dim; i++)
        vc::eq(P(1 + i), S.v(i), "prim-velocity", i);
    vc::eq(P(dim + 1), S.p, "prim-pressure");
    for (int i = dim + 2; i < nv; i++)
        vc::eq(P(i), U(i) / S.rho, "prim-extra", i);
    G::IdealGasThermalPrimitive2Conservative<dim>(P, U2, gamma);
    for (int i = 0; i < nv; i++)
        vc::eq(U2(i), U(i), "roundtrip-cons", i);
    // primitive first
    Vector<double, nv> Q;
    Q(0) = S.rho;
    for (int i = 0; i < dim; i++)
        Q(1 + i) = S.v(i);
    Q(dim + 1) = vc::real("p", -1, 3); // also for non-physical pressure
    for (int i = dim + 2; i < nv; i++)
        Q(i) = vc::real("extra", -1, 1, i);
    G::IdealGasThermalPrimitive2Conservative<dim>(Q, U2, gamma);
    G::IdealGasThermalConservative2Primitive<dim>(U2, P2, gamma);
    for (int i = 0; i < nv; i++)
        vc::eq(P2(i), Q(i), "roundtrip-prim", i);
}
CONTRACT(roundtrip_2d) { roundTrip<2, 4>(); }
CONTRACT(roundtrip_3d) { roundTrip<3, 5>(); }
CONTRACT(roundtrip_3d_sa) { roundTrip<3, 6>(); }
CONTRACT(roundtrip_3d_2eq) { roundTrip<3, 7>(); }
CONTRACT(roundtrip_2d_2eq) { roundTrip<2, 6>(); }

// non-positive density is rejected in both directions
template <int dim>
static void rejects()
{
    double gamma = gammaIn();
    Vector<double, dim + 2> U, P;
    for (int i = 0; i < dim + 2; i++)
        U(i) = vc::real("u", -2, 2, i);
    vc::assume(U(0) < 0);
    vc::check(vc::aborts([&] { G::IdealGasThermalConservative2Primitive<dim>(U, P, gamma); }), "c2p-rejects-negative-density");
    vc::check(vc::aborts([&] { G::IdealGasThermalPrimitive2Conservative<dim>(U, P, gamma); }), "p2c-rejects-negative-density");
}
CONTRACT(rejects_2d) { rejects<2>(); }
CONTRACT(rejects_3d) { rejects<3>(); }

CONTRACT(thermal)
{
    double gamma = gammaIn();
    double rho = vc::positive("rho", 0.2, 3), p = vc::positive("p", 0.2, 3), vs = vc::real("vsqr", 0, 3);
    vc::assume(vs >= 0);
    double E = p / (gamma - 1) + 0.5 * rho * vs;
    double p1, asqr, H;
    G::IdealGasThermal(E, rho, vs, gamma, p1, asqr, H);
    vc::eq(p1, p, "pressure");
    vc::eq(asqr * rho, gamma * p, "sound-speed");
    vc::eq(H * rho, E + p, "total-enthalpy");
    vc::eq((gamma - 1) * (H - 0.5 * vs), asqr, "enthalpy-sound-speed");
}
// stagnation state: T0 = T + v^2/(2 cp), p0/p = (T0/T)^(gamma/(gamma-1)); rest state is its own stagnation state
template <int dim>
static void stagnation()
{
    double gamma = gammaIn();
    double rg = vc::positive("Rgas", 0.2, 3);
    auto S = physState<dim>("s", "a", "v", gamma);
    Vector<double, dim + 2> P;
    P(0) = S.rho;
    for (int i = 0; i < dim; i++)
        P(1 + i) = S.v(i);
    P(dim + 1) = S.p;
    auto [p0, T0] = G::IdealGasThermalPrimitiveGetP0T0<dim>(P, gamma, rg);
    double T = S.p / (S.rho * rg), cp = gamma * rg / (gamma - 1);
    vc::eq(T0, T + S.v.squaredNorm() / (2 * cp), "stagnation-temperature");
    vc::eq(p0, S.p * std::pow(T0 / T, gamma / (gamma - 1)), "stagnation-pressure");
    for (int i = 0; i < dim; i++)
        P(1 + i) = 0;
    auto [p0r, T0r] = G::IdealGasThermalPrimitiveGetP0T0<dim>(P, gamma, rg);
    vc::eq(p0r, S.p, "rest-pressure");
    vc::eq(T0r, T, "rest-temperature");
}
CONTRACT(stagnation_2d) { stagnation<2>(); }
CONTRACT(stagnation_3d) { stagnation<3>(); }
