#pragma once
#include "vc.hpp"
#include "Euler/Gas.hpp"
using namespace DNDS;
using namespace DNDS::Euler;
namespace G = DNDS::Euler::Gas;
using Eigen::Vector;

template <int dim>
struct State
{
    double rho, a, s; // density (= s*s), sound speed
    Vector<double, dim> v;
    double p, E;
    Vector<double, dim + 2> U;
};

// an arbitrary physical state: density s^2 > 0, sound speed a > 0, arbitrary velocity
template <int dim>
State<dim> physState(const char *ns, const char *na, const char *nv, double gamma)
{
    State<dim> S;
    S.s = vc::positive(ns, 0.3, 2);
    S.rho = S.s * S.s;
    S.a = vc::positive(na, 0.4, 2);
    for (int i = 0; i < dim; i++)
        S.v(i) = vc::real(nv, -2, 2, i);
    S.p = S.rho * S.a * S.a / gamma;
    S.E = S.p / (gamma - 1) + 0.5 * S.rho * S.v.squaredNorm();
    S.U(0) = S.rho;
    for (int i = 0; i < dim; i++)
        S.U(1 + i) = S.rho * S.v(i);
    S.U(dim + 1) = S.E;
    return S;
}
inline double gammaIn()
{
    double g = vc::real("gamma", 1.1, 1.9);
    vc::assume(g > 1);
    return g;
}
template <int dim>
Vector<double, dim> unitN(const char *n)
{
    double b[3];
    __vc_unit(n, b, dim);
    Vector<double, dim> r;
    for (int i = 0; i < dim; i++)
        r(i) = b[i];
    return r;
}
template <int dim>
Vector<double, dim> vec(const char *n, double lo = -2, double hi = 2)
{
    Vector<double, dim> r;
    for (int i = 0; i < dim; i++)
        r(i) = vc::real(n, lo, hi, i);
    return r;
}
// the Euler flux through a unit normal n of a face moving with velocity vg, from first principles
template <int dim>
Vector<double, dim + 2> exactFlux(const State<dim> &S, const Vector<double, dim> &vg, const Vector<double, dim> &n)
{
    Vector<double, dim + 2> F;
    double w = 0, vn = 0;
    for (int i = 0; i < dim; i++)
        w += (S.v(i) - vg(i)) * n(i), vn += S.v(i) * n(i);
    F(0) = S.rho * w;
    for (int i = 0; i < dim; i++)
        F(1 + i) = S.rho * S.v(i) * w + S.p * n(i);
    F(dim + 1) = S.E * w + S.p * vn;
    return F;
}

// the same for a conserved state
template <int dim>
Vector<double, dim + 2> fluxOf(const Vector<double, dim + 2> &U, double gamma, const Vector<double, dim> &vg, const Vector<double, dim> &n)
{
    State<dim> S;
    S.rho = U(0);
    double v2 = 0;
    for (int i = 0; i < dim; i++)
        S.v(i) = U(1 + i) / U(0), v2 += S.v(i) * S.v(i);
    S.E = U(dim + 1);
    S.p = (gamma - 1) * (S.E - 0.5 * S.rho * v2);
    return exactFlux<dim>(S, vg, n);
}
