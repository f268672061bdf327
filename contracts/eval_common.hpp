// An EulerEvaluator whose members used by the pointwise physics (settings, boundary table, per-face scratch) are built
// by their own constructors; no mesh or reconstruction is attached (the functions under contract do not touch them).
#pragma once
#include "vmpi_dnds.hpp"
#include "Euler/EulerEvaluator.hpp"
#include "Euler/EulerEvaluator_EvaluateDt.hxx"
#include "gas_common.hpp"
#include <new>
FMT_BEGIN_NAMESPACE
std::string vformat(string_view, format_args) { return {}; }
FMT_END_NAMESPACE
using DIdx = DNDS::index;

template <EulerModel M>
struct Eval
{
    using EV = EulerEvaluator<M>;
    using TU = typename EV::TU;
    using TVec = typename EV::TVec;
    static constexpr int dim = EV::dim, nV = EV::nVarsFixed;
    EV *e;
    double gamma, Rgas, mu, Pr, Cp, TRef, CSut;
    Eval()
    {
        e = (EV *)std::calloc(1, sizeof(EV));
        new (&e->settings) EulerEvaluatorSettings<M>();
        new (&e->pBCHandler) ssp<BoundaryHandler<M>>();
        DNDS_MAKE_SSP(e->pBCHandler, nV);
        new (&e->anchorRecorders) decltype(e->anchorRecorders)();
        new (&e->profileRecorders) decltype(e->profileRecorders)();
        new (&e->deltaLambdaFace) decltype(e->deltaLambdaFace)(1);
        new (&e->dWallFace) decltype(e->dWallFace)(1);
        new (&e->dWall) decltype(e->dWall)(1);
        e->nVars = nV;
        gamma = gammaIn();
        Rgas = vc::positive("Rgas", 0.5, 2);
        mu = vc::positive("muGas", 0.01, 1);
        Pr = vc::positive("Pr", 0.5, 1);
        TRef = vc::positive("TRef", 0.5, 2);
        CSut = vc::positive("CSut", 0.2, 1);
        Cp = Rgas * gamma / (gamma - 1);
        auto &g = e->settings.idealGasProperty;
        g.gamma = gamma, g.Rgas = Rgas, g.muGas = mu, g.prGas = Pr, g.CpGas = Cp, g.TRef = TRef, g.CSutherland = CSut;
    }
    EV *operator->() { return e; }
};
template <int dim, int nV>
Vector<double, nV> widen(const Vector<double, dim + 2> &U, const char *nm)
{
    Vector<double, nV> r;
    for (int i = 0; i < dim + 2; i++)
        r(i) = U(i);
    for (int i = dim + 2; i < nV; i++)
        r(i) = vc::real(nm, 0.1, 1, i);
    return r;
}
