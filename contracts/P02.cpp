// P02: quadrature
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include <iostream>
#include "Geom/Quadrature.hpp"
using namespace DNDS;
using namespace DNDS::Geom;
using namespace DNDS::Geom::Elem;

static double fct(int n) { return n < 2 ? 1.0 : n * fct(n - 1); }
static int pdim(ParamSpace ps) { return ps == LineSpace ? 1 : ps == TriSpace || ps == QuadSpace ? 2 : 3; }
static double leg(int a) { return a % 2 ? 0.0 : 2.0 / (a + 1); }
// exact integral of x^a y^b z^c over the reference element
static double exact(ParamSpace ps, int a, int b, int c)
{
    switch (ps)
    {
    case LineSpace:
        return leg(a);
    case QuadSpace:
        return leg(a) * leg(b);
    case HexSpace:
        return leg(a) * leg(b) * leg(c);
    case TriSpace:
        return fct(a) * fct(b) / fct(a + b + 2);
    case TetSpace:
        return fct(a) * fct(b) * fct(c) / fct(a + b + c + 3);
    case PrismSpace:
        return fct(a) * fct(b) / fct(a + b + 2) * leg(c);
    case PyramidSpace: // |x|,|y| <= 1-z
        return leg(a) * leg(b) * fct(c) * fct(a + b + 2) / fct(a + b + c + 3);
    default:
        return 0;
    }
}
static bool inside(ParamSpace ps, double x, double y, double z)
{
    auto in11 = [](double t) { return t >= -1 && t <= 1; };
    switch (ps)
    {
    case LineSpace:
        return in11(x);
    case QuadSpace:
        return in11(x) && in11(y);
    case HexSpace:
        return in11(x) && in11(y) && in11(z);
    case TriSpace:
        return x >= 0 && y >= 0 && x + y <= 1;
    case TetSpace:
        return x >= 0 && y >= 0 && z >= 0 && x + y + z <= 1;
    case PrismSpace:
        return x >= 0 && y >= 0 && x + y <= 1 && in11(z);
    default:
        return z >= 0 && z <= 1 && std::abs(x) <= 1 - z && std::abs(y) <= 1 - z;
    }
}
static double ipow(double x, int n)
{
    double r = 1;
    for (int i = 0; i < n; i++)
        r *= x;
    return r;
}
// every polynomial of total degree <= order (symbolic coefficients) is integrated exactly
static void exactness(ElemType t, int order)
{
    Element e{t};
    ParamSpace ps = e.GetParamSpace();
    const int d = pdim(ps);
    double c[7][7][7], want = 0;
    for (int i = 0; i <= order; i++)
        for (int j = 0; j <= (d > 1 ? order - i : 0); j++)
            for (int k = 0; k <= (d > 2 ? order - i - j : 0); k++)
            {
                c[i][j][k] = vc::real("c", -1, 1, i * 10 + j, k);
                want += c[i][j][k] * exact(ps, i, j, k);
            }
    Quadrature q(e, order);
    vc::check(q.GetNumPoints() > 0, "has-points", order);
    auto poly = [&](const tPoint &p)
    {
        double s = 0;
        for (int i = 0; i <= order; i++)
            for (int j = 0; j <= (d > 1 ? order - i : 0); j++)
                for (int k = 0; k <= (d > 2 ? order - i - j : 0); k++)
                    s += c[i][j][k] * (ipow(p(0), i) * ipow(p(1), j) * ipow(p(2), k));
        return s;
    };
    int count = 0;
    double got = 0;
    q.Integration(got, [&](double &inc, int iG, const tPoint &p, const tD01Nj &)
                  {
                      vc::ieq(iG, count, "point-order", order, count);
                      count++;
                      inc = poly(p); });
    vc::eq(got, want, "polynomial-exactness", order, -1, 1e-12);
    vc::ieq(count, q.GetNumPoints(), "every-point-once", order);
    double got2 = 0, got3 = 0;
    q.IntegrationSimple(got2, [&](double &inc, int iG) { inc = poly(std::get<0>(q.GetQuadraturePointInfo(iG))); });
    q.IntegrationSimple(got3, [&](double &inc, int iG, real w)
                        {
                            auto [p, w2] = q.GetQuadraturePointInfo(iG);
                            vc::eq(w, w2, "weight", order, iG);
                            inc = poly(p); });
    vc::eq(got2, want, "polynomial-exactness-simple", order, -1, 1e-12);
    vc::eq(got3, want, "polynomial-exactness-weighted", order, -1, 1e-12);
}
static void points(ElemType t)
{
    Element e{t};
    ParamSpace ps = e.GetParamSpace();
    vc::eq(ParamSpaceVol(ps), exact(ps, 0, 0, 0), "reference-volume");
    int last = 0;
    for (int o = 0; o <= INT_ORDER_MAX; o++)
    {
        int n = GetQuadratureScheme(ps, o);
        vc::check(n >= last, "more-points-for-higher-order", o);
        last = n;
        Quadrature q(e, o);
        for (int g = 0; g < n; g++)
        {
            auto [p, w] = q.GetQuadraturePointInfo(g);
            vc::check(inside(ps, p(0), p(1), p(2)), "point-inside-element", o, g);
        }
        vc::check(vc::aborts([&] { q.GetQuadraturePointInfo(n); }), "past-end-rejected", o);
    }
}
// shape functions and gradients handed to the integrand are those of the element at the quadrature point
static void buffers(ElemType t, int order)
{
    Element e{t};
    Quadrature q(e, order);
    double acc = 0;
    q.Integration(acc, [&](double &inc, int iG, const tPoint &p, const tD01Nj &D)
                  {
                      tD01Nj R;
                      R.resize(4, e.GetNumNodes());
                      e.GetD01Nj(p, R);
                      vc::ieq(D.cols(), e.GetNumNodes(), "nodes", iG);
                      for (int i = 0; i < 4; i++)
                          for (int j = 0; j < e.GetNumNodes(); j++)
                              vc::eq(D(i, j), R(i, j), "shape-functions-at-point", iG * 4 + i, j, 1e-12);
                      inc = 0; });
}
#define EX(T) \
    CONTRACT(exact_##T) { for (int o = 0; o <= INT_ORDER_MAX; o++) exactness(T, o); } \
    CONTRACT(points_##T) { points(T); }
EX(Line2)
EX(Tri3)
EX(Quad4)
EX(Tet4)
EX(Hex8)
EX(Prism6)
EX(Pyramid5)
#define BUF(T) CONTRACT(buffers_##T) { for (int o = 0; o <= INT_ORDER_MAX; o++) buffers(T, o); }
BUF(Line2)
BUF(Line3)
BUF(Tri3)
BUF(Tri6)
BUF(Quad4)
BUF(Quad9)
BUF(Tet4)
BUF(Tet10)
BUF(Hex8)
BUF(Hex27)
BUF(Prism6)
BUF(Prism18)
BUF(Pyramid5)
BUF(Pyramid14)
// higher-order elements use the rule of their reference shape
CONTRACT(elevated)
{
    ElemType a[7] = {Line2, Tri3, Quad4, Tet4, Hex8, Prism6, Pyramid5}, b[7] = {Line3, Tri6, Quad9, Tet10, Hex27, Prism18, Pyramid14};
    for (int i = 0; i < 7; i++)
        for (int o = 0; o <= INT_ORDER_MAX; o++)
        {
            Quadrature p(Element{a[i]}, o), q(Element{b[i]}, o);
            vc::ieq(q.GetNumPoints(), p.GetNumPoints(), "same-rule", i, o);
            for (int g = 0; g < q.GetNumPoints(); g++)
            {
                auto [x, w] = p.GetQuadraturePointInfo(g);
                auto [y, v] = q.GetQuadraturePointInfo(g);
                vc::check(x(0) == y(0) && x(1) == y(1) && x(2) == y(2) && w == v, "same-point", i * 10 + o, g);
            }
        }
}
