// P01: shape functions of the 14 element types
#include "vc.hpp"
#include "Geom/Elements.hpp"
#include "Geom/Elements.cpp"
using namespace DNDS;
using namespace DNDS::Geom;
using namespace DNDS::Geom::Elem;

static void nodeCheck(ElemType t)
{
    Element e{t};
    auto X = GetStandardCoord(t);
    int n = e.GetNumNodes();
    vc::ieq(X.cols(), n, "std-coord-count");
    for (int i = 0; i < n; i++)
    {
        // rational pyramids: the apex is a removable singularity, regularised by the code
        double tol = (t == Pyramid5 || t == Pyramid14) && X(2, i) == 1.0 ? 1e-9 : 0.0;
        tPoint p = X.col(i);
        tNj Nj;
        e.GetNj(p, Nj);
        vc::ieq(Nj.size(), n, "Nj-size");
        for (int j = 0; j < n; j++)
            vc::eq(Nj(j), i == j ? 1.0 : 0.0, "kronecker", i, j, tol);
    }
}

static void fieldCheck(ElemType t)
{
    Element e{t};
    auto X = GetStandardCoord(t);
    int n = e.GetNumNodes(), dim = e.GetDim(), ord = e.GetOrder();
    tPoint p;
    p.setZero();
    p[0] = vc::real("xi", -1, 1);
    if (dim > 1)
        p[1] = vc::real("et", -1, 1);
    if (dim > 2)
        p[2] = vc::real("zt", -1, 0.9);
    if (t == Pyramid5 || t == Pyramid14)
        vc::assume(p[2] <= 1 - 1e-6);
    tNj Nj;
    e.GetNj(p, Nj);
    double s = 0;
    tPoint x;
    x.setZero();
    for (int j = 0; j < n; j++)
        s += Nj(j), x += X.col(j) * Nj(j);
    vc::eq(s, 1, "partition-of-unity");
    for (int d = 0; d < 3; d++)
        vc::eq(x[d], p[d], "reproduces-coordinates", d);
    if (ord == 2)
        for (int a = 0; a < dim; a++)
            for (int b = a; b < dim; b++)
            {
                if (t == Pyramid14 && a == b && a < 2)
                    continue; // the rational pyramid space does not contain xi^2, et^2 by design
                double q = 0;
                for (int j = 0; j < n; j++)
                    q += X(a, j) * X(b, j) * Nj(j);
                vc::eq(q, p[a] * p[b], "reproduces-quadratics", a, b);
            }
}

static void diffCheck(ElemType t)
{
    Element e{t};
    int n = e.GetNumNodes(), dim = e.GetDim();
    tPoint p;
    p.setZero();
    p[0] = vc::real("xi", -1, 1);
    if (dim > 1)
        p[1] = vc::real("et", -1, 1);
    if (dim > 2)
        p[2] = vc::real("zt", -1, 0.8);
    if (t == Pyramid5 || t == Pyramid14)
        vc::assume(p[2] <= 1 - 1e-6);
    tNj N0;
    tD1Nj D1;
    tD01Nj D01;
    tDiNj Di;
    e.GetNj(p, N0);
    e.GetD1Nj(p, D1);
    e.GetD01Nj(p, D01);
    e.GetDiNj(p, Di, 3);
    vc::ieq(Di.cols(), n, "DiNj-cols");
    vc::ieq(D1.cols(), n, "D1Nj-cols");
    for (int j = 0; j < n; j++)
    {
        vc::eq(Di(0, j), N0(j), "order0-agrees", j);
        vc::eq(D01(0, j), N0(j), "D01-order0", j);
        for (int d = 0; d < 3; d++)
            vc::eq(D01(1 + d, j), D1(d, j), "D01-order1", d, j);
        for (int d = 0; d < dim; d++)
            vc::eq(D1(d, j), vc::partial([&]() { tNj N; e.GetNj(p, N); return N(j); }, p[d]), "gradient-exact", d, j);
    }
    int rows = dim == 1 ? 4 : dim == 2 ? Base::ndiffSizC2D[3] : Base::ndiffSizC[3];
    vc::ieq(Di.rows(), rows, "DiNj-rows");
    for (int r = 1; r < rows; r++)
    {
        int o[3] = {r, 0, 0};
        if (dim == 2)
            for (int k = 0; k < 2; k++)
                o[k] = Base::diffOperatorOrderList2D[r][k];
        if (dim == 3)
            for (int k = 0; k < 3; k++)
                o[k] = Base::diffOperatorOrderList[r][k];
        int d = 0;
        while (o[d] == 0)
            d++;
        o[d]--;
        int r0 = -1;
        if (dim == 1)
            r0 = r - 1;
        else
            for (int q = 0; q < r; q++)
            {
                bool same = true;
                for (int k = 0; k < dim; k++)
                    same = same && o[k] == (dim == 2 ? Base::diffOperatorOrderList2D[q][k] : Base::diffOperatorOrderList[q][k]);
                if (same)
                    r0 = q;
            }
        vc::check(r0 >= 0, "diff-order-list", r);
        for (int j = 0; j < n; j++)
            vc::eq(Di(r, j), vc::partial([&]() { tDiNj D; e.GetDiNj(p, D, 3); return D(r0, j); }, p[d]), "derivative-exact", r, j);
        if (r < (dim == 1 ? 3 : dim == 2 ? (int)Base::ndiffSizC2D[2] : (int)Base::ndiffSizC[2]))
        {
            tDiNj D2;
            e.GetDiNj(p, D2, 2);
            for (int j = 0; j < n; j++)
                vc::eq(D2(r, j), Di(r, j), "order-truncation-agrees", r, j);
        }
    }
}
#define ALL(T)                                  \
    CONTRACT(nodes_##T) { nodeCheck(T); }       \
    CONTRACT(field_##T) { fieldCheck(T); }      \
    CONTRACT(diff_##T) { diffCheck(T); }
ALL(Line2) ALL(Line3) ALL(Tri3) ALL(Tri6) ALL(Quad4) ALL(Quad9) ALL(Tet4) ALL(Tet10) ALL(Hex8) ALL(Hex27)
ALL(Prism6) ALL(Prism18) ALL(Pyramid5) ALL(Pyramid14)
