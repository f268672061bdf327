// P03: element topology
#include "vc.hpp"
#include <set>
#include "Geom/Elements.hpp"
#include "Geom/Elements.cpp"
using namespace DNDS;
using namespace DNDS::Geom;
using namespace DNDS::Geom::Elem;

static const ElemType ALL[14] = {Line2, Line3, Tri3, Tri6, Quad4, Quad9, Tet4, Tet10, Hex8, Hex27, Prism6, Prism18, Pyramid5, Pyramid14};

// points and weights exact for the area vector of a (curved) face: degree 3 per direction on lines and quads, degree 2 on triangles
static int rule(ElemType t, double (*p)[2], double *w)
{
    ParamSpace ps = Element{t}.GetParamSpace();
    const double s[3] = {vc::frac(1, 3), vc::frac(4, 3), vc::frac(1, 3)};
    int n = 0;
    if (ps == LineSpace)
        for (int i = 0; i < 3; i++)
            p[n][0] = i - 1, p[n][1] = 0, w[n++] = s[i];
    else if (ps == QuadSpace)
    {
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                p[n][0] = i - 1, p[n][1] = j - 1, w[n++] = s[i] * s[j];
    }
    else
    {
        const double m[3][2] = {{0.5, 0}, {0.5, 0.5}, {0, 0.5}};
        for (int i = 0; i < 3; i++)
            p[n][0] = m[i][0], p[n][1] = m[i][1], w[n++] = vc::frac(1, 6);
    }
    return n;
}
// area vector of a face with the given node coordinates and the flux of the position field through it
static tPoint areaVec(ElemType ft, const tSmallCoords &c, double &xn)
{
    Element f{ft};
    double p[9][2], w[9];
    int n = rule(ft, p, w);
    tPoint A = tPoint::Zero();
    xn = 0;
    for (int g = 0; g < n; g++)
    {
        tD01Nj D;
        f.GetD01Nj(tPoint{p[g][0], p[g][1], 0}, D);
        tJacobi J = ShapeJacobianCoordD01Nj(c, D);
        tPoint x = PPhysicsCoordD01Nj(c, D);
        tPoint nn;
        if (f.GetDim() == 1)
            nn = tPoint{J(1, 0), -J(0, 0), 0};
        else
            nn = tPoint(J.col(0)).cross(tPoint(J.col(1)));
        A += nn * w[g];
        xn += nn.dot(x) * w[g];
    }
    return A;
}
static tSmallCoords faceCoords(Element e, int f, const tSmallCoords &X)
{
    int nn = e.ObtainFace(f).GetNumNodes();
    std::vector<int> id(e.GetNumNodes()), out(nn);
    for (int i = 0; i < e.GetNumNodes(); i++)
        id[i] = i;
    e.ExtractFaceNodes(f, id, out);
    tSmallCoords c;
    c.resize(3, nn);
    for (int i = 0; i < nn; i++)
        c.col(i) = X.col(out[i]);
    return c;
}
// measure of the region enclosed by the oriented faces
static double volume(Element e, const tSmallCoords &X)
{
    double v = 0;
    for (int f = 0; f < e.GetNumFaces(); f++)
    {
        double xn;
        areaVec(e.ObtainFace(f).type, faceCoords(e, f, X), xn);
        v += xn;
    }
    return v / e.GetDim();
}
static void faces(ElemType t)
{
    Element e{t};
    auto X = GetStandardCoord(t);
    const int nn = e.GetNumNodes();
    tPoint centre = tPoint::Zero();
    for (int i = 0; i < e.GetNumVertices(); i++)
        centre += tPoint(X.col(i)) / e.GetNumVertices();
    for (int f = 0; f < e.GetNumFaces(); f++)
    {
        Element F = e.ObtainFace(f);
        vc::ieq(F.GetDim(), e.GetDim() - 1, "face-dim", f);
        vc::ieq(F.GetOrder(), e.GetOrder(), "face-order", f);
        std::vector<int> id(nn), out(F.GetNumNodes());
        for (int i = 0; i < nn; i++)
            id[i] = 100 + i;
        e.ExtractFaceNodes(f, id, out);
        for (int i = 0; i < F.GetNumNodes(); i++)
        {
            vc::check(out[i] >= 100 && out[i] < 100 + (i < F.GetNumVertices() ? e.GetNumVertices() : nn), "face-node-in-element", f, i);
            for (int j = 0; j < i; j++)
                vc::check(out[i] != out[j], "face-nodes-distinct", f, i);
        }
        // the face's nodes sit where the face element puts them: corners, edge midpoints and centre in the face's own order
        Element F1 = F.ObtainO1Elem();
        auto XF = GetStandardCoord(F.type);
        tPoint fc = tPoint::Zero();
        for (int i = 0; i < F.GetNumNodes(); i++)
        {
            tNj N;
            F1.GetNj(tPoint(XF.col(i)), N);
            tPoint x = tPoint::Zero();
            for (int j = 0; j < F1.GetNumNodes(); j++)
                x += N(j) * tPoint(X.col(out[j] - 100));
            for (int d = 0; d < 3; d++)
                vc::eq(X(d, out[i] - 100), x(d), "face-node-position", f * 10 + i, d);
            if (i < F.GetNumVertices())
                fc += x / F.GetNumVertices();
        }
        double xn;
        tPoint A = areaVec(F.type, faceCoords(e, f, X), xn);
        vc::check(A.dot(fc - centre) > 0, "outward", f);
        // a genuine face: the other vertices lie strictly behind it
        for (int i = 0; i < e.GetNumVertices(); i++)
        {
            bool on = false;
            for (int j = 0; j < F.GetNumVertices(); j++)
                on = on || out[j] == 100 + i;
            if (!on)
                vc::check(A.dot(tPoint(X.col(i)) - fc) < 0, "supporting-plane", f, i);
        }
    }
    vc::check(vc::aborts([&] { (void)e.ObtainFace(e.GetNumFaces()); }), "face-past-end-rejected");
    if (e.GetNumFaces())
        vc::eq(volume(e, X), ParamSpaceVol(e.GetParamSpace()), "faces-enclose-reference-volume");
}
// the oriented faces close up for arbitrary, also curved, node positions
static void closed(ElemType t)
{
    Element e{t};
    tSmallCoords X;
    X.resize(3, e.GetNumNodes());
    for (int i = 0; i < e.GetNumNodes(); i++)
        for (int d = 0; d < 3; d++)
            X(d, i) = d < e.GetDim() ? vc::real("x", -1, 1, i, d) : 0.0;
    tPoint A = tPoint::Zero();
    for (int f = 0; f < e.GetNumFaces(); f++)
    {
        double xn;
        A += areaVec(e.ObtainFace(f).type, faceCoords(e, f, X), xn);
    }
    for (int d = 0; d < 3; d++)
        vc::eq(A(d), 0, "closed-surface", d);
}
static void counts(ElemType t)
{
    Element e{t};
    auto X = GetStandardCoord(t);
    vc::ieq(X.cols(), e.GetNumNodes(), "node-count");
    Element o = e.ObtainO1Elem();
    vc::check(o.GetParamSpace() == e.GetParamSpace(), "O1-same-shape");
    vc::ieq(o.GetOrder(), 1, "O1-order");
    vc::ieq(o.GetDim(), e.GetDim(), "O1-dim");
    vc::ieq(o.GetNumNodes(), e.GetNumVertices(), "O1-nodes");
    vc::ieq(o.GetNumFaces(), e.GetNumFaces(), "O1-faces");
    auto Xo = GetStandardCoord(o.type);
    for (int i = 0; i < e.GetNumVertices(); i++)
        for (int d = 0; d < 3; d++)
            vc::eq(X(d, i), Xo(d, i), "vertices-first", i, d);
    for (int i = 0; i < e.GetNumNodes(); i++)
        for (int j = 0; j < i; j++)
            vc::check(X.col(i) != X.col(j), "nodes-distinct", i, j);
    // Euler characteristic with edges counted from the faces
    if (e.GetDim() == 3)
    {
        int he = 0;
        for (int f = 0; f < e.GetNumFaces(); f++)
            he += e.ObtainFace(f).GetNumVertices();
        vc::ieq(e.GetNumVertices() - he / 2 + e.GetNumFaces(), 2, "euler");
    }
}
static void elevation(ElemType t)
{
    Element e{t};
    if (e.GetOrder() != 1)
    {
        vc::check(e.GetNumElev_O1O2() <= 0, "no-elevation-of-O2");
        return;
    }
    Element h = e.ObtainElevatedElem();
    vc::check(h.GetParamSpace() == e.GetParamSpace(), "elevated-shape");
    vc::ieq(h.GetOrder(), 2, "elevated-order");
    vc::ieq(h.GetNumNodes(), e.GetNumNodes() + e.GetNumElev_O1O2(), "elevated-count");
    vc::check(h.ObtainO1Elem().type == t, "elevated-O1");
    auto X = GetStandardCoord(t);
    auto Y = GetStandardCoord(h.type);
    for (int k = 0; k < e.GetNumElev_O1O2(); k++)
    {
        Element s = e.ObtainElevNodeSpan(k);
        std::vector<int> id(e.GetNumNodes()), out(s.GetNumNodes());
        for (int i = 0; i < e.GetNumNodes(); i++)
            id[i] = i;
        e.ExtractElevNodeSpanNodes(k, id, out);
        vc::ieq(s.GetOrder(), 1, "span-O1", k);
        tPoint m = tPoint::Zero();
        for (int i = 0; i < s.GetNumNodes(); i++)
        {
            vc::check(out[i] >= 0 && out[i] < e.GetNumNodes(), "span-node-in-element", k, i);
            for (int j = 0; j < i; j++)
                vc::check(out[i] != out[j], "span-nodes-distinct", k, i);
            m += tPoint(X.col(out[i])) / s.GetNumNodes();
        }
        for (int d = 0; d < 3; d++)
            vc::eq(Y(d, e.GetNumNodes() + k), m(d), "elevated-node-is-span-centre", k, d);
        // the span is a sub-entity in its own vertex order (a parallelogram / parallelepiped in reference space)
        auto S = GetStandardCoord(s.type);
        if (s.GetNumNodes() > 2)
            for (int d = 0; d < 3; d++)
            {
                vc::eq(X(d, out[0]) + X(d, out[2]), X(d, out[1]) + X(d, out[3]), "span-order", k, d);
                if (s.GetNumNodes() == 8)
                    for (int i = 0; i < 4; i++)
                        vc::eq(X(d, out[i + 4]) - X(d, out[i]), X(d, out[4]) - X(d, out[0]), "span-order-3d", k, i);
            }
    }
    vc::check(vc::aborts([&] { (void)e.ObtainElevNodeSpan(e.GetNumElev_O1O2()); }), "span-past-end-rejected");
}
static void bisection(ElemType t)
{
    Element e{t};
    const int nv = t == Tet10 ? 3 : t == Pyramid14 ? 2 : 1, ns = e.GetO2NumBisect();
    auto X = GetStandardCoord(t);
    if (e.GetOrder() == 1)
    {
        vc::ieq(ns, 0, "O1-not-bisected");
        return;
    }
    std::vector<int> id(e.GetNumNodes());
    for (int i = 0; i < e.GetNumNodes(); i++)
        id[i] = i;
    for (int v = 0; v < nv; v++)
    {
        double total = 0;
        std::vector<unsigned long> fc;
        std::vector<int> used(e.GetNumNodes(), 0);
        for (int k = 0; k < ns; k++)
        {
            Element s = e.ObtainO2BisectElem(k);
            vc::ieq(s.GetOrder(), 1, "sub-O1", v, k);
            vc::ieq(s.GetDim(), e.GetDim(), "sub-dim", v, k);
            std::vector<int> sn(s.GetNumNodes());
            e.ExtractO2BisectElemNodes(k, v, id, sn);
            tSmallCoords c;
            c.resize(3, s.GetNumNodes());
            for (int i = 0; i < s.GetNumNodes(); i++)
            {
                vc::check(sn[i] >= 0 && sn[i] < e.GetNumNodes(), "sub-node-in-element", v * 100 + k, i);
                used[sn[i]]++;
                c.col(i) = X.col(sn[i]);
            }
            double vol = s.GetDim() == 1 ? c(0, 1) - c(0, 0) : volume(s, c);
            vc::check(vol > 0, "sub-positive-volume", v, k);
            total += vol;
            if (s.type != Pyramid5 && s.GetDim() > 1)
            {
                auto XS = GetStandardCoord(s.type);
                for (int i = 0; i < s.GetNumNodes(); i++)
                {
                    tD01Nj D;
                    s.GetD01Nj(tPoint(XS.col(i)), D);
                    tJacobi J = ShapeJacobianCoordD01Nj(c, D);
                    if (s.GetDim() == 2)
                        J(2, 2) = 1;
                    vc::check(J.determinant() > 0, "sub-right-handed", v * 100 + k, i);
                }
            }
            for (int f = 0; f < s.GetNumFaces(); f++)
            {
                std::vector<int> fn(s.ObtainFace(f).GetNumNodes());
                s.ExtractFaceNodes(f, sn, fn);
                unsigned long m = 0;
                for (int n : fn)
                    m |= 1ul << n;
                fc.push_back(m);
            }
        }
        vc::eq(total, ParamSpaceVol(e.GetParamSpace()), "sub-volumes-sum", v);
        // conforming: every face of a sub-element is shared by exactly two of them or lies on a face of the parent
        if (e.GetDim() > 1)
            for (size_t a = 0; a < fc.size(); a++)
            {
                int same = 0;
                for (auto b : fc)
                    same += b == fc[a];
                bool onParent = false;
                for (int f = 0; f < e.GetNumFaces(); f++)
                {
                    std::vector<int> fn(e.ObtainFace(f).GetNumNodes());
                    e.ExtractFaceNodes(f, id, fn);
                    unsigned long m = 0;
                    for (int n : fn)
                        m |= 1ul << n;
                    onParent = onParent || (fc[a] & ~m) == 0;
                }
                vc::ieq(same, onParent ? 1 : 2, "sub-faces-conform", v, a);
            }
        for (int i = 0; i < e.GetNumNodes(); i++)
            vc::check(used[i] > 0, "every-node-used", v, i);
        // sub-elements touching a parent face reproduce the same split of that face in every variant
    }
    vc::check(vc::aborts([&] { (void)e.ObtainO2BisectElem(ns); }), "sub-past-end-rejected");
    std::vector<int> sn(27);
    vc::check(vc::aborts([&] { e.ExtractO2BisectElemNodes(0, nv, id, sn); }), "variant-past-end-rejected");
}
// the diagonal chosen for the inner octahedron is the shortest one, and the variant's inner sub-elements are built on it
static void variant(ElemType t)
{
    Element e{t};
    const int nn = e.GetNumNodes();
    const int dT[3][2] = {{4, 9}, {5, 7}, {6, 8}}, dP[2][2] = {{9, 11}, {10, 12}};
    const int nd = t == Tet10 ? 3 : 2;
    const int first = t == Tet10 ? 4 : 8;
    auto X = GetStandardCoord(t);
    std::vector<int> id(nn);
    for (int i = 0; i < nn; i++)
        id[i] = i;
    for (int v = 0; v < nd; v++)
        for (int k = first; k < e.GetO2NumBisect(); k++)
        {
            std::vector<int> sn(4);
            e.ExtractO2BisectElemNodes(k, v, id, sn);
            int hit = 0;
            for (int n : sn)
                hit += n == (t == Tet10 ? dT : dP)[v][0] || n == (t == Tet10 ? dT : dP)[v][1];
            vc::ieq(hit, 2, "inner-sub-element-on-diagonal", v, k);
        }
    tSmallCoords c;
    c.resize(3, nn);
    for (int i = 0; i < nn; i++)
        for (int d = 0; d < 3; d++)
            c(d, i) = vc::real("x", -1, 1, i, d);
    double L[3];
    for (int v = 0; v < nd; v++)
    {
        const int *q = (t == Tet10 ? dT : dP)[v];
        L[v] = (tPoint(c.col(q[0])) - tPoint(c.col(q[1]))).norm();
    }
    int r = GetO2ElemBisectVariant(e, c);
    vc::check(r >= 0 && r < nd, "variant-range");
    const int k = vc::split(r == 0) ? 0 : vc::split(r == 1) ? 1 : 2;
    for (int v = 0; v < nd; v++)
        if (v != k)
            vc::le(L[k], L[v], "shortest-diagonal", k, v);
}
// VTK files carry the same geometry: cell type and node order of the VTK convention
static void vtk(ElemType t)
{
    Element e{t};
    auto X = GetStandardCoord(t);
    std::vector<DNDS::index> id(e.GetNumNodes());
    for (int i = 0; i < e.GetNumNodes(); i++)
        id[i] = 1000 + i;
    auto [type, v] = ToVTKVertsAndData(e, id);
    const int code[15] = {0, 3, 5, 9, 10, 12, 13, 14, 4, 22, 23, 24, 25, 26, 27};
    vc::ieq(type, code[t], "vtk-type");
    if (t == Line3)
    {
        vc::check(v.size() == 3 && v[0] == 1000 && v[1] == 1002 && v[2] == 1001, "vtk-polyline");
        return;
    }
    static const int eT[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    static const int eQ[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    static const int eH[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
    static const int eW[9][2] = {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}};
    static const int eP[8][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}};
    const int(*E)[2] = t == Tri6 || t == Tet10 ? eT : t == Quad9 ? eQ : t == Hex27 ? eH : t == Prism18 ? eW : eP;
    const int ne = t == Tri6 ? 3 : t == Quad9 ? 4 : t == Tet10 ? 6 : t == Hex27 ? 12 : t == Prism18 ? 9 : t == Pyramid14 ? 8 : 0;
    const int nv = e.GetNumVertices();
    vc::ieq(v.size(), nv + ne, "vtk-node-count");
    for (int i = 0; i < nv; i++)
        vc::ieq(v[i], 1000 + i, "vtk-corner", i);
    for (int i = 0; i < ne; i++)
    {
        long n = v[nv + i] - 1000;
        vc::check(n >= nv && n < e.GetNumNodes(), "vtk-edge-node", i);
        for (int d = 0; d < 3; d++)
            vc::eq(2 * X(d, n), X(d, E[i][0]) + X(d, E[i][1]), "vtk-edge-midpoint", i, d);
    }
}
// two cells are face-connected exactly when they share all vertices of a face
static void connected(ElemType t)
{
    Element e{t};
    const int nv = e.GetNumVertices(), nn = e.GetNumNodes();
    std::vector<DNDS::index> a(nn), b(nv);
    for (int i = 0; i < nn; i++)
        a[i] = 50 + (i * 7) % 29;
    for (int m = 0; m < (1 << nv); m++)
    {
        for (int i = 0; i < nv; i++)
            b[nv - 1 - i] = (m >> i & 1) ? a[i] : (i % 2 ? 10 + i : 200 + i);
        bool want = false;
        for (int f = 0; f < e.GetNumFaces(); f++)
        {
            std::vector<DNDS::index> fn(e.ObtainFace(f).GetNumNodes());
            e.ExtractFaceNodes(f, a, fn);
            bool all = true;
            for (int i = 0; i < e.ObtainFace(f).GetNumVertices(); i++)
            {
                bool in = false;
                for (auto x : b)
                    in = in || x == fn[i];
                all = all && in;
            }
            want = want || all;
        }
        vc::check(cellsAreFaceConnected(a, b, e, e) == want, "face-connected", m);
    }
}
CONTRACT(counts) { for (auto t : ALL) counts(t); }
CONTRACT(faces) { for (auto t : ALL) faces(t); }
CONTRACT(elevation) { for (auto t : ALL) elevation(t); }
CONTRACT(bisection) { for (auto t : ALL) bisection(t); }
CONTRACT(vtk) { for (auto t : ALL) vtk(t); }
#define CL(T) \
    CONTRACT(closed_##T) { closed(T); } \
    CONTRACT(connected_##T) { connected(T); }
CL(Tri3) CL(Tri6) CL(Quad4) CL(Quad9) CL(Tet4) CL(Tet10) CL(Hex8) CL(Hex27) CL(Prism6) CL(Prism18) CL(Pyramid5) CL(Pyramid14)
CONTRACT(variant_Tet10) { variant(Tet10); }
CONTRACT(variant_Pyramid14) { variant(Pyramid14); }
