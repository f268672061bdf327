// P04: polynomial basis and its derivatives
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include <iostream>
#include "Geom/DiffTensors.hpp"
using namespace DNDS;
using namespace DNDS::Geom::Base;
using Eigen::MatrixXd;

static int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
// d-th derivative of x^p: falling factorial times x^(p-d)
static double dmono(int p, int d, double x)
{
    if (d > p)
        return 0;
    double r = 1;
    for (int i = 0; i < d; i++)
        r *= p - i;
    for (int i = 0; i < p - d; i++)
        r *= x;
    return r;
}
static double ipow(double x, int n)
{
    double r = 1;
    for (int i = 0; i < n; i++)
        r *= x;
    return r;
}
template <int dim>
static const std::array<int, 3> &order(int i)
{
    if constexpr (dim == 2)
        return diffOperatorOrderList2D[i];
    else
        return diffOperatorOrderList[i];
}
// entry (i,j) = derivative number i of basis monomial number j with respect to the physical coordinates X = l * x
template <int dim>
static void fill(int rows, int cols)
{
    double x = vc::real("x", -1, 1), y = vc::real("y", -1, 1), z = vc::real("z", -1, 1);
    double lx = vc::positive("lx", 0.5, 2), ly = vc::positive("ly", 0.5, 2), lz = vc::positive("lz", 0.5, 2);
    MatrixXd T(rows, cols);
    T.setConstant(vc::real("garbage", -1, 1));
    if constexpr (dim == 2)
        FPolynomialFill2D(T, x, y, z, lx, ly, lz, rows, cols);
    else
        FPolynomialFill3D(T, x, y, z, lx, ly, lz, rows, cols);
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++)
        {
            auto d = order<dim>(i), p = order<dim>(j);
            double e = dmono(p[0], d[0], x) * dmono(p[1], d[1], y) / ipow(lx, d[0]) / ipow(ly, d[1]);
            if (dim == 3)
                e = e * dmono(p[2], d[2], z) / ipow(lz, d[2]);
            vc::eq(T(i, j), e, "derivative-of-monomial", i, j);
        }
}
#define FILL(d, r, c) \
    CONTRACT(fill##d##d_##r##_##c) { fill<d>(r, c); }
FILL(2, 10, 10)
FILL(2, 6, 10)
FILL(2, 3, 10)
FILL(2, 1, 10)
FILL(2, 6, 6)
FILL(2, 3, 6)
FILL(2, 1, 6)
FILL(2, 3, 3)
FILL(2, 1, 3)
FILL(2, 1, 1)
FILL(2, 10, 6)
FILL(2, 10, 3)
FILL(2, 6, 3)
FILL(3, 20, 20)
FILL(3, 10, 20)
FILL(3, 4, 20)
FILL(3, 1, 20)
FILL(3, 10, 10)
FILL(3, 4, 10)
FILL(3, 1, 10)
FILL(3, 4, 4)
FILL(3, 1, 4)
FILL(3, 1, 1)
FILL(3, 20, 10)
FILL(3, 20, 4)
FILL(3, 10, 4)
CONTRACT(polynomial3d)
{
    double x = vc::real("x", -1, 1), y = vc::real("y", -1, 1), z = vc::real("z", -1, 1);
    for (int px = 0; px <= 3; px++)
        for (int py = 0; py <= 3; py++)
            for (int pz = 0; pz <= 3; pz++)
                for (int dx = 0; dx <= 3; dx++)
                    for (int dy = 0; dy <= 3; dy++)
                        for (int dz = 0; dz <= 3; dz++)
                            vc::eq(FPolynomial3D(px, py, pz, dx, dy, dz, x, y, z), dmono(px, dx, x) * dmono(py, dy, y) * dmono(pz, dz, z), "monomial-derivative", (px * 4 + py) * 4 + pz, (dx * 4 + dy) * 4 + dz);
}
template <int dim>
static void tables(int n)
{
    int at = 0;
    for (int o = 0; o <= 3; o++)
    {
        int cnt = 0;
        for (int i = 0; i < n; i++)
        {
            auto a = order<dim>(i);
            if (a[0] + a[1] + a[2] == o)
                cnt++, vc::check(i >= at, "sorted-by-order", i);
            vc::check(a[0] >= 0 && a[1] >= 0 && a[2] >= 0 && a[0] + a[1] + a[2] <= 3, "order-range", i);
            if (dim == 2)
                vc::ieq(a[2], 0, "planar", i);
        }
        int want = dim == 2 ? o + 1 : (o + 1) * (o + 2) / 2;
        vc::ieq(cnt, want, "complete", o);
        at += want;
        vc::ieq(ndiffSizS<dim>(o), at, "size-table", o);
        vc::ieq(ndiff2order<dim>(at), o, "size-to-order", o);
        vc::ieq(GetNDof<dim>(o), at, "ndof", o);
    }
    auto &I = getDiffOperatorIJK2I<dim>();
    for (int i = 0; i < n; i++)
    {
        auto a = order<dim>(i);
        for (int j = 0; j < i; j++)
        {
            auto b = order<dim>(j);
            vc::check(a[0] != b[0] || a[1] != b[1] || a[2] != b[2], "distinct", i, j);
        }
        int o = a[0] + a[1] + a[2];
        // index list <-> multi-index
        int c[3] = {0, 0, 0};
        for (int k = 0; k < o; k++)
        {
            int d = dim == 2 ? diffOperatorDimList2D[i][k] : diffOperatorDimList[i][k];
            vc::check(d >= 0 && d < dim, "direction-range", i, k);
            c[d]++;
        }
        for (int k = 0; k < 3; k++)
            vc::ieq(c[k], a[k], "directions-match-multi-index", i, k);
        vc::ieq(dim == 2 ? diffNCombs2D[i] : diffNCombs[i], fact(o) / fact(a[0]) / fact(a[1]) / fact(a[2]), "multiplicity", i);
    }
    for (int i = 0; i < dim; i++)
    {
        auto chk = [&](int at, int a, int b, int c, int code)
        {
            int w[3] = {0, 0, 0};
            w[a]++;
            if (b >= 0)
                w[b]++;
            if (c >= 0)
                w[c]++;
            vc::check(at >= 0 && at < n && order<dim>(at)[0] == w[0] && order<dim>(at)[1] == w[1] && order<dim>(at)[2] == w[2], "index-of-derivative", code);
        };
        chk(std::get<1>(I)[i], i, -1, -1, i);
        for (int j = 0; j < dim; j++)
        {
            chk(std::get<2>(I)[i][j], i, j, -1, 10 + i * 3 + j);
            for (int k = 0; k < dim; k++)
                chk(std::get<3>(I)[i][j][k], i, j, k, 100 + (i * 3 + j) * 3 + k);
        }
    }
}
CONTRACT(tables_2d) { tables<2>(10); }
CONTRACT(tables_3d) { tables<3>(20); }
CONTRACT(factorials)
{
    for (int i = 0; i <= 9; i++)
        vc::ieq(factorials[i], fact(i), "factorial", i);
    for (int p = 0; p <= 3; p++)
        for (int d = 0; d <= 3; d++)
            vc::ieq(dFactorials[p][d], d > p ? 0 : fact(p) / fact(p - d), "falling-factorial", p, d);
    double x = vc::real("x", -2, 2);
    for (int p = 0; p <= 3; p++)
        vc::eq(iPow(p, x), ipow(x, p), "power", p);
}
