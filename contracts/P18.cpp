// P18: slope limiters
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include "DNDS/EigenUtil.hpp"
#include <iostream>
#include <vector>
#include "CFV/Limiters.hpp"
using namespace DNDS;
using namespace DNDS::CFV;
using Eigen::ArrayXXd;

static ArrayXXd arr(const char *n, int r, int c)
{
    ArrayXXd a(r, c);
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++)
            a(i, j) = vc::real(n, -2, 2, i, j);
    return a;
}
enum Kind
{
    WBAP,
    CUT,
    MINMOD,
    VANLEER
};
static ArrayXXd lim2(Kind k, const ArrayXXd &a, const ArrayXXd &b, double n)
{
    ArrayXXd o;
    if (k == WBAP)
        FWBAP_L2_Biway(a, b, o, n);
    else if (k == CUT)
        FWBAP_L2_Cut_Biway(a, b, o, n);
    else if (k == MINMOD)
        FMINMOD_Biway(a, b, o, n);
    else
        FVanLeer_Biway(a, b, o, n);
    return o;
}
// component-wise two-argument limiters, for arbitrary values
static void biway(Kind k)
{
    const int R = 2, C = 1;
    double n = vc::positive("n", 0.5, 10);
    ArrayXXd a = arr("a", R, C), b = arr("b", R, C);
    for (int i = 0; i < R; i++)
    {
        vc::split(a(i, 0) > 0), vc::split(b(i, 0) > 0);
        vc::split(a(i, 0) < 0), vc::split(b(i, 0) < 0);
    }
    ArrayXXd o = lim2(k, a, b, n);
    vc::ieq(o.rows(), R, "rows"), vc::ieq(o.cols(), C, "cols");
    for (int i = 0; i < R; i++)
    {
        double x = a(i, 0), y = b(i, 0), z = o(i, 0), x2 = x * x, y2 = y * y;
        bool opposite = x * y < 0, zero = x == 0 || y == 0;
        if (zero)
            vc::eq(z, 0, "zero-slope-wins", i);
        else if (k == WBAP || (k == CUT && !opposite))
        { // weighted mean with weights x^4, n y^4: between the two slopes, nearer to the smaller one
            vc::eq(z * (x2 * x2 + n * y2 * y2), x2 * x2 * y + n * y2 * y2 * x, "weighted-mean", i);
        }
        else if (opposite)
            vc::eq(z, 0, "opposite-slopes-cancel", i);
        else if (k == MINMOD)
        {
            vc::eq(z, (x > 0 ? 1.0 : -1.0) * std::min(std::abs(x), std::abs(y)), "minmod", i);
            vc::le(std::abs(z), std::abs(x), "not-steeper", i);
            vc::le(std::abs(z), std::abs(y), "not-steeper", i + R);
        }
        else if (k == VANLEER)
        {
            vc::eq(z, 2 * x * y / (x + y), "harmonic-mean", i);
            vc::le(0, z * x, "same-sign", i);
            vc::le(std::abs(z), 2 * std::abs(x), "at-most-twice", i);
            vc::le(std::abs(z), 2 * std::abs(y), "at-most-twice", i + R);
        }
    }
}
CONTRACT(wbap) { biway(WBAP); }
CONTRACT(wbap_cut) { biway(CUT); }
CONTRACT(minmod) { biway(MINMOD); }
CONTRACT(vanleer) { biway(VANLEER); }
static void same(Kind k)
{
    double n = vc::positive("n", 0.5, 10);
    ArrayXXd a = arr("a", 2, 2);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
            vc::assume(a(i, j) != 0), vc::split(a(i, j) > 0);
    ArrayXXd o = lim2(k, a, a, n);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++)
            vc::eq(o(i, j), a(i, j), "equal-slopes-kept", i, j);
}
CONTRACT(same_wbap) { same(WBAP); }
CONTRACT(same_wbap_cut) { same(CUT); }
CONTRACT(same_minmod) { same(MINMOD); }
CONTRACT(same_vanleer) { same(VANLEER); }

// squared length of the derivative tensor whose independent components (in the code's order) are the rows: a row that stands for
// m equal tensor entries carries m times the entry
static const double W2[5][4] = {{}, {}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}};
static const double W33[3] = {1, 1, 1}, W36[6] = {1, 1, 1, 2, 2, 2}, W310[10] = {1, 1, 1, 3, 3, 3, 3, 3, 3, 6};
static double weight(int dim, int rows, int i)
{
    return dim == 2 ? W2[rows][i] : rows == 3 ? W33[i] : rows == 6 ? W36[i] : W310[i];
}
static double norm2(int dim, const ArrayXXd &u, int c)
{
    double s = 0;
    for (int i = 0; i < u.rows(); i++)
        s += u(i, c) * u(i, c) / weight(dim, u.rows(), i);
    return s;
}
template <int dim>
static void polyNorm(int rows)
{
    const int C = 2;
    double n = vc::positive("n", 0.5, 10);
    ArrayXXd a = arr("a", rows, C), b = arr("b", rows, C), o;
    for (int c = 0; c < C; c++)
    {
        vc::assume(norm2(dim, a, c) > 0);
        vc::assume(norm2(dim, b, c) > 0);
    }
    FWBAP_L2_Biway_PolynomialNorm<dim, Eigen::Dynamic>(a, b, o, n);
    vc::ieq(o.rows(), rows, "rows"), vc::ieq(o.cols(), C, "cols");
    for (int c = 0; c < C; c++)
    {
        double A = norm2(dim, a, c), B = norm2(dim, b, c);
        A *= A, B *= B;
        for (int i = 0; i < rows; i++)
            vc::eq(o(i, c) * (A + n * B), A * b(i, c) + n * B * a(i, c), "convex-combination", i, c);
    }
}
CONTRACT(polynorm_2d_1) { polyNorm<2>(2); }
CONTRACT(polynorm_2d_2) { polyNorm<2>(3); }
CONTRACT(polynorm_2d_3) { polyNorm<2>(4); }
CONTRACT(polynorm_3d_1) { polyNorm<3>(3); }
CONTRACT(polynorm_3d_2) { polyNorm<3>(6); }
CONTRACT(polynorm_3d_3) { polyNorm<3>(10); }
template <int dim>
static void memm(int rows)
{
    const int C = 1;
    double n = vc::positive("n", 0.5, 10);
    ArrayXXd a = arr("a", rows, C), b = arr("b", rows, C), o;
    for (int c = 0; c < C; c++)
    {
        vc::assume(norm2(dim, a, c) > 0);
        vc::assume(norm2(dim, b, c) > 0);
        vc::assume(norm2(dim, a, c) != norm2(dim, b, c));
    }
    FMEMM_Biway_PolynomialNorm<dim, Eigen::Dynamic>(a, b, o, n);
    for (int c = 0; c < C; c++)
    {
        bool left = vc::split(norm2(dim, a, c) < norm2(dim, b, c));
        for (int i = 0; i < rows; i++)
            vc::eq(o(i, c), left ? a(i, c) : b(i, c), "smaller-tensor-wins", i, c);
    }
}
CONTRACT(memm_2d_1) { memm<2>(2); }
CONTRACT(memm_2d_2) { memm<2>(3); }
CONTRACT(memm_2d_3) { memm<2>(4); }
CONTRACT(memm_3d_1) { memm<3>(3); }
CONTRACT(memm_3d_2) { memm<3>(6); }
CONTRACT(memm_3d_3) { memm<3>(10); }
CONTRACT(polyorth)
{
    const int R = 3, C = 2;
    double n = vc::positive("n", 0.5, 10);
    ArrayXXd a = arr("a", R, C), b = arr("b", R, C), o;
    for (int c = 0; c < C; c++)
        vc::assume((a.col(c) * a.col(c)).sum() > 0), vc::assume((b.col(c) * b.col(c)).sum() > 0);
    FWBAP_L2_Biway_PolynomialOrth(a, b, o, n);
    for (int c = 0; c < C; c++)
    {
        double A = 0, B = 0;
        for (int i = 0; i < R; i++)
            A += a(i, c) * a(i, c), B += b(i, c) * b(i, c);
        A *= A, B *= B;
        for (int i = 0; i < R; i++)
            vc::eq(o(i, c) * (A + n * B), A * b(i, c) + n * B * a(i, c), "convex-combination", i, c);
    }
}
// many-neighbour versions: weights u_k^-4 (the own value counts n times); N candidates
static void multiway(int N)
{
    double n = vc::positive("n", 0.5, 10);
    std::vector<ArrayXXd> u;
    const char *nm[4] = {"u0", "u1", "u2", "u3"};
    for (int k = 0; k < N; k++)
    {
        u.push_back(arr(nm[k], 2, 1));
        for (int i = 0; i < 2; i++)
            vc::assume(u[k](i, 0) != 0), vc::split(u[k](i, 0) > 0);
    }
    ArrayXXd o;
    FWBAP_L2_Multiway(u, N, o, n);
    for (int i = 0; i < 2; i++)
    {
        double up = 0, dn = 0;
        for (int k = 0; k < N; k++)
        {
            double w = k ? 1.0 : n, x = u[k](i, 0);
            up += w / (x * x * x), dn += w / (x * x * x * x);
        }
        vc::eq(o(i, 0) * dn, up, "weighted-mean-of-candidates", i);
    }
}
CONTRACT(multiway_2) { multiway(2); }
CONTRACT(multiway_3) { multiway(3); }
static void multiPoly(int N, int rows, bool orth)
{
    double n = vc::positive("n", 0.5, 10);
    std::vector<ArrayXXd> u;
    const char *nm[4] = {"u0", "u1", "u2", "u3"};
    for (int k = 0; k < N; k++)
    {
        u.push_back(arr(nm[k], rows, 1));
        vc::assume((u[k] * u[k]).sum() > 0);
    }
    ArrayXXd o;
    if (orth)
        FWBAP_L2_Multiway_PolynomialOrth(u, N, o, n);
    else
        FWBAP_L2_Multiway_Polynomial2D(u, N, o, n);
    double dn = 0;
    std::vector<double> w;
    for (int k = 0; k < N; k++)
    {
        double q = 0;
        for (int i = 0; i < rows; i++)
            q += u[k](i, 0) * u[k](i, 0) / (orth ? 1.0 : weight(2, rows, i));
        w.push_back((k ? 1.0 : n) / (q * q));
        dn += w[k];
    }
    for (int i = 0; i < rows; i++)
    {
        double up = 0;
        for (int k = 0; k < N; k++)
            up += w[k] * u[k](i, 0);
        vc::eq(o(i, 0) * dn, up, "convex-combination-of-candidates", i);
    }
}
CONTRACT(multipoly2_r2) { multiPoly(2, 2, false); }
CONTRACT(multipoly2_r3) { multiPoly(2, 3, false); }
CONTRACT(multipoly2_r4) { multiPoly(2, 4, false); }
CONTRACT(multipoly3_r2) { multiPoly(3, 2, false); }
CONTRACT(multiorth2_r3) { multiPoly(2, 3, true); }
CONTRACT(multiorth3_r2) { multiPoly(3, 2, true); }
// smallest tensor among the centre and its neighbours
static void memmMulti(int N, int rows)
{
    double n = vc::positive("n", 0.5, 10);
    std::vector<ArrayXXd> u;
    const char *nm[4] = {"u0", "u1", "u2", "u3"};
    for (int k = 0; k <= N; k++)
    {
        u.push_back(arr(nm[k], rows, 1));
        vc::assume(norm2(2, u[k], 0) > 0);
        for (int l = 0; l < k; l++)
            vc::assume(norm2(2, u[k], 0) != norm2(2, u[l], 0));
    }
    int best = 0;
    for (int k = 1; k <= N; k++)
        if (vc::split(norm2(2, u[k], 0) < norm2(2, u[best], 0)))
            best = k;
    ArrayXXd o;
    std::vector<ArrayXXd> others(u.begin() + 1, u.end());
    FMEMM_Multiway_Polynomial2D(u[0], others, N, o, n);
    for (int i = 0; i < rows; i++)
        vc::eq(o(i, 0), u[best](i, 0), "smallest-tensor-wins", i);
}
CONTRACT(memm_multi1_r2) { memmMulti(1, 2); }
CONTRACT(memm_multi1_r3) { memmMulti(1, 3); }
CONTRACT(memm_multi1_r4) { memmMulti(1, 4); }
// tensors with one component each: every pair of weights is compared, among the centre and one or two others
static void memmMultiAxes(int N, int rows)
{
    double n = vc::positive("n", 0.5, 10);
    int comp[3] = {(int)vc::choice("component_of_centre", 0, rows - 1), (int)vc::choice("component_of_1", 0, rows - 1), N > 1 ? (int)vc::choice("component_of_2", 0, rows - 1) : 0};
    double amp[3] = {vc::positive("a0", 0.5, 2), vc::positive("a1", 0.5, 2), N > 1 ? vc::positive("a2", 0.5, 2) : 0};
    std::vector<ArrayXXd> u;
    double q[3];
    for (int k = 0; k <= N; k++)
    {
        int c = comp[k];
        double a = amp[k];
        u.push_back(ArrayXXd::Zero(rows, 1));
        u[k](c, 0) = a;
        q[k] = a * a / weight(2, rows, c);
        for (int l = 0; l < k; l++)
            vc::assume(q[k] != q[l]);
    }
    int best = 0;
    for (int k = 1; k <= N; k++)
        if (vc::split(q[k] < q[best]))
            best = k;
    ArrayXXd o;
    std::vector<ArrayXXd> others(u.begin() + 1, u.end());
    FMEMM_Multiway_Polynomial2D(u[0], others, N, o, n);
    for (int i = 0; i < rows; i++)
        vc::eq(o(i, 0), u[best](i, 0), "smallest-tensor-wins", i);
}
CONTRACT(memm_multi_axes1_r2) { memmMultiAxes(1, 2); }
CONTRACT(memm_multi_axes1_r3) { memmMultiAxes(1, 3); }
CONTRACT(memm_multi_axes1_r4) { memmMultiAxes(1, 4); }
CONTRACT(memm_multi_axes2_r2) { memmMultiAxes(2, 2); }
CONTRACT(memm_multi_axes2_r3) { memmMultiAxes(2, 3); }
CONTRACT(memm_multi_axes2_r4) { memmMultiAxes(2, 4); }
CONTRACT(memm_multi2_r2) { memmMulti(2, 2); }
CONTRACT(memm_multi2_r3) { memmMulti(2, 3); }
CONTRACT(multiway_4) { multiway(4); }
CONTRACT(multipoly3_r4) { multiPoly(3, 4, false); }
CONTRACT(multiorth2_r5) { multiPoly(2, 5, true); }
