// P05: derivative tensors
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include <iostream>
#include "Geom/BaseFunction.hpp"
// clang does not fold the lookup in the (non-constexpr) size table that gcc folds; the callee is replaced by its contract,
// which P04 (tables_2d / tables_3d, obligation size-table) proves of the real function
namespace DNDS::Geom::Base
{
    template <>
    constexpr int ndiffSizS<2>(int i) { return (i + 1) * (i + 2) / 2; }
    template <>
    constexpr int ndiffSizS<3>(int i) { return (i + 1) * (i + 2) * (i + 3) / 6; }
}
#include "Geom/DiffTensors.hpp"
using namespace DNDS;
using namespace DNDS::Geom::Base;
using Eigen::Matrix;
using Eigen::MatrixXd;

// position of the derivative d_i d_j d_k (k, j may be -1) in the compact list, found from the multi-index table
template <int dim>
static int pos(int i, int j, int k)
{
    int w[3] = {0, 0, 0};
    w[i]++;
    if (j >= 0)
        w[j]++;
    if (k >= 0)
        w[k]++;
    int n = dim == 2 ? 10 : 20;
    for (int t = 0; t < n; t++)
    {
        auto &a = dim == 2 ? diffOperatorOrderList2D[t] : diffOperatorOrderList[t];
        if (a[0] == w[0] && a[1] == w[1] && a[2] == w[2])
            return t;
    }
    return -1;
}
static constexpr int nd(int dim, int ord) { return dim == 2 ? (ord + 1) * (ord + 2) / 2 : (ord + 1) * (ord + 2) * (ord + 3) / 6; }

template <int dim, int rank>
static void normT()
{
    const int off = rank ? nd(dim, rank - 1) : 0, n = nd(dim, rank) - off;
    MatrixXd a(n, 1), b(n, 1);
    for (int i = 0; i < n; i++)
        a(i, 0) = vc::real("a", -2, 2, i), b(i, 0) = vc::real("b", -2, 2, i);
    double s = 0, s2 = 0;
    if (rank == 0)
        s = a(0, 0) * b(0, 0), s2 = s;
    // full contraction over all index tuples
    int N = rank == 0 ? 0 : rank == 1 ? dim : rank == 2 ? dim * dim : dim * dim * dim;
    std::vector<double> mult(n, 0.0);
    for (int t = 0; t < N; t++)
    {
        int i = t % dim, j = rank > 1 ? (t / dim) % dim : -1, k = rank > 2 ? t / dim / dim : -1;
        int p = pos<dim>(i, j, k) - off;
        s += a(p, 0) * b(p, 0);
        mult[p] += 1;
    }
    for (int p = 0; p < n && rank; p++)
        s2 += a(p, 0) * b(p, 0) * mult[p] * mult[p];
    if constexpr (dim == 2)
    {
        Eigen::VectorXd A = a.col(0), B = b.col(0);
        vc::eq(NormSymDiffOrderTensorV<dim, rank>(A, B), s, "full-contraction");
        vc::eq(NormSymDiffOrderTensorV<dim, rank, 2>(A, B), s2, "contraction-squared-weights");
    }
    else
    {
        vc::eq(NormSymDiffOrderTensorV<dim, rank>(a, b), s, "full-contraction");
        vc::eq(NormSymDiffOrderTensorV<dim, rank, 2>(a, b), s2, "contraction-squared-weights");
    }
}
CONTRACT(norm_2d_0) { normT<2, 0>(); }
CONTRACT(norm_2d_1) { normT<2, 1>(); }
CONTRACT(norm_2d_2) { normT<2, 2>(); }
CONTRACT(norm_2d_3) { normT<2, 3>(); }
CONTRACT(norm_3d_0) { normT<3, 0>(); }
CONTRACT(norm_3d_1) { normT<3, 1>(); }
CONTRACT(norm_3d_2) { normT<3, 2>(); }
CONTRACT(norm_3d_3) { normT<3, 3>(); }

static Matrix<double, 3, 3> mat3(const char *n)
{
    Matrix<double, 3, 3> R;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            R(i, j) = vc::real(n, -2, 2, i, j);
    return R;
}
template <int dim>
static MatrixXd derivs(const char *n, int ord, int cols)
{
    MatrixXd M(nd(dim, ord), cols);
    for (int i = 0; i < M.rows(); i++)
        for (int j = 0; j < cols; j++)
            M(i, j) = vc::real(n, -2, 2, i, j);
    return M;
}
// one symmetric tensor under an arbitrary linear map
template <int dim, int rank>
static void transT()
{
    const int off = nd(dim, rank - 1), n = nd(dim, rank) - off;
    Matrix<double, dim, dim> R = mat3("R").template topLeftCorner<dim, dim>();
    Eigen::Vector<double, n> a, o;
    for (int i = 0; i < n; i++)
        a(i) = vc::real("a", -2, 2, i);
    o = a;
    TransSymDiffOrderTensorV<dim, rank>(o, R);
    for (int t = 0; t < n; t++)
    {
        auto &L = dim == 2 ? diffOperatorDimList2D[off + t] : diffOperatorDimList[off + t];
        double s = 0;
        for (int p = 0; p < dim; p++)
            if (rank == 1)
                s += R(L[0], p) * a(pos<dim>(p, -1, -1) - off);
            else
                for (int q = 0; q < dim; q++)
                    if (rank == 2)
                        s += R(L[0], p) * R(L[1], q) * a(pos<dim>(p, q, -1) - off);
                    else
                        for (int r = 0; r < dim; r++)
                            s += R(L[0], p) * R(L[1], q) * R(L[2], r) * a(pos<dim>(p, q, r) - off);
        vc::eq(o(t), s, "tensor-transformation", t);
    }
}
CONTRACT(trans_2d_1) { transT<2, 1>(); }
CONTRACT(trans_2d_2) { transT<2, 2>(); }
CONTRACT(trans_2d_3) { transT<2, 3>(); }
CONTRACT(trans_3d_1) { transT<3, 1>(); }
CONTRACT(trans_3d_2) { transT<3, 2>(); }
CONTRACT(trans_3d_3) { transT<3, 3>(); }

// chain rule (Faa di Bruno up to third order): g(x) = f(xi(x)), F = derivatives of f, D(i,m) = derivative number i of xi_m
template <int dim>
static double chain(const MatrixXd &F, int col, const MatrixXd &D, int t)
{
    auto &L = dim == 2 ? diffOperatorDimList2D[t] : diffOperatorDimList[t];
    int ord = t < 1 ? 0 : t < nd(dim, 1) ? 1 : t < nd(dim, 2) ? 2 : 3;
    if (ord == 0)
        return F(0, col);
    auto d1 = [&](int i, int m) { return D(pos<dim>(i, -1, -1), m); };
    auto d2 = [&](int i, int j, int m) { return D(pos<dim>(i, j, -1), m); };
    double s = 0;
    int i = L[0], j = L[1], k = L[2];
    for (int m = 0; m < dim; m++)
    {
        s += D(t, m) * F(pos<dim>(m, -1, -1), col);
        if (ord >= 2)
            for (int n = 0; n < dim; n++)
            {
                double f2 = F(pos<dim>(m, n, -1), col);
                if (ord == 2)
                    s += d1(i, m) * d1(j, n) * f2;
                else
                {
                    s += (d2(i, j, m) * d1(k, n) + d2(i, k, m) * d1(j, n) + d2(j, k, m) * d1(i, n)) * f2;
                    for (int p = 0; p < dim; p++)
                        s += d1(i, m) * d1(j, n) * d1(k, p) * F(pos<dim>(m, n, p), col);
                }
            }
    }
    return s;
}
template <int dim>
static void linMap(int ord)
{
    const int C = 2;
    Matrix<double, 3, 3> R = mat3("R");
    MatrixXd F = derivs<dim>("F", ord, C), G = F, D(nd(dim, 3), dim);
    D.setZero();
    for (int i = 0; i < dim; i++)
        for (int m = 0; m < dim; m++)
            D(1 + i, m) = R(i, m);
    ConvertDiffsLinMap<dim>(G, R);
    for (int t = 0; t < F.rows(); t++)
        for (int c = 0; c < C; c++)
            vc::eq(G(t, c), chain<dim>(F, c, D, t), "linear-chain-rule", t, c);
}
CONTRACT(linmap_2d_0) { linMap<2>(0); }
CONTRACT(linmap_2d_1) { linMap<2>(1); }
CONTRACT(linmap_2d_2) { linMap<2>(2); }
CONTRACT(linmap_2d_3) { linMap<2>(3); }
CONTRACT(linmap_3d_0) { linMap<3>(0); }
CONTRACT(linmap_3d_1) { linMap<3>(1); }
CONTRACT(linmap_3d_2) { linMap<3>(2); }
CONTRACT(linmap_3d_3) { linMap<3>(3); }
template <int dim>
static void fullMap(int ord)
{
    const int C = ord == 3 && dim == 3 ? 1 : 2;
    MatrixXd F = derivs<dim>("F", ord, C), G = F, D = derivs<dim>("D", ord, 3);
    ConvertDiffsFullMap<dim>(G, D);
    for (int t = 0; t < F.rows(); t++)
        for (int c = 0; c < C; c++)
            vc::eq(G(t, c), chain<dim>(F, c, D, t), "chain-rule", t, c);
}
CONTRACT(fullmap_2d_0) { fullMap<2>(0); }
CONTRACT(fullmap_2d_1) { fullMap<2>(1); }
CONTRACT(fullmap_2d_2) { fullMap<2>(2); }
CONTRACT(fullmap_2d_3) { fullMap<2>(3); }
CONTRACT(fullmap_3d_0) { fullMap<3>(0); }
CONTRACT(fullmap_3d_1) { fullMap<3>(1); }
CONTRACT(fullmap_3d_2) { fullMap<3>(2); }
CONTRACT(fullmap_3d_3) { fullMap<3>(3); }

// inverse map: x(xi(x)) = x, so all derivatives of the composition are those of the identity.
// The Jacobian is P * (lower triangular unit-dominant) to fix the pivot order; higher derivatives are arbitrary.
template <int dim, int ord>
static void inverse(int perm)
{
    static const int Q[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    MatrixXd X = derivs<dim>("X", ord, 3), D(X.rows(), 3);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            X(1 + i, j) = 0;
    // J(i, perm(i)) diagonal with decreasing magnitude, plus strictly lower part
    double d0 = 8, d1 = 4, d2 = 2;
    double dg[3] = {d0, d1, d2};
    for (int i = 0; i < dim; i++)
    {
        X(1 + i, Q[perm][i]) = dg[i];
        for (int j = 0; j < i; j++)
            X(1 + i, Q[perm][j]) = 1.0 + j - i;
    }
    D.setZero();
    DxDxi2DxiDx<dim, ord>(X, D);
    for (int t = 1; t < X.rows(); t++)
        for (int j = 0; j < dim; j++)
            vc::eq(chain<dim>(X, j, D, t), t <= dim && t - 1 == j ? 1.0 : 0.0, "inverse-map", t, j);
}
CONTRACT(inverse_2d_1) { inverse<2, 1>(0), inverse<2, 1>(2); }
CONTRACT(inverse_2d_2) { inverse<2, 2>(0), inverse<2, 2>(2); }
CONTRACT(inverse_2d_3) { inverse<2, 3>(0), inverse<2, 3>(2); }
CONTRACT(inverse_3d_1) { for (int p = 0; p < 6; p++) inverse<3, 1>(p); }
CONTRACT(inverse_3d_2) { for (int p = 0; p < 6; p++) inverse<3, 2>(p); }
CONTRACT(inverse_3d_3) { inverse<3, 3>(0), inverse<3, 3>(4); }
// arbitrary planar Jacobian
template <int ord>
static void anyJacobian()
{
    const int n = nd(2, ord);
    MatrixXd X = derivs<2>("X", ord, 3), D(n, 3);
    X(1, 2) = X(2, 2) = 0;
    // largest entry first (other pivot orders: inverse_2d_*, inverse_3d_*), away from the rank decision threshold
    double p = vc::positive("p", 2, 4);
    double b = vc::real("b", -1, 1), c = vc::real("c", -1, 1), d = vc::real("d", 0, 1);
    vc::assume(p > 1.5), vc::assume(b < 1), vc::assume(b > -1), vc::assume(c < 1), vc::assume(c > -1), vc::assume(d > 0.75), vc::assume(d < 1.25);
    X(1, 0) = p, X(1, 1) = b, X(2, 0) = c, X(2, 1) = d;
    D.setZero();
    DxDxi2DxiDx<2, ord>(X, D);
    for (int t = 1; t < n; t++)
        for (int j = 0; j < 2; j++)
            vc::eq(chain<2>(X, j, D, t), t <= 2 && t - 1 == j ? 1.0 : 0.0, "inverse-map", t, j);
}
CONTRACT(inverse_2d_2_anyjacobian) { anyJacobian<2>(); }
