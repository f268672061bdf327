// P22: distributed solution vectors (mean values, reconstruction coefficients, gradients) form a vector space with global reductions;
// block-diagonal Jacobians invert.
#include "vmpi_dnds.hpp"
#include "Euler/Euler.hpp"
#include "Euler/EulerJacobian.hpp"
using namespace DNDS;
using namespace DNDS::Euler;
using DIdx = DNDS::index;
FMT_BEGIN_NAMESPACE
std::string vformat(string_view, format_args) { return {}; }
FMT_END_NAMESPACE

static constexpr int NP = 2, MR = 3, MC = 4; // ranks, rows (father then son), entries per row
struct Data                                  // the values one vector holds on every rank
{
    double v[NP][MR][MC];
    Data(const char *nm, double lo = -100, double hi = 100)
    {
        for (int r = 0; r < NP; r++)
            for (int i = 0; i < MR; i++)
                for (int k = 0; k < MC; k++)
                    v[r][i][k] = vc::real(nm, lo, hi, (r * MR + i) * MC + k);
    }
};
struct Shape
{
    int np, nf[NP], ns[NP], R, C; // rows are R x C matrices
    int n(int r) const { return nf[r] + ns[r]; }
};
static Shape shape(int R, int C)
{
    Shape s;
    s.np = (int)vc::choice("np", 1, 2);
    int p = (int)vc::choice("pat", 0, 2);
    s.nf[0] = p == 0 ? 2 : 1, s.ns[0] = p == 1 ? 2 : p == 2 ? 0 : 1;
    s.nf[1] = p == 0 ? 1 : p == 1 ? 0 : 2, s.ns[1] = p == 1 ? 1 : 0;
    s.R = R, s.C = C;
    return s;
}
template <class A>
static void build(A &u, const Shape &s, const MPIInfo &mpi, const Data *d = nullptr)
{
    DNDS_MAKE_SSP(u.father, mpi);
    DNDS_MAKE_SSP(u.son, mpi);
    u.father->Resize(s.nf[mpi.rank], s.R, s.C);
    u.son->Resize(s.ns[mpi.rank], s.R, s.C);
    if (d)
        for (int i = 0; i < s.n(mpi.rank); i++)
            for (int p = 0; p < s.R; p++)
                for (int q = 0; q < s.C; q++)
                    u[i](p, q) = d->v[mpi.rank][i][p * s.C + q];
}
// entry (p, q) of row i is f(i, p, q)
template <class A, class F>
static void is(A &u, const Shape &s, int rank, F &&f, const char *what, bool fatherOnly = false)
{
    vc::check(u.Size() == s.n(rank), "size_kept");
    for (int i = 0; i < (fatherOnly ? s.nf[rank] : s.n(rank)); i++)
        for (int p = 0; p < s.R; p++)
            for (int q = 0; q < s.C; q++)
                vc::eq(u[i](p, q), f(i, p, q), what, i, p, q);
}
template <class F>
static void onRanks(const Shape &s, F &&f)
{
    vmpi::run(s.np, [&](int r)
              {
        MPIInfo mpi;
        mpi.setWorld();
        f(r, mpi); });
}
#define A_(i, p, q) a.v[r][i][(p) * s.C + (q)]
#define B_(i, p, q) b.v[r][i][(p) * s.C + (q)]

// operations common to all three kinds
template <class V>
static void common(const Shape &s)
{
    Data a("a"), b("b");
    double c = vc::real("c", -100, 100);
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        V u, w;
        build(w, s, mpi, &b);
        build(u, s, mpi, &a);
        u += w;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) + B_(i, p, q); }, "add");
        u -= w;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q); }, "subtract_undoes_add");
        u -= w;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) - B_(i, p, q); }, "subtract");
        build(u, s, mpi, &a);
        u *= c;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) * c; }, "scale");
        u = w;
        is(u, s, r, [&](int i, int p, int q) { return B_(i, p, q); }, "assign");
        u *= c;
        is(w, s, r, [&](int i, int p, int q) { return B_(i, p, q); }, "assigned_vectors_are_independent");
        u.setConstant(c);
        is(u, s, r, [&](int i, int p, int q) { return c; }, "set_constant");
        Eigen::MatrixXd M(s.R, s.C);
        for (int p = 0; p < s.R; p++)
            for (int q = 0; q < s.C; q++)
                M(p, q) = a.v[0][0][p * s.C + q];
        u.setConstant(M);
        is(u, s, r, [&](int i, int p, int q) { return a.v[0][0][p * s.C + q]; }, "set_each_row");
        build(u, s, mpi, &a);
        std::vector<real> m;
        for (int i = 0; i < s.nf[r]; i++)
            m.push_back(b.v[0][i][0]);
        u *= m;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) * b.v[0][i][0]; }, "scale_own_rows", true);
        if (s.nf[r])
        {
            m.pop_back();
            vc::check(vc::aborts([&]() { u *= m; }), "too_few_factors_rejected");
        } });
}
// row-wise factor from a scalar vector
template <class V>
static void byScalar(const Shape &s)
{
    Data a("a"), b("b");
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        V u;
        build(u, s, mpi, &a);
        ArrayDOFV<1> f;
        Shape s1 = s;
        s1.R = s1.C = 1;
        build(f, s1, mpi, &b);
        u *= f;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) * b.v[r][i][0]; }, "scale_row_by_scalar_vector"); });
}
template <class V>
static void addTo(const Shape &s)
{
    Data a("a"), b("b");
    double c = vc::real("c", -100, 100);
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        V u, w;
        build(u, s, mpi, &a);
        build(w, s, mpi, &b);
        u.addTo(w, c);
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) + c * B_(i, p, q); }, "add_multiple");
        is(w, s, r, [&](int i, int p, int q) { return B_(i, p, q); }, "argument_untouched"); });
}
template <class V>
static void columns(const Shape &s, bool adds)
{
    Data a("a"), b("b"), c("c");
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        V u, w;
        build(u, s, mpi, &a);
        build(w, s, mpi, &b);
        Eigen::Array<real, 1, 2> f;
        f << c.v[0][0][0], c.v[0][0][1];
        u *= f;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) * c.v[0][0][q]; }, "scale_columns"); });
}
// reductions: own rows only, over all ranks, the same result everywhere
static double sumOf(const Shape &s, const Data &a, const Data &b)
{
    double t = 0;
    for (int r = 0; r < s.np; r++)
        for (int i = 0; i < s.nf[r]; i++)
            for (int k = 0; k < s.R * s.C; k++)
                t += a.v[r][i][k] * b.v[r][i][k];
    return t;
}
template <class V>
static void reductions(const Shape &s)
{
    Data a("a"), b("b");
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        V u, w;
        build(u, s, mpi, &a);
        build(w, s, mpi, &b);
        double n = u.norm2();
        vc::check(n >= 0, "norm_nonnegative");
        vc::eq(n * n, sumOf(s, a, a), "norm_counts_every_row_once");
        vc::eq(u.dot(w), sumOf(s, a, b), "dot_counts_every_row_once");
        vc::eq(u.dot(u), sumOf(s, a, a), "dot_with_self"); });
}
CONTRACT(mean_common) { common<ArrayDOFV<2>>(shape(2, 1)); }
CONTRACT(mean_common_dynamic) { common<ArrayDOFV<Eigen::Dynamic>>(shape(2, 1)); }
CONTRACT(mean_by_scalar) { byScalar<ArrayDOFV<2>>(shape(2, 1)); }
CONTRACT(mean_add_multiple) { addTo<ArrayDOFV<Eigen::Dynamic>>(shape(2, 1)); }
CONTRACT(mean_reductions) { reductions<ArrayDOFV<2>>(shape(2, 1)); }
CONTRACT(mean_reductions_dynamic) { reductions<ArrayDOFV<Eigen::Dynamic>>(shape(3, 1)); }
CONTRACT(coefficients_common) { common<ArrayRECV<2>>(shape(2, 2)); }
CONTRACT(coefficients_common_dynamic) { common<ArrayRECV<Eigen::Dynamic>>(shape(1, 2)); }
CONTRACT(coefficients_by_scalar) { byScalar<ArrayRECV<2>>(shape(2, 2)); }
CONTRACT(coefficients_add_multiple) { addTo<ArrayRECV<2>>(shape(2, 2)); }
CONTRACT(coefficients_columns) { columns<ArrayRECV<2>>(shape(2, 2), true); }
CONTRACT(coefficients_reductions) { reductions<ArrayRECV<2>>(shape(2, 2)); }
CONTRACT(gradients_common) { common<ArrayGRADV<2, 2>>(shape(2, 2)); }
CONTRACT(gradients_by_scalar) { byScalar<ArrayGRADV<2, 2>>(shape(2, 2)); }
CONTRACT(gradients_columns) { columns<ArrayGRADV<2, 2>>(shape(2, 2), false); }
CONTRACT(coefficients_add_by_column)
{
    Shape s = shape(2, 2);
    Data a("a"), b("b"), c("c");
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        ArrayRECV<2> u, w;
        build(u, s, mpi, &a);
        build(w, s, mpi, &b);
        Eigen::Array<real, 1, 2> f;
        f << c.v[0][0][0], c.v[0][0][1];
        u.addTo(w, f);
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) + c.v[0][0][q] * B_(i, p, q); }, "add_multiple_per_column");
        auto d = u.dotV(w);
        build(u, s, mpi, &a);
        d = u.dotV(w);
        vc::check(d.size() == 2, "one_dot_per_column");
        for (int q = 0; q < 2; q++)
        {
            double t = 0;
            for (int k = 0; k < s.np; k++)
                for (int i = 0; i < s.nf[k]; i++)
                    for (int p = 0; p < 2; p++)
                        t += a.v[k][i][p * 2 + q] * b.v[k][i][p * 2 + q];
            vc::eq(d(q), t, "column_dot", q);
        } });
}
template <class V>
static void meanElementwise()
{
    Shape s = shape(2, 1);
    Data a("a"), b("b", 0.5, 50), c("c");
    double k = vc::real("k", -10, 10);
    for (int r = 0; r < NP; r++)
        for (int i = 0; i < MR; i++)
            for (int p = 0; p < 2; p++)
                vc::assume(b.v[r][i][p] > 0);
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        V u, w;
        build(u, s, mpi, &a);
        build(w, s, mpi, &b);
        u *= w;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) * B_(i, p, q); }, "multiply");
        u /= w;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q); }, "divide_undoes_multiply");
        u /= w;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) / B_(i, p, q); }, "divide");
        build(u, s, mpi, &a);
        typename V::t_self *self = &u;
        using TV = std::decay_t<decltype(u.min())>;
        TV f(2);
        f << c.v[0][0][0], c.v[0][0][1];
        u += f;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) + c.v[0][0][p]; }, "add_vector_to_every_row");
        u *= f;
        is(u, s, r, [&](int i, int p, int q) { return (A_(i, p, q) + c.v[0][0][p]) * c.v[0][0][p]; }, "scale_components");
        build(u, s, mpi, &a);
        u += k;
        is(u, s, r, [&](int i, int p, int q) { return A_(i, p, q) + k; }, "shift"); });
}
CONTRACT(mean_elementwise) { meanElementwise<ArrayDOFV<2>>(); }
CONTRACT(mean_elementwise_dynamic) { meanElementwise<ArrayDOFV<Eigen::Dynamic>>(); }
CONTRACT(mean_abs_min_max)
{
    Shape s = shape(2, 1);
    Data a("a");
    double k = vc::real("k", -10, 10);
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        ArrayDOFV<2> u;
        build(u, s, mpi, &a);
        u.setAbs();
        is(u, s, r, [&](int i, int p, int q) { return std::abs(A_(i, p, q)); }, "absolute_value");
        build(u, s, mpi, &a);
        u.setMaxWith(k);
        is(u, s, r, [&](int i, int p, int q) { return std::max(A_(i, p, q), k); }, "maximum");
        build(u, s, mpi, &a);
        u.setMinWith(k);
        is(u, s, r, [&](int i, int p, int q) { return std::min(A_(i, p, q), k); }, "minimum"); });
}
CONTRACT(mean_weighted_dot)
{
    Shape s = shape(2, 1);
    Data a("a"), b("b"), c("c");
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        ArrayDOFV<2> u, w;
        build(u, s, mpi, &a);
        build(w, s, mpi, &b);
        Eigen::Array<real, 2, 1> l, m;
        l << c.v[0][0][0], c.v[0][0][1];
        m << c.v[0][1][0], c.v[0][1][1];
        double t = 0;
        for (int k = 0; k < s.np; k++)
            for (int i = 0; i < s.nf[k]; i++)
                for (int p = 0; p < 2; p++)
                    t += a.v[k][i][p] * l(p) * b.v[k][i][p] * m(p);
        vc::eq(u.dot(w, l, m), t, "weighted_dot"); });
}
CONTRACT(mean_componentwise_reductions)
{
    Shape s = shape(2, 1);
    Data a("a");
    for (int k = 0; k < s.np; k++)
        for (int i = 0; i < s.nf[k]; i++)
            for (int p = 0; p < 2; p++)
                vc::assume(a.v[k][i][p] <= 1e100); // below the stated "very large" start value
    onRanks(s, [&](int r, const MPIInfo &mpi)
            {
        ArrayDOFV<2> u;
        build(u, s, mpi, &a);
        auto n1 = u.componentWiseNorm1();
        auto mn = u.min();
        for (int p = 0; p < 2; p++)
        {
            double t = 0;
            bool lower = true, attained = false;
            for (int k = 0; k < s.np; k++)
                for (int i = 0; i < s.nf[k]; i++)
                    t += std::abs(a.v[k][i][p]), lower = lower & (mn(p) <= a.v[k][i][p]), attained = attained | (mn(p) == a.v[k][i][p]);
            vc::eq(n1(p), t, "componentwise_norm", p);
            vc::check(lower & attained, "componentwise_minimum", p);
        } });
}
CONTRACT(assignment_of_other_shape_rejected)
{
    MPIInfo mpi;
    Shape s = shape(2, 1), t = s;
    t.nf[0]++;
    vmpi::run(1, [&](int)
              {
        MPIInfo mpi;
        mpi.setWorld();
        ArrayDOFV<2> u, w;
        build(u, s, mpi);
        build(w, t, mpi);
        vc::check(vc::aborts([&]() { u = w; }) && vc::aborts([&]() { u.addTo(w, 1.0); }), "size_mismatch_rejected");
        t = s, t.ns[0]++;
        build(w, t, mpi);
        vc::check(vc::aborts([&]() { u = w; }) && vc::aborts([&]() { u.addTo(w, 1.0); }), "ghost_size_mismatch_rejected"); });
}
// block-diagonal Jacobian: the inverse inverts what is stored now, over histories of refilling and switching mode
template <class J, class V, class T>
static void jacFill(J &jac, int mode, int n, const Data &a)
{
    for (int i = 0; i < n; i++)
        if (mode)
        {
            jac.getBlock(i)(0, 0) = a.v[0][i][0], jac.getBlock(i)(0, 1) = a.v[0][i][1];
            jac.getBlock(i)(1, 0) = a.v[0][i][2], jac.getBlock(i)(1, 1) = a.v[0][i][3];
        }
        else
            jac.getDiag(i)(0) = a.v[0][i][0], jac.getDiag(i)(1) = a.v[0][i][3];
}
template <int N>
static void jacobian(int first)
{
    Data a("a", 0.5, 5), b("b", 0.5, 5), v("v");
    // diagonally dominant blocks
    for (int i = 0; i < 1; i++)
    {
        a.v[0][i][0] = 2, a.v[0][i][1] = 0.125, a.v[0][i][2] = -0.25, a.v[0][i][3] = 4; // the old contents
        b.v[0][i][1] = vc::real("q", -0.25, 0.25, i), b.v[0][i][2] = vc::real("r", -0.25, 0.25, i);
        Data *d = &b;
        {
            vc::assume(d->v[0][i][0] >= 0.5), vc::assume(d->v[0][i][3] >= 0.5);
            vc::assume(d->v[0][i][0] <= 5), vc::assume(d->v[0][i][3] <= 5);
            for (int k = 1; k < 3; k++)
                vc::assume(d->v[0][i][k] >= -0.25), vc::assume(d->v[0][i][k] <= 0.25);
        }
    }
    int how = (int)vc::choice("how", 1, 2), second = how == 2 ? (int)vc::choice("second", 0, 1) : first;
    vmpi::run(1, [&](int)
              {
        MPIInfo mpi;
        mpi.setWorld();
        ArrayDOFV<N> mock;
        Shape s{1, {1}, {1}, 2, 1};
        build(mock, s, mpi);
        JacobianDiagBlock<N> jac;
        auto verify = [&](const Data &d, int mode, const char *what)
        {
            Eigen::Vector<real, N> x(2);
            x << v.v[0][0][0], v.v[0][0][1];
            auto y = jac.MatVecLeft(0, x);
            double o1 = mode ? d.v[0][0][1] : 0, o2 = mode ? d.v[0][0][2] : 0;
            vc::eq(y(0), d.v[0][0][0] * x(0) + o1 * x(1), "product", 0);
            vc::eq(y(1), o2 * x(0) + d.v[0][0][3] * x(1), "product", 1);
            auto z = jac.MatVecLeftInvert(0, y);
            vc::eq(z(0), x(0), what, 0);
            vc::eq(z(1), x(1), what, 1);
            auto M = jac.getValue(0);
            vc::eq(M(0, 0), d.v[0][0][0], "value", 0, 0), vc::eq(M(0, 1), o1, "value", 0, 1), vc::eq(M(1, 0), o2, "value", 1, 0), vc::eq(M(1, 1), d.v[0][0][3], "value", 1, 1);
        };
        jac.SetModeAndInit(first, 2, mock);
        vc::check(jac.isBlock() == bool(first) && jac.Size() == 1, "mode_and_size");
        jac.clearValues();
        jacFill<JacobianDiagBlock<N>, void, void>(jac, first, 1, a);
        jac.GetInvert();
        verify(a, first, "inverse");
        jac.GetInvert();
        verify(a, first, "inverse_again");
        if (how == 1)
            jac.clearValues();
        else
            jac.SetModeAndInit(second, 2, mock);
        jacFill<JacobianDiagBlock<N>, void, void>(jac, second, 1, b);
        jac.GetInvert();
        verify(b, second, "inverse_after_refill"); });
}
CONTRACT(jacobian_diagonal) { jacobian<2>(0); }
CONTRACT(jacobian_block) { jacobian<2>(1); }
// the concrete LU / LDL^T Jacobians (block storage, block inversion) on top of the sparse direct solver
template <int N, bool SYM, class J>
static void localFactor(int n, int nv, int mask)
{
    int h = mask; // edges of the pattern on 3 rows: 01, 02, 12
    auto edge = [&](int i, int j)
    { int b = i + j - 1; return i != j && ((h >> b) & 1); };
    vmpi::run(1, [&](int)
              {
        MPIInfo mpi;
        mpi.setWorld();
        MPIInfo quiet = mpi; // log lines are only printed by rank 0
        quiet.comm = MPI_COMM_NULL, quiet.rank = 1, quiet.size = 0;
        auto st = std::make_shared<Direct::SerialSymLUStructure>(quiet, n);
        std::vector<std::vector<DIdx>> g(n);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                if (edge(i, j))
                    g[i].push_back(j);
        st->ObtainSymmetricSymbolicFactorization(g, -1);
        static double a[3][3][2][2], x[3][2];
        for (int i = 0; i < n; i++)
            for (int p = 0; p < nv; p++)
            {
                x[i][p] = vc::real("x", -10, 10, i, p);
                for (int j = 0; j < n; j++)
                    for (int q = 0; q < nv; q++)
                    {
                        double lo = i == j && p == q ? 2 : -0.25, hi = i == j && p == q ? 5 : 0.25;
                        if (i == j && p != q)
                            a[i][j][p][q] = p < q ? 0.125 : SYM ? 0.125 : -0.25;
                        else if (i == j || edge(i, j))
                        {
                            double v = a[i][j][p][q] = SYM && i > j ? a[j][i][q][p] : vc::real("a", lo, hi, (i * 2 + p) * 8 + j * 2 + q);
                            vc::assume(v >= lo), vc::assume(v <= hi);
                        }
                        else
                            a[i][j][p][q] = 0;
                    }
            }
        J jac(st, nv);
        for (int round = 0; round < 2; round++)
        {
            jac.setZero();
            for (int i = 0; i < n; i++)
            {
                for (int p = 0; p < nv; p++)
                    for (int q = 0; q < nv; q++)
                    {
                        jac.GetDiag(i)(p, q) = a[i][i][p][q] * (1 + round);
                        for (int k = 0; k < (int)st->lowerTriStructure[i].size(); k++)
                            jac.GetLower(i, k)(p, q) = a[i][st->lowerTriStructure[i][k]][p][q] * (1 + round);
                        if constexpr (!SYM)
                            for (int k = 0; k < (int)st->upperTriStructure[i].size(); k++)
                                jac.GetUpper(i, k)(p, q) = a[i][st->upperTriStructure[i][k]][p][q] * (1 + round);
                    }
            }
            ArrayDOFV<N> u, b, r;
            Shape s{1, {n}, {0}, nv, 1};
            build(u, s, mpi), build(b, s, mpi), build(r, s, mpi);
            b.setConstant(0.0), r.setConstant(0.0);
            for (int i = 0; i < n; i++)
                for (int p = 0; p < nv; p++)
                    u[i](p) = x[i][p];
            jac.MatMul(u, b);
            for (int i = 0; i < n; i++)
                for (int p = 0; p < nv; p++)
                {
                    double t = 0;
                    for (int j = 0; j < n; j++)
                        for (int q = 0; q < nv; q++)
                            t += a[i][j][p][q] * x[j][q] * (1 + round);
                    vc::eq(b[i](p), t, "matrix_product", i, p);
                }
            if (nv > 1)
                continue; // block elimination itself: P20
            jac.InPlaceDecompose();
            jac.Solve(b, r);
            for (int i = 0; i < n; i++)
                for (int p = 0; p < nv; p++)
                    vc::eq(r[i](p), x[i][p], "solution", i, p);
        } });
}
CONTRACT(local_lu) { localFactor<1, false, JacobianLocalLU<1>>(3, 1, (int)vc::choice("pattern", 0, 7)); }
CONTRACT(local_ldlt) { localFactor<1, true, JacobianLocalLDLT<1>>(3, 1, (int)vc::choice("pattern", 0, 7)); }
CONTRACT(local_lu_block) { localFactor<2, false, JacobianLocalLU<2>>(2, 2, 1); }
CONTRACT(local_ldlt_block) { localFactor<2, true, JacobianLocalLDLT<2>>(2, 2, 1); }
template <class J>
static void invertBlock(bool sym)
{
    vmpi::run(1, [&](int)
              {
        MPIInfo mpi;
        mpi.setWorld();
        mpi.comm = MPI_COMM_NULL, mpi.rank = 1, mpi.size = 0;
        auto st = std::make_shared<Direct::SerialSymLUStructure>(mpi, 1);
        st->ObtainSymmetricSymbolicFactorization(std::vector<std::vector<DIdx>>(1), -1);
        J jac(st, 2);
        Eigen::Matrix<real, 2, 2> v;
        v(0, 0) = vc::real("d", 0.5, 5, 0), v(1, 1) = vc::real("d", 0.5, 5, 1), v(0, 1) = vc::real("o", -0.25, 0.25, 0), v(1, 0) = sym ? v(0, 1) : vc::real("o", -0.25, 0.25, 1);
        vc::assume(v(0, 0) >= 0.5), vc::assume(v(1, 1) >= 0.5), vc::assume(v(0, 0) <= 5), vc::assume(v(1, 1) <= 5);
        vc::assume(v(0, 1) >= -0.25), vc::assume(v(0, 1) <= 0.25), vc::assume(v(1, 0) >= -0.25), vc::assume(v(1, 0) <= 0.25);
        Eigen::Matrix<real, 2, 2> w = jac.InvertDiag(v);
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++)
                vc::eq(v(i, 0) * w(0, j) + v(i, 1) * w(1, j), i == j, "block_inverse", i, j); });
}
CONTRACT(local_lu_block_inverse) { invertBlock<JacobianLocalLU<2>>(false); }
CONTRACT(local_ldlt_block_inverse) { invertBlock<JacobianLocalLDLT<2>>(true); }
