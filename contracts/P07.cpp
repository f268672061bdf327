// P07: row containers of matrices, matrix batches and adjacency lists are faithful views of the raw rows.
#include "vmpi_dnds.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
using namespace DNDS;
using DIdx = DNDS::index;

FMT_BEGIN_NAMESPACE
std::string vformat(string_view, format_args) { return {}; }
FMT_END_NAMESPACE

static int counter;
static double fresh() { return vc::real("v", -1e3, 1e3, counter++); }
static constexpr int NM = 3, MX = 3;
struct Mats
{
    int n = 0, r[NM] = {}, c[NM] = {};
    double v[NM][MX][MX] = {};
};
template <class A>
static void put(A &a, Mats &m)
{
    for (int i = 0; i < m.n; i++)
    {
        auto M = a[i];
        vc::check(M.rows() == m.r[i] && M.cols() == m.c[i], "shape_as_sized", i);
        for (int p = 0; p < m.r[i]; p++)
            for (int q = 0; q < m.c[i]; q++)
                M(p, q) = m.v[i][p][q] = fresh();
    }
}
template <class A>
static void same(A &a, const Mats &m, const char *what)
{
    vc::check(a.Size() == m.n, what);
    const A &ca = a;
    for (int i = 0; i < m.n; i++)
    {
        auto M = a[i];
        auto C = ca[i];
        bool ok = M.rows() == m.r[i] && M.cols() == m.c[i] && C.rows() == m.r[i] && C.cols() == m.c[i];
        vc::check(ok, what, i);
        vc::check(a.MatRowSize(i) == m.r[i] && a.MatColSize(i) == m.c[i], "reported_matrix_sizes", i);
        if (ok)
            for (int p = 0; p < m.r[i]; p++)
                for (int q = 0; q < m.c[i]; q++)
                {
                    vc::eq(M(p, q), m.v[i][p][q], what, i, p, q);
                    vc::eq(C(p, q), m.v[i][p][q], what, i, p, q);
                }
    }
}
// uniform matrices
template <rowsize ni, rowsize nj, rowsize mi = ni, rowsize mj = nj>
static void uniform()
{
    counter = 0;
    ArrayEigenMatrix<ni, nj, mi, mj> a;
    Mats m;
    for (int round = 0; round < 2; round++)
    {
        m.n = (int)vc::choice("n", 0, NM, round);
        int r = ni >= 0 ? (int)ni : (int)vc::choice("r", 1, 3, round), c = nj >= 0 ? (int)nj : (int)vc::choice("c", 1, 3, round);
        a.Resize(m.n, r, c);
        for (int i = 0; i < m.n; i++)
            m.r[i] = r, m.c[i] = c;
        put(a, m);
        same(a, m, "holds_what_was_written");
    }
    ArrayEigenMatrix<ni, nj, mi, mj> b(a);
    Mats mb = m;
    same(b, mb, "copy_equal");
    put(b, mb);
    same(b, mb, "copy_after_change");
    same(a, m, "original_unaffected_by_copy");
}
CONTRACT(matrices_2x3) { uniform<2, 3>(); }
CONTRACT(matrices_dyn_dyn) { uniform<DynamicSize, DynamicSize>(); }
CONTRACT(matrices_dyn_2) { uniform<DynamicSize, 2>(); }
CONTRACT(matrices_2_dyn) { uniform<2, DynamicSize>(); }
CONTRACT(matrices_wrong_shape_rejected)
{
    ArrayEigenMatrix<2, 3> a;
    int r = (int)vc::integer("r", -1, 5), c = (int)vc::integer("c", -1, 5);
    bool ab = vc::aborts([&]() { a.Resize(1, r, c); });
    vc::check(ab == !(r == 2 && c == 3), "fixed_shape_enforced");
    ArrayEigenMatrix<DynamicSize, 2> b;
    bool abb = vc::aborts([&]() { b.Resize(1, 1 + (r > 3), c); });
    vc::check(abb == (c != 2), "fixed_columns_enforced");
    ArrayEigenMatrix<DynamicSize, DynamicSize> d;
    d.Resize(2, 2, 2);
    vc::check(vc::aborts([&]() { d.ResizeMat(0, 1, 1); }), "uniform_matrices_cannot_be_resized_alone");
}
// each matrix has its own shape
template <class A>
static void nonuniform(A &a, Mats &m, bool maxed)
{
    a.Resize(m.n, 3, 3);
    for (int i = 0; i < m.n; i++)
    {
        a.ResizeMat(i, m.r[i], m.c[i]);
    }
    put(a, m);
    same(a, m, "holds_what_was_written");
}
template <class A>
static void nonuni(bool maxed)
{
    counter = 0;
    A a;
    Mats m;
    m.n = (int)vc::choice("n", 1, NM);
    int pat = (int)vc::choice("pat", 0, 2);
    static const int R[3][3] = {{1, 3, 2}, {2, 2, 3}, {3, 1, 1}}, C[3][3] = {{2, 3, 1}, {1, 3, 2}, {3, 3, 1}};
    for (int i = 0; i < m.n; i++)
        m.r[i] = R[pat][i], m.c[i] = C[pat][i];
    nonuniform(a, m, maxed);
    if constexpr (A::t_base::_dataLayout == CSR)
    {
        a.Compress();
        same(a, m, "compressed");
        if (vc::choice("again", 0, 1))
            a.Decompress();
        same(a, m, "decompressed");
    }
    A b(a);
    Mats mb = m;
    b.Decompress();
    int k = (int)vc::choice("k", 0, m.n - 1);
    mb.r[k] = m.r[k] == 1 ? 2 : 1;
    mb.c[k] = 1;
    b.ResizeMat(k, mb.r[k], mb.c[k]);
    put(b, mb);
    same(b, mb, "copy_reshaped");
    same(a, m, "original_unaffected_by_reshaping_copy");
    a.Decompress();
    m.r[0] = 1, m.c[0] = 3;
    a.ResizeMat(0, 1, 3);
    put(a, m);
    same(a, m, "original_reshaped");
    same(b, mb, "copy_unaffected_by_reshaping_original");
}
CONTRACT(matrices_nonuniform) { nonuni<ArrayEigenMatrix<NonUniformSize, NonUniformSize>>(false); }
CONTRACT(matrices_nonuniform_max) { nonuni<ArrayEigenMatrix<NonUniformSize, NonUniformSize, 3, 3>>(true); }

// vectors
CONTRACT(vectors)
{
    counter = 0;
    ArrayEigenVector<NonUniformSize> a;
    ArrayEigenVector<DynamicSize> d;
    ArrayEigenVector<2> f;
    int n = (int)vc::choice("n", 1, 3), w = (int)vc::choice("w", 1, 3);
    a.Resize(n);
    d.Resize(n, w);
    f.Resize(n);
    double va[3][3], vd[3][3], vf[3][2];
    for (int i = 0; i < n; i++)
    {
        a.ResizeRow(i, 1 + (i + w) % 3);
        auto A = a[i];
        auto D = d[i];
        auto F = f[i];
        vc::check(A.size() == 1 + (i + w) % 3 && D.size() == w && F.size() == 2, "vector_length_is_row_length", i);
        for (int j = 0; j < A.size(); j++)
            A(j) = va[i][j] = fresh();
        for (int j = 0; j < w; j++)
            D(j) = vd[i][j] = fresh();
        for (int j = 0; j < 2; j++)
            F(j) = vf[i][j] = fresh();
    }
    a.Compress();
    for (int i = 0; i < n; i++)
    {
        for (int j = 0; j < 1 + (i + w) % 3; j++)
            vc::eq(a(i, j), va[i][j], "row_entry", i, j), vc::eq(a[i](j), va[i][j], "vector_entry", i, j);
        for (int j = 0; j < w; j++)
            vc::eq(d(i, j), vd[i][j], "row_entry", i, j), vc::eq(d[i](j), vd[i][j], "vector_entry", i, j);
        for (int j = 0; j < 2; j++)
            vc::eq(f(i, j), vf[i][j], "row_entry", i, j), vc::eq(f[i](j), vf[i][j], "vector_entry", i, j);
    }
}
// adjacency lists
CONTRACT(adjacency)
{
    ArrayAdjacency<NonUniformSize> a;
    int n = (int)vc::choice("n", 1, 3), pat = (int)vc::choice("pat", 0, 2);
    static const int P[3][3] = {{1, 3, 2}, {0, 2, 2}, {2, 0, 1}};
    a.Resize(n);
    DIdx v[3][3];
    int cnt = 0;
    for (int i = 0; i < n; i++)
    {
        a.ResizeRow(i, P[pat][i]);
        std::vector<DIdx> w;
        for (int j = 0; j < P[pat][i]; j++)
            w.push_back(v[i][j] = vc::integer("a", -1000000000000ll, 1000000000000ll, cnt++));
        a[i] = w;
    }
    if (vc::choice("compress", 0, 1))
        a.Compress();
    for (int i = 0; i < n; i++)
    {
        std::vector<DIdx> w = a[i];
        const auto &ca = a;
        const AdjacencyRow row = ca[i];
        vc::check(a[i].size() == P[pat][i] && (int)w.size() == P[pat][i] && a[i].end() - a[i].begin() == P[pat][i], "row_length", i);
        for (int j = 0; j < P[pat][i]; j++)
        {
            vc::ieq(w[j], v[i][j], "as_vector", i, j);
            vc::ieq(a[i][j], v[i][j], "row_entry", i, j);
            vc::ieq(row[j], v[i][j], "const_row_entry", i, j);
            vc::ieq(a[i].begin()[j], v[i][j], "iterated", i, j);
        }
    }
    if (n > 1)
    {
        bool ab = vc::aborts([&]() { a[0] = a[1]; });
        vc::check(ab == (P[pat][0] != P[pat][1]), "assignment_needs_equal_length");
        if (!ab)
            for (int j = 0; j < P[pat][0]; j++)
                vc::ieq(a[0][j], v[1][j], "assigned", j);
    }
    DIdx q = vc::integer("q", -3, 6);
    rowsize z = (rowsize)vc::integer("z", -3, 6);
    bool in = false;
    for (int i = 0; i < n; i++)
        in = in || (q == i && z >= 0 && z < P[pat][i]);
    DIdx x = 0;
    vc::check(vc::aborts([&]() { x = a[q][z]; }) == !in, "outside_rejected");
}
CONTRACT(index_array)
{
    ArrayIndex a;
    int n = (int)vc::choice("n", 0, 3);
    a.Resize(n);
    DIdx v[3];
    for (int i = 0; i < n; i++)
        a[i] = v[i] = vc::integer("a", -1000000000000ll, 1000000000000ll, i);
    for (int i = 0; i < n; i++)
        vc::ieq(a[i], v[i], "entry", i), vc::ieq(*a.rowPtr(i), v[i], "pointer", i);
    DIdx q = vc::integer("q", -3, 6), x = 0;
    vc::check(vc::aborts([&]() { x = a[q]; }) == !(q >= 0 && q < n), "outside_rejected");
}
// batches of equally shaped matrices
template <int r_, int c_>
static void uniBatch()
{
    counter = 0;
    ArrayEigenUniMatrixBatch<r_, c_> a;
    int n = (int)vc::choice("n", 1, 3), pat = (int)vc::choice("pat", 0, 2);
    int r = r_ >= 0 ? r_ : (int)vc::choice("r", 1, 2), c = c_ >= 0 ? c_ : (int)vc::choice("c", 1, 2);
    static const int P[3][3] = {{1, 2, 0}, {2, 0, 1}, {0, 1, 2}};
    a.Resize(n, r_ >= 0 ? -1 : r, c_ >= 0 ? -1 : c);
    vc::check(a.Rows() == r && a.Cols() == c && a.MSize() == r * c, "shape");
    double v[3][2][3][3];
    for (int i = 0; i < n; i++)
    {
        a.ResizeBatch(i, P[pat][i]);
        for (int b = 0; b < P[pat][i]; b++)
            for (int p = 0; p < r; p++)
                for (int q = 0; q < c; q++)
                    a(i, b)(p, q) = v[i][b][p][q] = fresh();
    }
    int st = (int)vc::choice("state", 0, 2);
    if (st)
        a.Compress();
    if (st > 1)
        a.Decompress();
    ArrayEigenUniMatrixBatch<r_, c_> d(a);
    for (int i = 0; i < n; i++)
    {
        auto row = a[i];
        vc::check(a.BatchSize(i) == P[pat][i] && a.RowSize(i) == P[pat][i] && (int)row.size() == P[pat][i], "batch_size", i);
        for (int b = 0; b < P[pat][i]; b++)
        {
            auto M = a(i, b);
            vc::check(M.rows() == r && M.cols() == c && row[b].rows() == r && row[b].cols() == c, "matrix_shape", i, b);
            for (int p = 0; p < r; p++)
                for (int q = 0; q < c; q++)
                {
                    vc::eq(M(p, q), v[i][b][p][q], "entry", i, b);
                    vc::eq(row[b](p, q), v[i][b][p][q], "entry_of_row", i, b);
                    vc::eq(d(i, b)(p, q), v[i][b][p][q], "entry_of_copy", i, b);
                }
        }
        rowsize z = (rowsize)vc::integer("z", -2, 4, i);
        vc::check(vc::aborts([&]() { auto M = a(i, z); (void)M; }) == !(z >= 0 && z < P[pat][i]), "outside_rejected", i);
    }
}
CONTRACT(uniform_batch_2x3) { uniBatch<2, 3>(); }
CONTRACT(uniform_batch_dyn_dyn) { uniBatch<Eigen::Dynamic, Eigen::Dynamic>(); }
CONTRACT(uniform_batch_dyn_1) { uniBatch<Eigen::Dynamic, 1>(); }
// batches of arbitrary matrices packed in one row
CONTRACT(matrix_batch)
{
    counter = 0;
    ArrayEigenMatrixBatch a;
    int pat = (int)vc::choice("pat", 0, 3), rows = (int)vc::choice("rows", 1, 2);
    static const int N[4] = {0, 1, 2, 3}, R[4][3] = {{}, {2}, {1, 3}, {2, 1, 3}}, C[4][3] = {{}, {3}, {3, 2}, {2, 1, 1}};
    a.Resize(rows);
    std::vector<MatrixXR> in[2];
    for (int i = 0; i < rows; i++)
    {
        int k = (pat + i) % 4;
        for (int b = 0; b < N[k]; b++)
        {
            MatrixXR M(R[k][b], C[k][b]);
            for (int p = 0; p < R[k][b]; p++)
                for (int q = 0; q < C[k][b]; q++)
                    M(p, q) = fresh();
            in[i].push_back(M);
        }
        a.InitializeWriteRow(i, in[i]);
    }
    if (vc::choice("compress", 0, 1))
        a.Compress();
    for (int i = 0; i < rows; i++)
    {
        int k = (pat + i) % 4;
        vc::check((int)a[i].Size() == N[k], "batch_size", i);
        for (int b = 0; b < N[k]; b++)
        {
            auto M = a(i, b);
            vc::check(M.rows() == R[k][b] && M.cols() == C[k][b], "matrix_shape", i, b);
            if (M.rows() == R[k][b] && M.cols() == C[k][b])
                for (int p = 0; p < R[k][b]; p++)
                    for (int q = 0; q < C[k][b]; q++)
                        vc::eq(M(p, q), in[i][b](p, q), "entry", i, b);
        }
        rowsize z = (rowsize)vc::choice("z", -1, 4, i);
        vc::check(vc::aborts([&]() { auto M = a(i, z); (void)M; }) == !(z >= 0 && z < N[k]), "outside_rejected", i);
    }
}
CONTRACT(packed_header)
{
    MatrixBatch::UInt16QuadIn64 q;
    q.data = (uint64_t)vc::integer("d", LLONG_MIN, LLONG_MAX);
    uint16_t A = q.getA(), B = q.getB(), C = q.getC(), D = q.getD();
    uint16_t v = (uint16_t)vc::integer("v", 0, 65535);
    int k = (int)vc::choice("k", 0, 3);
    k == 0 ? q.setA(v) : k == 1 ? q.setB(v) : k == 2 ? q.setC(v) : q.setD(v);
    vc::check(q.getA() == (k == 0 ? v : A) && q.getB() == (k == 1 ? v : B) && q.getC() == (k == 2 ? v : C) && q.getD() == (k == 3 ? v : D), "set_one_keep_others");
    MatrixBatch::UInt32PairIn64 p;
    p.data = (uint64_t)vc::integer("d", LLONG_MIN, LLONG_MAX, 1);
    uint32_t M = p.getM(), N = p.getN(), w = (uint32_t)vc::integer("w", 0, 4294967295ll);
    k % 2 ? p.setM(w) : p.setN(w);
    vc::check(p.getM() == (k % 2 ? w : M) && p.getN() == (k % 2 ? N : w), "set_one_keep_other");
}
