// P20: the local sparse direct solver (symbolic factorisation, block LU and LDL^T, triangular solves).
//  The numeric part is specified modularly:
//   * symbolic factorisation: the structure contains the pattern, is symmetric, sorted, consistently indexed and (complete mode)
//     closed under elimination / (incomplete mode) exactly the prescribed stencil;
//   * decomposition: for ARBITRARY factors L0, D0, U0 supported on the structure, decomposing A = (L0 U0) restricted to the structure
//     returns exactly L0, inv(D0), U0 (by uniqueness of triangular factors this is every A with invertible leading blocks);
//   * solve: for ARBITRARY stored factors the returned x satisfies L U x = b.
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include "DNDS/MPI.hpp"
#include "Solver/Direct.hpp"
#include <Eigen/Dense>
using namespace DNDS;

namespace DNDS::MPI
{
    MPI_int Barrier(MPI_Comm comm) { return 0; } // one process: nothing to wait for
}
namespace DNDS
{
    std::ostream &log() { return std::cout; }
}
using DIdx = DNDS::index;
using Adj = std::vector<std::vector<DIdx>>;
using Sym = Direct::SerialSymLUStructure;

static MPIInfo quiet()
{
    MPIInfo m;
    m.comm = MPI_COMM_NULL;
    m.rank = 1; // log lines are only printed by rank 0
    m.size = 0;
    return m;
}

// every symmetric graph on n vertices: bit b of mask = edge number b
static Adj graph(int n, long mask, bool descending = false)
{
    Adj g(n);
    bool e[8][8];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            e[i][j] = false;
    int b = 0;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++, b++)
            if ((mask >> b) & 1)
                e[i][j] = e[j][i] = true;
    for (int i = 0; i < n; i++)
        for (int jj = 0; jj < n; jj++)
        {
            int j = descending ? n - 1 - jj : jj;
            if (e[i][j])
                g[i].push_back(j);
        }
    return g;
}
// every permutation of n (Lehmer code)
static void setPerm(Sym &s, int n, long code)
{
    if (code < 0)
        return; // natural ordering: empty maps
    int left[8];
    for (int i = 0; i < n; i++)
        left[i] = i;
    s.localFillOrderingOld2New.resize(n);
    s.localFillOrderingNew2Old.resize(n);
    for (int i = 0; i < n; i++)
    {
        int r = code % (n - i);
        code /= (n - i);
        int v = left[r];
        for (int k = r; k < n - i - 1; k++)
            left[k] = left[k + 1];
        s.localFillOrderingNew2Old[i] = v;
        s.localFillOrderingOld2New[v] = i;
    }
}

static void checkStructure(Sym &s, const Adj &g, int iluCode)
{
    const int n = s.Num();
    bool P[8][8], E[8][8];
    // reference: elimination on a dense boolean matrix in the new numbering
    bool near[8][8]; // within iluCode+1 hops
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            near[i][j] = i == j;
    for (int i = 0; i < n; i++)
        for (auto j : g[i])
            near[i][j] = true;
    bool one[8][8];
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            one[i][j] = near[i][j];
    for (int r = 0; r < iluCode; r++)
    {
        bool t[8][8];
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
            {
                t[i][j] = near[i][j];
                for (int k = 0; k < n; k++)
                    if (near[i][k] && one[k][j])
                        t[i][j] = true;
            }
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                near[i][j] = t[i][j];
    }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            E[i][j] = one[s.FillingReorderNew2Old(i)][s.FillingReorderNew2Old(j)];
    for (int k = 0; k < n; k++)
        for (int i = k + 1; i < n; i++)
            for (int j = k + 1; j < n; j++)
                if (E[i][k] && E[k][j])
                    if (iluCode < 0 || near[s.FillingReorderNew2Old(i)][s.FillingReorderNew2Old(j)])
                        E[i][j] = true;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            P[i][j] = i == j;
    vc::ieq(s.lowerTriStructure.size(), n, "rows_lower");
    vc::ieq(s.upperTriStructure.size(), n, "rows_upper");
    for (int iP = 0; iP < n; iP++)
    {
        DIdx i = s.FillingReorderNew2Old(iP);
        auto &lo = s.lowerTriStructureNew[iP];
        auto &up = s.upperTriStructureNew[iP];
        vc::ieq(s.lowerTriStructure[i].size(), lo.size(), "lower_old_new_same_length", iP);
        vc::ieq(s.upperTriStructure[i].size(), up.size(), "upper_old_new_same_length", iP);
        vc::ieq(s.lowerTriStructureNewInUpper[iP].size(), lo.size(), "lower_in_upper_length", iP);
        vc::ieq(s.upperTriStructureNewInLower[iP].size(), up.size(), "upper_in_lower_length", iP);
        for (int q = 0; q < (int)lo.size(); q++)
        {
            DIdx jP = lo[q];
            vc::check(jP >= 0 && jP < iP && (q == 0 || lo[q - 1] < jP), "lower_sorted_strict", iP, q);
            vc::ieq(s.lowerTriStructure[i][q], s.FillingReorderNew2Old(jP), "lower_old_numbering", iP, q);
            DIdx w = s.lowerTriStructureNewInUpper[iP][q];
            vc::check(w >= 0 && w < (DIdx)s.upperTriStructureNew[jP].size() && s.upperTriStructureNew[jP][w] == iP, "lower_in_upper", iP, q);
            P[iP][jP] = true;
        }
        for (int q = 0; q < (int)up.size(); q++)
        {
            DIdx jP = up[q];
            vc::check(jP > iP && jP < n && (q == 0 || up[q - 1] < jP), "upper_sorted_strict", iP, q);
            vc::ieq(s.upperTriStructure[i][q], s.FillingReorderNew2Old(jP), "upper_old_numbering", iP, q);
            DIdx w = s.upperTriStructureNewInLower[iP][q];
            vc::check(w >= 0 && w < (DIdx)s.lowerTriStructureNew[jP].size() && s.lowerTriStructureNew[jP][w] == iP, "upper_in_lower", iP, q);
            P[iP][jP] = true;
        }
    }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            vc::ieq(P[i][j], E[i][j], "pattern_is_elimination_pattern", i, j);
    for (int i = 0; i < n; i++)
    {
        DIdx iP = s.FillingReorderOld2New(i);
        for (int q = 0; q < (int)g[i].size(); q++)
        {
            DIdx pos = s.cell2cellFaceVLocal2FullRowPos[i][q];
            DIdx nl = s.lowerTriStructure[i].size();
            DIdx nu = s.upperTriStructure[i].size();
            vc::check(pos >= 1 && pos <= nl + nu, "row_position_in_range", i, q);
            DIdx col = pos <= nl ? s.lowerTriStructure[i][pos - 1] : s.upperTriStructure[i][pos - 1 - nl];
            vc::ieq(col, g[i][q], "row_position", i, q);
        }
    }
}

template <int K>
struct LU : public Direct::LocalLUBase<LU<K>, Eigen::Matrix<double, K, K>, std::vector<Eigen::Vector<double, K>>>
{
    using M = Eigen::Matrix<double, K, K>;
    using Base = Direct::LocalLUBase<LU<K>, M, std::vector<Eigen::Vector<double, K>>>;
    std::vector<std::vector<M>> row;
    LU(ssp<Sym> s) : Base(s)
    {
        row.resize(s->Num());
        for (int i = 0; i < s->Num(); i++)
        {
            row[i].resize(1 + s->lowerTriStructure[i].size() + s->upperTriStructure[i].size());
            for (auto &m : row[i])
                m.setZero();
        }
    }
    M &GetDiag(DIdx i) { return row[i][0]; }
    M &GetLower(DIdx i, int ij) { return row[i][1 + ij]; }
    M &GetUpper(DIdx i, int ij) { return row[i][1 + this->symLU->lowerTriStructure[i].size() + ij]; }
    M InvertDiag(const M &v) { return v.inverse(); }
};
template <int K>
struct LDLT : public Direct::LocalLDLTBase<LDLT<K>, Eigen::Matrix<double, K, K>, std::vector<Eigen::Vector<double, K>>>
{
    using M = Eigen::Matrix<double, K, K>;
    using Base = Direct::LocalLDLTBase<LDLT<K>, M, std::vector<Eigen::Vector<double, K>>>;
    std::vector<std::vector<M>> row;
    LDLT(ssp<Sym> s) : Base(s)
    {
        row.resize(s->Num());
        for (int i = 0; i < s->Num(); i++)
        {
            row[i].resize(1 + s->lowerTriStructure[i].size());
            for (auto &m : row[i])
                m.setZero();
        }
    }
    M &GetDiag(DIdx i) { return row[i][0]; }
    M &GetLower(DIdx i, int ij) { return row[i][1 + ij]; }
    M InvertDiag(const M &v) { return v.inverse(); }
};

template <int K>
static Eigen::Matrix<double, K, K> symM(const char *n, int i, int j, bool diag = false, bool symm = false)
{
    Eigen::Matrix<double, K, K> m;
    for (int a = 0; a < K; a++)
        for (int b = 0; b < K; b++)
            if (symm && b < a)
                m(a, b) = m(b, a);
            else
                m(a, b) = vc::real(n, diag && a == b ? 1.0 : -0.3, diag && a == b ? 2.0 : 0.3, i * K + a, j * K + b);
    if (diag)
        vc::assume(m.determinant() != 0);
    return m;
}
template <int K>
static std::vector<Eigen::Vector<double, K>> symV(const char *n, int N)
{
    std::vector<Eigen::Vector<double, K>> v(N);
    for (int i = 0; i < N; i++)
        for (int a = 0; a < K; a++)
            v[i](a) = vc::real(n, -1, 1, i, a);
    return v;
}
template <int K>
static void same(const Eigen::Matrix<double, K, K> &a, const Eigen::Matrix<double, K, K> &b, const char *n, int i, int j)
{
    for (int p = 0; p < K; p++)
        for (int q = 0; q < K; q++)
            vc::eq(a(p, q), b(p, q), n, i * K + p, j * K + q);
}

// dense factors in the new numbering, supported on the structure
template <int K, int N>
struct Fac
{
    Eigen::Matrix<double, K, K> L[N][N], U[N][N], A[N][N];
    bool P[N][N];
};
template <int K, int N>
static void factors(Sym &s, Fac<K, N> &f, bool ldlt)
{
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
        {
            f.L[i][j].setZero(), f.U[i][j].setZero(), f.A[i][j].setZero();
            f.P[i][j] = i == j;
        }
    for (int i = 0; i < N; i++)
    {
        f.L[i][i].setIdentity();
        f.U[i][i] = symM<K>("D", i, i, true, ldlt);
        for (auto j : s.lowerTriStructureNew[i])
            f.L[i][j] = symM<K>("L", i, j), f.P[i][j] = true;
        for (auto j : s.upperTriStructureNew[i])
            f.P[i][j] = true;
    }
    for (int i = 0; i < N; i++)
        for (auto j : s.upperTriStructureNew[i])
            if (ldlt)
                f.U[i][j] = f.U[i][i] * f.L[j][i].transpose();
            else
                f.U[i][j] = symM<K>("U", i, j);
    for (int i = 0; i < N; i++)
        for (int j = 0; j < N; j++)
            if (f.P[i][j])
                for (int k = 0; k <= i && k <= j; k++)
                    if (f.P[i][k] && f.P[k][j])
                        f.A[i][j] += f.L[i][k] * f.U[k][j];
}

static ssp<Sym> structure(int n, const Adj &g, long perm, int ilu)
{
    auto s = std::make_shared<Sym>(quiet(), DIdx(n));
    setPerm(*s, n, perm);
    s->ObtainSymmetricSymbolicFactorization(g, ilu);
    return s;
}

template <int K, int N>
static void luContract(long mask, long perm, int ilu, int version)
{
    auto g = graph(N, mask);
    auto s = structure(N, g, perm, ilu);
    static Fac<K, N> f;
    factors(*s, f, false);
    LU<K> m(s);
    for (int iP = 0; iP < N; iP++)
    {
        int i = s->FillingReorderNew2Old(iP);
        m.GetDiag(i) = f.A[iP][iP];
        for (int q = 0; q < (int)s->lowerTriStructureNew[iP].size(); q++)
            m.GetLower(i, q) = f.A[iP][s->lowerTriStructureNew[iP][q]];
        for (int q = 0; q < (int)s->upperTriStructureNew[iP].size(); q++)
            m.GetUpper(i, q) = f.A[iP][s->upperTriStructureNew[iP][q]];
    }
    auto x = symV<K>("x", N);
    std::vector<Eigen::Vector<double, K>> r(N);
    // matrix-vector product of the unfactored matrix
    m.MatMul(x, r);
    for (int iP = 0; iP < N; iP++)
    {
        Eigen::Vector<double, K> w;
        w.setZero();
        for (int jP = 0; jP < N; jP++)
            w += f.A[iP][jP] * x[s->FillingReorderNew2Old(jP)];
        for (int a = 0; a < K; a++)
            vc::eq(r[s->FillingReorderNew2Old(iP)](a), w(a), "matmul", iP, a);
    }
    if (version == 2)
        m.InPlaceDecomposeV2();
    else
        m.InPlaceDecompose();
    for (int iP = 0; iP < N; iP++)
    {
        int i = s->FillingReorderNew2Old(iP);
        same<K>(m.GetDiag(i) * f.U[iP][iP], Eigen::Matrix<double, K, K>::Identity(), "stored_diag_is_inverse_pivot", iP, iP);
        for (int q = 0; q < (int)s->lowerTriStructureNew[iP].size(); q++)
            same<K>(m.GetLower(i, q), f.L[iP][s->lowerTriStructureNew[iP][q]], "lower_factor", iP, q);
        for (int q = 0; q < (int)s->upperTriStructureNew[iP].size(); q++)
            same<K>(m.GetUpper(i, q), f.U[iP][s->upperTriStructureNew[iP][q]], "upper_factor", iP, q);
    }
}
template <int K, int N>
static void luSolve(long mask, long perm, int ilu)
{
    auto g = graph(N, mask);
    auto s = structure(N, g, perm, ilu);
    static Fac<K, N> f;
    factors(*s, f, false);
    LU<K> m(s);
    for (int iP = 0; iP < N; iP++)
    {
        int i = s->FillingReorderNew2Old(iP);
        m.GetDiag(i) = f.U[iP][iP].inverse();
        for (int q = 0; q < (int)s->lowerTriStructureNew[iP].size(); q++)
            m.GetLower(i, q) = f.L[iP][s->lowerTriStructureNew[iP][q]];
        for (int q = 0; q < (int)s->upperTriStructureNew[iP].size(); q++)
            m.GetUpper(i, q) = f.U[iP][s->upperTriStructureNew[iP][q]];
    }
    m.isDecomposed = true;
    auto b = symV<K>("b", N);
    auto b0 = b;
    std::vector<Eigen::Vector<double, K>> r(N);
    m.Solve(b, r);
    // y = U x, L y = b in the new numbering
    std::vector<Eigen::Vector<double, K>> y(N);
    for (int i = 0; i < N; i++)
    {
        y[i].setZero();
        for (int j = i; j < N; j++)
            y[i] += f.U[i][j] * r[s->FillingReorderNew2Old(j)];
    }
    for (int i = 0; i < N; i++)
    {
        Eigen::Vector<double, K> w;
        w.setZero();
        for (int j = 0; j <= i; j++)
            w += f.L[i][j] * y[j];
        for (int a = 0; a < K; a++)
        {
            vc::eq(w(a), b0[s->FillingReorderNew2Old(i)](a), "LUx_is_b", i, a);
            vc::eq(b[i](a), b0[i](a), "rhs_untouched", i, a);
        }
    }
}
template <int K, int N>
static void ldltContract(long mask, long perm, int ilu)
{
    auto g = graph(N, mask);
    auto s = structure(N, g, perm, ilu);
    static Fac<K, N> f;
    factors(*s, f, true);
    LDLT<K> m(s);
    for (int iP = 0; iP < N; iP++)
    {
        int i = s->FillingReorderNew2Old(iP);
        m.GetDiag(i) = f.A[iP][iP];
        for (int q = 0; q < (int)s->lowerTriStructureNew[iP].size(); q++)
            m.GetLower(i, q) = f.A[iP][s->lowerTriStructureNew[iP][q]];
    }
    auto x = symV<K>("x", N);
    std::vector<Eigen::Vector<double, K>> r(N);
    m.MatMul(x, r);
    for (int iP = 0; iP < N; iP++)
    {
        Eigen::Vector<double, K> w;
        w.setZero();
        for (int jP = 0; jP < N; jP++)
            w += f.A[iP][jP] * x[s->FillingReorderNew2Old(jP)];
        for (int a = 0; a < K; a++)
            vc::eq(r[s->FillingReorderNew2Old(iP)](a), w(a), "matmul", iP, a);
    }
    m.InPlaceDecompose();
    for (int iP = 0; iP < N; iP++)
    {
        int i = s->FillingReorderNew2Old(iP);
        same<K>(m.GetDiag(i) * f.U[iP][iP], Eigen::Matrix<double, K, K>::Identity(), "stored_diag_is_inverse_pivot", iP, iP);
        for (int q = 0; q < (int)s->lowerTriStructureNew[iP].size(); q++)
            same<K>(m.GetLower(i, q), f.L[iP][s->lowerTriStructureNew[iP][q]], "lower_factor", iP, q);
    }
}
template <int K, int N>
static void ldltSolve(long mask, long perm, int ilu)
{
    auto g = graph(N, mask);
    auto s = structure(N, g, perm, ilu);
    static Fac<K, N> f;
    factors(*s, f, true);
    LDLT<K> m(s);
    for (int iP = 0; iP < N; iP++)
    {
        int i = s->FillingReorderNew2Old(iP);
        m.GetDiag(i) = f.U[iP][iP].inverse();
        for (int q = 0; q < (int)s->lowerTriStructureNew[iP].size(); q++)
            m.GetLower(i, q) = f.L[iP][s->lowerTriStructureNew[iP][q]];
    }
    m.isDecomposed = true;
    auto b = symV<K>("b", N);
    std::vector<Eigen::Vector<double, K>> r(N), y(N);
    m.Solve(b, r);
    for (int i = 0; i < N; i++)
    {
        y[i].setZero();
        for (int j = i; j < N; j++)
            y[i] += f.U[i][j] * r[s->FillingReorderNew2Old(j)];
    }
    for (int i = 0; i < N; i++)
    {
        Eigen::Vector<double, K> w;
        w.setZero();
        for (int j = 0; j <= i; j++)
            w += f.L[i][j] * y[j];
        for (int a = 0; a < K; a++)
            vc::eq(w(a), b[s->FillingReorderNew2Old(i)](a), "LDLTx_is_b", i, a);
    }
}

// ---- symbolic factorisation: all graphs on 4 vertices x all orderings, representative graphs on 6 vertices
template <int N>
static void structContract(int ilu, long nMask, long nPerm)
{
    long mask = vc::choice("graph", 0, nMask - 1), perm = vc::choice("ordering", -1, nPerm - 1);
    auto g = graph(N, mask, perm % 2 == 1);
    auto s = structure(N, g, perm, ilu);
    checkStructure(*s, g, ilu);
}
CONTRACT(symbolic_complete_n4) { structContract<4>(-1, 64, 24); }
CONTRACT(symbolic_ilu0_n4) { structContract<4>(0, 64, 24); }
CONTRACT(symbolic_ilu1_n4) { structContract<4>(1, 64, 24); }
CONTRACT(symbolic_ilu2_n4) { structContract<4>(2, 64, 24); }

CONTRACT(lu_n3_block2) { luContract<2, 3>(vc::choice("graph", 0, 7), vc::choice("ordering", -1, 5), vc::choice("ilu", -1, 0), vc::choice("version", 1, 2)); }
CONTRACT(lu_n4_scalar) { luContract<1, 4>(vc::choice("graph", 0, 63), vc::choice("ordering", -1, 1) * 9, vc::choice("ilu", -1, 1), vc::choice("version", 1, 2)); }
CONTRACT(lu_n5_scalar) { static const int g[4] = {1023, 0x3bf, 0x16d, 0x2f}; luContract<1, 5>(g[vc::choice("graph", 0, 3)], vc::choice("ordering", -1, 1) * 37, vc::choice("ilu", -1, 0), vc::choice("version", 1, 2)); }
CONTRACT(ldlt_n5_scalar) { static const int g[4] = {1023, 0x3bf, 0x16d, 0x2f}; ldltContract<1, 5>(g[vc::choice("graph", 0, 3)], vc::choice("ordering", -1, 1) * 37, vc::choice("ilu", -1, 0)); }
CONTRACT(lu_n6_scalar) { static const int g[3] = {0x7fff, 0x5b6d, 0x2f39}; luContract<1, 6>(g[vc::choice("graph", 0, 2)], vc::choice("ordering", -1, 1) * 111, vc::choice("ilu", -1, 1), vc::choice("version", 1, 2)); }
CONTRACT(ldlt_n6_scalar) { static const int g[3] = {0x7fff, 0x5b6d, 0x2f39}; ldltContract<1, 6>(g[vc::choice("graph", 0, 2)], vc::choice("ordering", -1, 1) * 111, vc::choice("ilu", -1, 1)); }
CONTRACT(lu_solve_n5_scalar) { static const int g[4] = {1023, 0x3bf, 0x16d, 0x2f}; luSolve<1, 5>(g[vc::choice("graph", 0, 3)], vc::choice("ordering", -1, 1) * 37, vc::choice("ilu", -1, 0)); }
CONTRACT(ldlt_solve_n5_scalar) { static const int g[4] = {1023, 0x3bf, 0x16d, 0x2f}; ldltSolve<1, 5>(g[vc::choice("graph", 0, 3)], vc::choice("ordering", -1, 1) * 37, vc::choice("ilu", -1, 0)); }
CONTRACT(symbolic_complete_n5) { structContract<5>(-1, 32, 5); }
CONTRACT(lu_solve_n3_block2) { luSolve<2, 3>(vc::choice("graph", 0, 7), vc::choice("ordering", -1, 5), vc::choice("ilu", -1, 0)); }
CONTRACT(lu_solve_n4_scalar) { luSolve<1, 4>(vc::choice("graph", 0, 63), vc::choice("ordering", -1, 1) * 9, vc::choice("ilu", -1, 1)); }
CONTRACT(ldlt_n3_block2) { ldltContract<2, 3>(vc::choice("graph", 0, 7), vc::choice("ordering", -1, 5), vc::choice("ilu", -1, 0)); }
CONTRACT(ldlt_n4_scalar) { ldltContract<1, 4>(vc::choice("graph", 0, 63), vc::choice("ordering", -1, 1) * 9, vc::choice("ilu", -1, 1)); }
CONTRACT(ldlt_solve_n3_block2) { ldltSolve<2, 3>(vc::choice("graph", 0, 7), vc::choice("ordering", -1, 5), vc::choice("ilu", -1, 0)); }
CONTRACT(ldlt_solve_n4_scalar) { ldltSolve<1, 4>(vc::choice("graph", 0, 63), vc::choice("ordering", -1, 1) * 9, vc::choice("ilu", -1, 1)); }

// ---- the two phases cannot be mixed up
CONTRACT(phase_errors)
{
    auto s = structure(2, graph(2, 1), -1, -1);
    LU<1> a(s);
    LDLT<1> c(s);
    for (int i = 0; i < 2; i++)
        a.GetDiag(i)(0) = c.GetDiag(i)(0) = 2;
    auto x = symV<1>("x", 2);
    auto r = x;
    vc::check(vc::aborts([&]() { a.Solve(x, r); }), "lu_solve_before_decompose_rejected");
    vc::check(vc::aborts([&]() { c.Solve(x, r); }), "ldlt_solve_before_decompose_rejected");
    a.InPlaceDecompose();
    c.InPlaceDecompose();
    vc::check(vc::aborts([&]() { a.MatMul(x, r); }), "lu_matmul_after_decompose_rejected");
    vc::check(vc::aborts([&]() { c.MatMul(x, r); }), "ldlt_matmul_after_decompose_rejected");
    vc::check(!vc::aborts([&]() { a.Solve(x, r); }), "lu_solve_accepted");
    vc::check(!vc::aborts([&]() { c.Solve(x, r); }), "ldlt_solve_accepted");
}
