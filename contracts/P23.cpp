// P23: what is written to a restart file is what is read back.
#include "vmpi_dnds.hpp"
#include "vh5.hpp"
#include "DNDS/ArrayPair.hpp"
#include "DNDS/ArrayDerived/ArrayEigenVector.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatirx.hpp"
#include "DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp"
#include "DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp"
#include "DNDS/SerializerH5.hpp"
#include "DNDS/SerializerH5.cpp"
// only so that dynamic_pointer_cast<SerializerJSON> has its type: no contract runs the JSON back end
#define processPath processPathJSON
#define constructPath constructPathJSON
#include "DNDS/SerializerJSON.cpp"
#undef processPath
#undef constructPath
extern "C" int compress2(Bytef *, uLongf *, const Bytef *, uLong, int) { __builtin_trap(); }
extern "C" int uncompress(Bytef *, uLongf *, const Bytef *, uLong) { __builtin_trap(); }
using namespace DNDS;
using DIdx = DNDS::index;
using namespace DNDS::Serializer;

FMT_BEGIN_NAMESPACE
std::string vformat(string_view, format_args) { return {}; }
FMT_END_NAMESPACE

struct Mode
{
    int np;
    bool metaColl, dataColl;
    int chunk, deflate;
    bool plain() const { return metaColl && !dataColl && !chunk; }
};
static Mode mode(int ios = 3)
{
    Mode m;
    m.np = (int)vc::choice("np", 1, 2);
    int k = (int)vc::choice("io", 0, ios);
    m.metaColl = k != 3, m.dataColl = k == 1, m.chunk = k == 2 ? 4 : 0, m.deflate = k == 2 ? 5 : 0;
    return m;
}
template <class F>
static void session(const Mode &m, bool read, F &&f)
{
    vmpi::run(m.np, [&](int r)
              {
        MPIInfo mpi;
        mpi.setWorld();
        auto ser = std::make_shared<SerializerH5>(mpi);
        ser->SetChunkAndDeflate(m.chunk, m.deflate);
        ser->SetCollectiveRW(m.metaColl, m.dataColl);
        ser->OpenFile("f.h5", read);
        SerializerBaseSSP s = ser;
        f(r, mpi, s);
        ser->CloseFile(); });
    if (read)
        vh5::compareLogs(m.np);
    else
        vh5::commit(m.np);
}
static const int lens[4][2] = {{2, 1}, {0, 3}, {1, 0}, {0, 0}};
CONTRACT(vectors)
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    static double R[2][3];
    static DIdx I[2][3];
    static rowsize W[2][3];
    for (int r = 0; r < 2; r++)
        for (int i = 0; i < 3; i++)
            R[r][i] = vc::real("r", -1e3, 1e3, r, i), I[r][i] = vc::integer("i", -1000, 1L << 40, r, i), W[r][i] = (rowsize)vc::integer("w", 0, 1000, r, i);
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        int n = lens[p][r];
        s->CreatePath("a"), s->GoToPath("a");
        s->WriteRealVector("real", std::vector<real>(R[r], R[r] + n), ArrayGlobalOffset_Parts);
        s->WriteIndexVector("index", std::vector<DIdx>(I[r], I[r] + n), ArrayGlobalOffset_Parts);
        s->GoToPath("b/c");
        s->WriteRowsizeVector("rowsize", std::vector<rowsize>(W[r], W[r] + n), ArrayGlobalOffset_Parts);
        s->WriteUint8Array("bytes", (const uint8_t *)"xyz", n, ArrayGlobalOffset_Parts);
        s->GoToPath("/a");
        s->WriteIndexVectorPerRank("each", std::vector<DIdx>(I[r], I[r] + 2)); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        int n = lens[p][r];
        std::vector<real> vr;
        std::vector<DIdx> vi, ve;
        std::vector<rowsize> vw;
        auto off = ArrayGlobalOffset_Unknown;
        s->GoToPath("/a/b/c");
        s->ReadRowsizeVector("rowsize", vw, off);
        DIdx nb = -1;
        off = ArrayGlobalOffset_Unknown;
        s->ReadUint8Array("bytes", nullptr, nb, off);
        uint8_t buf[4] = {0, 0, 0, 0};
        vc::check(nb == n, "byte_count");
        s->ReadUint8Array("bytes", buf, nb, off);
        for (int i = 0; i < 3; i++)
            vc::check(buf[i] == (i < n ? "xyz"[i] : 0), "bytes");
        s->GoToPath("/a");
        off = ArrayGlobalOffset_Unknown, s->ReadRealVector("real", vr, off);
        off = ArrayGlobalOffset_Unknown, s->ReadIndexVector("index", vi, off);
        off = ArrayGlobalOffset_Unknown, s->ReadIndexVector("each", ve, off);
        vc::check((int)vr.size() == n && (int)vi.size() == n && (int)vw.size() == n && (int)ve.size() == 2, "sizes_read_back");
        for (int i = 0; i < n; i++)
        {
            vc::eq(vr[i], R[r][i], "real_values", r, i);
            vc::check(vi[i] == I[r][i], "index_values", r, i);
            vc::check(vw[i] == W[r][i], "rowsize_values", r, i);
        }
        for (int i = 0; i < 2; i++)
            vc::check(ve[i] == I[r][i], "per_rank_values", r, i); });
}
CONTRACT(scalars)
{
    Mode m = mode();
    int i0 = (int)vc::integer("i", -1000, 1000);
    DIdx x0 = vc::integer("x", -(1L << 50), 1L << 50);
    double r0 = vc::real("r", -1e3, 1e3);
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        s->WriteInt("i", i0);
        vc::check(s->GetCurrentPath().empty(), "root_path");
        s->CreatePath("/g"), s->GoToPath("/g");
        s->WriteIndex("i", x0);
        s->CreatePath("h"), s->GoToPath("h");
        s->WriteReal("r", r0);
        s->WriteString("s", "some text");
        vc::check(s->GetCurrentPath() == "/g/h", "current_path");
        s->GoToPath("/g");
        s->WriteString("s", "t"); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        int i = 7;
        DIdx x = 7;
        double q = 7;
        std::string a = "old", b;
        s->GoToPath("g/h");
        s->ReadReal("r", q), s->ReadString("s", a);
        s->GoToPath("/g");
        s->ReadIndex("i", x), s->ReadString("s", b);
        s->GoToPath("/");
        s->ReadInt("i", i);
        vc::check(i == i0, "int_value"), vc::check(x == x0, "index_value"), vc::eq(q, r0, "real_value");
        vc::check(a == "some text" && b == "t", "strings");
        bool no = vc::aborts([&]() { s->ReadInt("missing", i); });
        vc::check(no, "missing_entry_rejected");
        for (auto &h : vh5::handle[r]) // what the rejected call had open
            if (h.kind != vh5::HFILE)
                h.kind = vh5::FREE; });
}
// explicit distribution, and one vector for all ranks
CONTRACT(explicit_offsets)
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    static double R[2][3], One[2];
    for (int i = 0; i < 3; i++)
        R[0][i] = vc::real("r", -1e3, 1e3, 0, i), R[1][i] = vc::real("r", -1e3, 1e3, 1, i);
    One[0] = vc::real("o", -1e3, 1e3, 0), One[1] = vc::real("o", -1e3, 1e3, 1);
    int tot = m.np == 1 ? lens[p][0] : lens[p][0] + lens[p][1];
    bool one = m.deflate == 0; // a single writer cannot use filters in parallel HDF5
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        s->WriteRealVector("x", std::vector<real>(R[r], R[r] + lens[p][r]), ArrayGlobalOffset{tot, r ? lens[p][0] : 0});
        if (one)
            s->WriteRealVector("one", std::vector<real>(One, One + 2), ArrayGlobalOffset_One); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        std::vector<real> v;
        auto off = ArrayGlobalOffset_Unknown;
        s->ReadRealVector("x", v, off);
        vc::check((int)v.size() == lens[p][r] && off == (ArrayGlobalOffset{tot, r ? lens[p][0] : 0}), "distribution_read_back");
        for (int i = 0; i < (int)v.size(); i++)
            vc::eq(v[i], R[r][i], "real_values", r, i);
        if (one)
        {
            off = ArrayGlobalOffset_One;
            s->ReadRealVector("one", v, off);
            vc::check(v.size() == 2, "one_for_all_size");
            vc::eq(v[0], One[0], "one_for_all", 0), vc::eq(v[1], One[1], "one_for_all", 1);
        } });
}
// shared vectors: written once, shared again when read; a later vector at the address of a deleted one is another vector
CONTRACT(shared_vectors)
{
    Mode m = mode();
    int how = (int)vc::choice("history", 0, 2);
    static DIdx A[2][2];
    for (int r = 0; r < 2; r++)
        for (int i = 0; i < 2; i++)
            A[r][i] = vc::integer("a", 0, 1L << 40, r, i);
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        auto a = std::make_shared<std::vector<DIdx>>(A[r], A[r] + 2);
        auto w = std::make_shared<std::vector<rowsize>>(1 + r, 5 + r);
        s->WriteSharedIndexVector("a", a, ArrayGlobalOffset_Parts);
        s->WriteSharedRowsizeVector("w", w, ArrayGlobalOffset_Parts);
        s->CreatePath("sub"), s->GoToPath("sub");
        s->WriteSharedIndexVector("same", a, ArrayGlobalOffset_Parts);
        s->WriteSharedRowsizeVector("samew", w, ArrayGlobalOffset_Parts);
        // another vector on one rank only: everybody writes
        auto b = r == 0 ? std::make_shared<std::vector<DIdx>>(1, A[0][1]) : a;
        s->WriteSharedIndexVector("other", b, ArrayGlobalOffset_Parts);
        auto x = r == 0 ? std::make_shared<std::vector<rowsize>>(2, 9) : w;
        s->WriteSharedRowsizeVector("otherw", x, ArrayGlobalOffset_Parts); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        auto off = ArrayGlobalOffset_Unknown;
        auto ua = std::make_unique<ssp<std::vector<DIdx>>>();
        ssp<std::vector<DIdx>> same, other;
        ssp<std::vector<rowsize>> w, sw;
        auto isA = [&](const ssp<std::vector<DIdx>> &v, const char *what)
        {
            vc::check(v && v->size() == 2 && (*v)[0] == A[r][0] && (*v)[1] == A[r][1], what);
        };
        s->ReadSharedIndexVector("a", *ua, off);
        isA(*ua, "shared_values");
        off = ArrayGlobalOffset_Unknown, s->ReadSharedRowsizeVector("w", w, off);
        vc::check(w && (int)w->size() == 1 + r && (*w)[0] == 5 + r, "shared_rowsizes");
        auto first = *ua;
        if (how == 1) // the first reader goes on with another vector
            *ua = std::make_shared<std::vector<DIdx>>(3, -1);
        if (how == 2) // the first reader is gone
            ua.reset();
        s->GoToPath("sub");
        off = ArrayGlobalOffset_Unknown, s->ReadSharedIndexVector("same", same, off);
        isA(same, "shared_values_again");
        vc::check(same == first, "sharing_restored");
        off = ArrayGlobalOffset_Unknown, s->ReadSharedRowsizeVector("samew", sw, off);
        vc::check(sw == w, "rowsize_sharing_restored");
        off = ArrayGlobalOffset_Unknown, s->ReadSharedIndexVector("other", other, off);
        if (r)
            isA(other, "unshared_values");
        else
            vc::check(other && other->size() == 1 && (*other)[0] == A[0][1], "unshared_values");
        off = ArrayGlobalOffset_Unknown, s->ReadSharedRowsizeVector("otherw", sw, off);
        vc::check(sw && (int)sw->size() == 2 && (*sw)[0] == (r ? 6 : 9) && (*sw)[1] == (*sw)[0], "unshared_rowsizes"); });
}
CONTRACT(shared_vector_at_a_reused_address)
{
    Mode m = mode();
    DIdx A = vc::integer("a", 0, 1L << 40), B = vc::integer("b", 0, 1L << 40);
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        using V = std::vector<DIdx>;
        alignas(16) static char block[2][2][sizeof(V)]; // an allocator that hands out freed blocks again
        static bool busy[2][2];
        busy[r][0] = busy[r][1] = false;
        for (int k = 0; k < 2; k++)
        {
            int i = busy[r][0];
            busy[r][i] = true;
            ssp<V> p(new (block[r][i]) V(1, k ? B : A), [r, i](V *x) { x->~V(), busy[r][i] = false; });
            s->WriteSharedIndexVector(k ? "b" : "a", p, ArrayGlobalOffset_Parts);
        } });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        auto off = ArrayGlobalOffset_Unknown;
        ssp<std::vector<DIdx>> a, b;
        s->ReadSharedIndexVector("a", a, off);
        off = ArrayGlobalOffset_Unknown, s->ReadSharedIndexVector("b", b, off);
        vc::check(a->size() == 1 && b->size() == 1 && (*a)[0] == A && (*b)[0] == B, "each_vector_its_own_values"); });
}
// arrays: every layout, integers, reals and structures; into fresh readers and into readers that hold something else
struct Rec
{
    DIdx a;
    double b;
};
static int counter;
static void fresh(double &x) { x = vc::real("v", -1e3, 1e3, counter++); }
static void fresh(DIdx &x) { x = vc::integer("v", -1000, 1L << 40, counter++); }
static void fresh(Rec &x)
{
    fresh(x.a), fresh(x.b);
}
static void expect(double a, double b, const char *what, int r, int i) { vc::eq(a, b, what, r, i); }
static void expect(DIdx a, DIdx b, const char *what, int r, int i) { vc::check(a == b, what, r, i); }
static void expect(const Rec &a, const Rec &b, const char *what, int r, int i)
{
    vc::check(a.a == b.a, what, r, i), vc::eq(a.b, b.b, what, r, i);
}
template <class T>
struct Rows
{
    int n = 0, w[3] = {};
    T v[3][3] = {};
};
template <class A, class T>
static void fill(A &a, Rows<T> &m, int n, int row, int width)
{
    constexpr auto L = A::_dataLayout;
    m.n = n;
    if constexpr (L == TABLE_StaticFixed || L == TABLE_StaticMax || L == CSR)
        a.Resize(n);
    else
        a.Resize(n, width);
    for (int i = 0; i < n; i++)
    {
        m.w[i] = width;
        if constexpr (L == TABLE_StaticMax || L == TABLE_Max || L == CSR)
            a.ResizeRow(i, m.w[i] = (i + row) % (width + 1));
        for (int j = 0; j < m.w[i]; j++)
            fresh(m.v[i][j]), a(i, j) = m.v[i][j];
    }
}
template <class A, class T>
static void same(A &a, const Rows<T> &m, const char *what, int r)
{
    vc::check(a.Size() == m.n, what, r);
    for (int i = 0; i < m.n; i++)
    {
        vc::check(a.RowSize(i) == m.w[i], what, r, i);
        if (a.RowSize(i) == m.w[i])
            for (int j = 0; j < m.w[i]; j++)
                expect(a(i, j), m.v[i][j], what, r, i);
    }
}
template <class A, class B, class T>
static void arrays(int width)
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    int pre = m.plain() ? (int)vc::choice("reader_holds", 0, 2) : 0;
    static Rows<T> d[2], e[2];
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        A a, b;
        fill(a, d[r], lens[p][r], r, width), fill(b, e[r], 1 + r, 1, width);
        if constexpr (A::_dataLayout == CSR)
            if (p % 2)
                a.Compress();
        s->CreatePath("sub"), s->GoToPath("sub");
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts);
        b.WriteSerializer(s, "b", ArrayGlobalOffset_Parts);
        vc::check(s->GetCurrentPath() == "/sub", "path_left_alone");
        same(a, d[r], "writer_unchanged", r); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        B a, b;
        Rows<T> x;
        if (pre)
            fill(a, x, 2, 1, width), fill(b, x, 3, 2, width);
        if constexpr (B::_dataLayout == CSR)
            if (pre == 2)
                a.Compress(), b.Compress();
        s->GoToPath("sub");
        auto off = ArrayGlobalOffset_Unknown;
        b.ReadSerializer(s, "b", off);
        off = ArrayGlobalOffset_Unknown;
        a.ReadSerializer(s, "a", off);
        vc::check(s->GetCurrentPath() == "/sub", "path_left_alone");
        same(a, d[r], "array_read_back", r), same(b, e[r], "second_array_read_back", r); });
}
CONTRACT(array_static_fixed) { arrays<Array<DIdx, 2>, Array<DIdx, 2>, DIdx>(2); }
CONTRACT(array_fixed) { arrays<Array<real, DynamicSize>, Array<real, DynamicSize>, real>((int)vc::choice("width", 1, 2)); }
CONTRACT(array_static_max) { arrays<Array<Rec, NonUniformSize, 2>, Array<Rec, NonUniformSize, 2>, Rec>(2); }
CONTRACT(array_max) { arrays<Array<DIdx, NonUniformSize, DynamicSize>, Array<DIdx, NonUniformSize, DynamicSize>, DIdx>(2); }
CONTRACT(array_rows) { arrays<Array<real, NonUniformSize>, Array<real, NonUniformSize>, real>(2); }
CONTRACT(array_rows_of_structures) { arrays<Array<Rec, NonUniformSize>, Array<Rec, NonUniformSize>, Rec>(2); }
// sizes known at compile time on one side, at run time on the other; anything that does not fit is rejected
CONTRACT(array_fixed_read_as_static) { arrays<Array<real, DynamicSize>, Array<real, 2>, real>(2); }
CONTRACT(array_static_read_as_fixed) { arrays<Array<DIdx, 2>, Array<DIdx, DynamicSize>, DIdx>(2); }
CONTRACT(array_max_read_as_static) { arrays<Array<DIdx, NonUniformSize, DynamicSize>, Array<DIdx, NonUniformSize, 2>, DIdx>(2); }
CONTRACT(array_static_read_as_max) { arrays<Array<DIdx, NonUniformSize, 2>, Array<DIdx, NonUniformSize, DynamicSize>, DIdx>(2); }
template <class A, class B, class T>
static void rejected(int width)
{
    Mode m = mode();
    m.np = 1;
    int n = (int)vc::choice("rows", 1, 2);
    static Rows<T> d;
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        A a;
        fill(a, d, n, r, width);
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        B a;
        auto off = ArrayGlobalOffset_Unknown;
        bool no = vc::aborts([&]() { a.ReadSerializer(s, "a", off); });
        vc::check(no, "misfit_rejected");
        for (auto &h : vh5::handle[r]) // what the rejected call had open
            if (h.kind != vh5::HFILE)
                h.kind = vh5::FREE; });
}
CONTRACT(misfit_fixed_width) { rejected<Array<real, DynamicSize>, Array<real, 2>, real>(3); }
CONTRACT(misfit_static_width) { rejected<Array<real, 3>, Array<real, 2>, real>(3); }
CONTRACT(misfit_max_width) { rejected<Array<DIdx, NonUniformSize, DynamicSize>, Array<DIdx, NonUniformSize, 2>, DIdx>(3); }
CONTRACT(misfit_static_max_width) { rejected<Array<DIdx, NonUniformSize, 3>, Array<DIdx, NonUniformSize, 2>, DIdx>(3); }
CONTRACT(misfit_smaller_max) { rejected<Array<DIdx, NonUniformSize, 1>, Array<DIdx, NonUniformSize, 2>, DIdx>(1); }
CONTRACT(misfit_smaller_width) { rejected<Array<DIdx, 1>, Array<DIdx, 2>, DIdx>(1); }
CONTRACT(misfit_smaller_run_time_max) { rejected<Array<DIdx, NonUniformSize, DynamicSize>, Array<DIdx, NonUniformSize, 2>, DIdx>(1); }
CONTRACT(misfit_smaller_run_time_width) { rejected<Array<DIdx, DynamicSize>, Array<DIdx, 2>, DIdx>(1); }
CONTRACT(misfit_entry_size) { rejected<Array<Rec, 2>, Array<real, 2>, Rec>(2); }
CONTRACT(misfit_rows_as_table) { rejected<Array<DIdx, NonUniformSize>, Array<DIdx, NonUniformSize, DynamicSize>, DIdx>(2); }
CONTRACT(misfit_table_as_rows) { rejected<Array<DIdx, NonUniformSize, DynamicSize>, Array<DIdx, NonUniformSize>, DIdx>(2); }
CONTRACT(misfit_uniform_as_rows) { rejected<Array<DIdx, 2>, Array<DIdx, NonUniformSize>, DIdx>(2); }
CONTRACT(misfit_rows_as_uniform) { rejected<Array<DIdx, NonUniformSize>, Array<DIdx, DynamicSize>, DIdx>(2); }
CONTRACT(array_zero_width) { arrays<Array<real, DynamicSize>, Array<real, DynamicSize>, real>(0); }
// matrices
struct Mats
{
    int n = 0, r[3] = {}, c[3] = {};
    double v[3][2][3] = {};
};
template <class A>
static void fillMats(A &a, Mats &m, int n, int R, int C)
{
    a.Resize(n, R, C);
    m.n = n;
    for (int i = 0; i < n; i++)
    {
        m.r[i] = R, m.c[i] = C;
        if constexpr (A::_row_size == NonUniformSize)
            m.r[i] = R > 1 ? 1 + i % R : 1, m.c[i] = C - i % 2, a.ResizeMat(i, m.r[i], m.c[i]);
        for (int p = 0; p < m.r[i]; p++)
            for (int q = 0; q < m.c[i]; q++)
                fresh(m.v[i][p][q]), a[i](p, q) = m.v[i][p][q];
    }
}
template <class A>
static void sameMats(A &a, const Mats &m, const char *what, int r)
{
    vc::check(a.Size() == m.n, what, r);
    for (int i = 0; i < m.n && i < (int)a.Size(); i++)
    {
        auto M = a[i];
        bool ok = M.rows() == m.r[i] && M.cols() == m.c[i] && a.MatRowSize(i) == m.r[i] && a.MatColSize(i) == m.c[i];
        vc::check(ok, what, r, i);
        if (ok)
            for (int p = 0; p < m.r[i]; p++)
                for (int q = 0; q < m.c[i]; q++)
                    vc::eq(M(p, q), m.v[i][p][q], what, i, p, q);
    }
}
template <class A, class B>
static void matrices(int R, int C)
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    int pre = m.plain() ? (int)vc::choice("reader_holds", 0, 1) : 0;
    static Mats d[2], e[2];
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        A a(mpi), b(mpi);
        fillMats(a, d[r], lens[p][r], R, C), fillMats(b, e[r], 1, R, C);
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts);
        b.WriteSerializer(s, "b", ArrayGlobalOffset_Parts);
        vc::check(s->GetCurrentPath().empty(), "path_left_alone");
        sameMats(a, d[r], "writer_unchanged", r); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        B a(mpi), b(mpi);
        Mats x;
        if (pre)
            fillMats(a, x, 2, R, C), fillMats(b, x, 3, R, C);
        auto off = ArrayGlobalOffset_Unknown;
        b.ReadSerializer(s, "b", off);
        off = ArrayGlobalOffset_Unknown;
        a.ReadSerializer(s, "a", off);
        vc::check(s->GetCurrentPath().empty(), "path_left_alone");
        sameMats(a, d[r], "matrices_read_back", r), sameMats(b, e[r], "second_matrices_read_back", r); });
}
template <rowsize a, rowsize b, rowsize c = a, rowsize d = b>
using Mat = ArrayEigenMatrix<a, b, c, d>;
static constexpr rowsize Dy = DynamicSize, Nu = NonUniformSize;
CONTRACT(matrices_2x3) { matrices<Mat<2, 3>, Mat<2, 3>>(2, 3); }
CONTRACT(matrices_dynamic) { matrices<Mat<Dy, Dy>, Mat<Dy, Dy>>(2, 3); }
CONTRACT(matrices_dynamic_columns) { matrices<Mat<2, Dy>, Mat<2, Dy>>(2, 3); }
CONTRACT(matrices_each_its_shape) { matrices<Mat<Nu, Nu>, Mat<Nu, Nu>>(2, 3); }
CONTRACT(matrices_each_its_shape_bounded_size) { matrices<Mat<Nu, Nu, 2, 3>, Mat<Nu, Nu, 2, 3>>(2, 3); }
CONTRACT(matrices_dynamic_read_as_2x3) { matrices<Mat<Dy, Dy>, Mat<2, 3>>(2, 3); }
CONTRACT(matrices_2x3_read_as_dynamic) { matrices<Mat<2, 3>, Mat<Dy, Dy>>(2, 3); }
// individual shapes that happen to have the same number of rows, read where that number is common
template <class A, class B>
static void rowsKnown(int R)
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    static Mats d[2];
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        A a(mpi);
        d[r].n = lens[p][r];
        a.Resize(d[r].n, R, 3);
        for (int i = 0; i < d[r].n; i++)
        {
            a.ResizeMat(i, d[r].r[i] = R, d[r].c[i] = 1 + (i + r) % 3);
            for (int j = 0; j < R * d[r].c[i]; j++)
                fresh(d[r].v[i][j % R][j / R]), a[i](j % R, j / R) = d[r].v[i][j % R][j / R];
        }
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        B a(mpi);
        auto off = ArrayGlobalOffset_Unknown;
        a.ReadSerializer(s, "a", off);
        sameMats(a, d[r], "matrices_read_back", r); });
}
CONTRACT(matrix_rows_individual_read_as_dynamic) { rowsKnown<Mat<Nu, Nu>, Mat<Dy, Nu>>(2); }
CONTRACT(matrix_rows_individual_read_as_fixed) { rowsKnown<Mat<Nu, Nu>, Mat<2, Nu>>(2); }
template <class A, class B>
static void rejectedMats(int R, int C)
{
    Mode m = mode();
    m.np = 1;
    static Mats d;
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        A a(mpi);
        fillMats(a, d, 2, R, C);
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        B a(mpi);
        auto off = ArrayGlobalOffset_Unknown;
        bool no = vc::aborts([&]() { a.ReadSerializer(s, "a", off); });
        vc::check(no, "misfit_rejected");
        for (auto &h : vh5::handle[r])
            if (h.kind != vh5::HFILE)
                h.kind = vh5::FREE; });
}
CONTRACT(misfit_matrix_rows) { rejectedMats<Mat<Dy, Dy>, Mat<1, 6>>(2, 3); }
CONTRACT(misfit_matrix_fixed_rows) { rejectedMats<Mat<2, 3>, Mat<1, 6>>(2, 3); }
CONTRACT(misfit_matrix_individual_rows) { rejectedMats<Mat<Nu, Nu>, Mat<1, Nu>>(2, 3); }
CONTRACT(misfit_matrix_rows_not_common) { rejectedMats<Mat<Nu, Nu>, Mat<Dy, Nu>>(2, 3); }
// batches of equal matrices
template <int NR, int NC>
static void uniBatch()
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    int pre = m.plain() ? (int)vc::choice("reader_holds", 0, 1) : 0;
    static Rows<real> d[2];
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        ArrayEigenUniMatrixBatch<NR, NC> a(mpi);
        d[r].n = lens[p][r];
        a.Resize(d[r].n, 1, 2);
        for (int i = 0; i < d[r].n; i++)
        {
            a.ResizeBatch(i, d[r].w[i] = (i + r) % 2);
            for (int j = 0; j < d[r].w[i]; j++)
                fresh(d[r].v[i][0]), fresh(d[r].v[i][1]), a(i, j)(0, 0) = d[r].v[i][0], a(i, j)(0, 1) = d[r].v[i][1];
        }
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        ArrayEigenUniMatrixBatch<NR, NC> a(mpi);
        if (pre && NR < 0)
            a.Resize(1, 2, 2), a.ResizeBatch(0, 1);
        auto off = ArrayGlobalOffset_Unknown;
        a.ReadSerializer(s, "a", off);
        vc::check(a.Size() == d[r].n && a.Rows() == 1 && a.Cols() == 2 && a.MSize() == 2, "batch_shape", r);
        for (int i = 0; i < d[r].n; i++)
        {
            vc::check(a.BatchSize(i) == d[r].w[i], "batch_size", r, i);
            for (int j = 0; j < d[r].w[i]; j++)
            {
                auto M = a(i, j);
                vc::check(M.rows() == 1 && M.cols() == 2, "matrix_shape", r, i);
                vc::eq(M(0, 0), d[r].v[i][0], "batch_values", i, j, 0), vc::eq(M(0, 1), d[r].v[i][1], "batch_values", i, j, 1);
            }
        } });
}
CONTRACT(batches_1x2) { uniBatch<1, 2>(); }
CONTRACT(batches_dynamic) { uniBatch<-1, -1>(); }
CONTRACT(batches_1xdynamic) { uniBatch<1, -1>(); }
CONTRACT(batches_of_any_shape)
{
    Mode m = mode();
    int p = (int)vc::choice("sizes", 0, 3);
    static double V[2][2];
    counter = 0;
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        ArrayEigenMatrixBatch a(mpi);
        int n = lens[p][r];
        a.Resize(n);
        fresh(V[r][0]), fresh(V[r][1]);
        for (int i = 0; i < n; i++)
        {
            std::vector<MatrixXR> ms;
            ms.emplace_back(1, 2), ms[0] << V[r][0], 5;
            if (i == 0)
                ms.emplace_back(2, 1), ms[1] << 7, V[r][1];
            a.InitializeWriteRow(i, ms);
        }
        a.WriteSerializer(s, "a", ArrayGlobalOffset_Parts); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        ArrayEigenMatrixBatch a(mpi);
        auto off = ArrayGlobalOffset_Unknown;
        a.ReadSerializer(s, "a", off);
        int n = lens[p][r];
        vc::check(a.Size() == n, "batch_count", r);
        for (int i = 0; i < n; i++)
        {
            auto b = a[i];
            vc::check(b.Size() == 1 + (i == 0), "batch_size", r, i);
            vc::check(b[0].rows() == 1 && b[0].cols() == 2, "matrix_shape", r, i);
            vc::eq(b[0](0, 0), V[r][0], "batch_values", r, i), vc::eq(b[0](0, 1), 5, "batch_values", r, i);
            if (i == 0)
            {
                vc::check(b[1].rows() == 2 && b[1].cols() == 1, "matrix_shape", r, i);
                vc::eq(b[1](0, 0), 7, "batch_values", r, i), vc::eq(b[1](1, 0), V[r][1], "batch_values", r, i);
            }
        } });
}
template <class A>
static auto make(MPIInfo &mpi)
{
    if constexpr (std::is_class_v<typename A::value_type>)
        return std::make_shared<A>(A::value_type::CommType(), A::value_type::CommMult(), mpi);
    else
        return std::make_shared<A>(mpi);
}
// an owned part and its ghosts; after reading, the ghosts follow their owners again
template <class A, class T, class Shape>
static void pairs(Shape &&shape)
{
    Mode m = mode(1);
    int p = (int)vc::choice("sizes", 0, 3);
    bool pig = m.dataColl || vc::choice("ghost_indices_in_file", 0, 1);
    int g = m.np == 1 ? 0 : m.metaColl && !m.deflate ? (int)vc::choice("ghosts", 0, 3) : 2;
    int want[2] = {g & 1 ? 0 : -1, g & 2 ? 0 : -1};
    int other[2] = {lens[p][1], lens[p][0]};
    for (int r = 0; r < 2; r++)
        if (!other[r])
            want[r] = -1;
    static T V[2][3], W[2][3];
    counter = 0;
    for (int r = 0; r < 2; r++)
        for (int i = 0; i < 3; i++)
            fresh(V[r][i]), fresh(W[r][i]);
    auto pullOf = [&](int r)
    {
        std::vector<DIdx> pull;
        if (want[r] >= 0)
            pull.push_back(r == 0 ? lens[p][0] : 0);
        return pull;
    };
    session(m, false, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        ArrayPair<A> u;
        u.father = make<A>(mpi), u.son = make<A>(mpi);
        u.TransAttach();
        shape(*u.father, lens[p][r]), shape(*u.son, 0);
        for (int i = 0; i < lens[p][r]; i++)
            u.father->data()[i] = V[r][i];
        u.trans.createFatherGlobalMapping();
        u.trans.createGhostMapping(pullOf(r));
        u.trans.createMPITypes();
        u.trans.pullOnce();
        u.WriteSerialize(s, "u", pig);
        vc::check(s->GetCurrentPath().empty(), "path_left_alone"); });
    session(m, true, [&](int r, MPIInfo &mpi, SerializerBaseSSP &s)
            {
        ArrayPair<A> u;
        u.father = make<A>(mpi), u.son = make<A>(mpi);
        u.ReadSerialize(s, "u", pig);
        vc::check(s->GetCurrentPath().empty(), "path_left_alone");
        bool ok = u.father->Size() == lens[p][r] && u.son->Size() == (want[r] >= 0);
        vc::check(ok, "sizes_read_back", r);
        if (ok)
        {
            for (int i = 0; i < lens[p][r]; i++)
                expect(u.father->data()[i], V[r][i], "owned_read_back", r, i);
            if (want[r] >= 0)
                expect(u.son->data()[0], V[1 - r][0], "ghosts_read_back", r, 0);
        }
        if (!pig)
        {
            u.trans.createFatherGlobalMapping();
            u.trans.createGhostMapping(pullOf(r));
        }
        u.trans.createMPITypes();
        for (int i = 0; i < lens[p][r]; i++)
            u.father->data()[i] = W[r][i];
        u.trans.pullOnce();
        if (want[r] >= 0)
            expect(u.son->data()[0], W[1 - r][0], "ghosts_follow_owner", r, 0); });
}
CONTRACT(pair_of_vectors)
{
    pairs<ArrayEigenMatrix<1, 1>, real>([](auto &a, DIdx n) { a.Resize(n, 1, 1); });
}
CONTRACT(pair_of_reconstructions)
{
    pairs<ArrayEigenMatrix<DynamicSize, 1>, real>([](auto &a, DIdx n) { a.Resize(n, 1, 1); });
}
CONTRACT(pair_of_rows)
{
    pairs<ParArray<DIdx, NonUniformSize>, DIdx>([](auto &a, DIdx n)
                                               {
        a.Resize(n);
        for (DIdx i = 0; i < n; i++)
            a.ResizeRow(i, 1);
        a.Compress(); });
}
struct Two // like ElemInfo: a structure that knows how it is sent
{
    DIdx a, b;
    static MPI_Datatype CommType() { return DNDS_MPI_INDEX; }
    static int CommMult() { return 2; }
};
static void fresh(Two &x) { fresh(x.a), fresh(x.b); }
static void expect(const Two &a, const Two &b, const char *what, int r, int i) { vc::check(a.a == b.a, what, r, i), vc::check(a.b == b.b, what, r, i); }
CONTRACT(pair_of_structures)
{
    pairs<ParArray<Two, 1>, Two>([](auto &a, DIdx n) { a.Resize(n); });
}
