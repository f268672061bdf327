// P10: the row container (Array) in every layout, against a plain list-of-rows model, over histories of operations; father/son pairs.
#include "vmpi_dnds.hpp"
#include "DNDS/ArrayPair.hpp"
using namespace DNDS;
using DIdx = DNDS::index;
static constexpr int MR = 3, MC = 3;

// message formatting has no effect on the checked state
FMT_BEGIN_NAMESPACE
std::string vformat(string_view, format_args) { return {}; }
FMT_END_NAMESPACE

struct Model
{
    int n = 0, siz[MR] = {};
    double v[MR][MC] = {};
};
static int counter;
static double fresh() { return vc::real("v", -1e3, 1e3, counter++); }

template <rowsize rs, rowsize rm>
struct L
{
    using Arr = Array<real, rs, rm>;
    static constexpr DataLayout lo = Arr::_dataLayout;
    static constexpr bool var = !isTABLE_Fixed(lo);
    static void same(const Arr &a, const Model &m, const char *what)
    {
        vc::check(a.Size() == m.n, what);
        if (a.Size() != m.n)
            return;
        for (int i = 0; i < m.n; i++)
        {
            vc::check(a.RowSize(i) == m.siz[i], what, i);
            if (a.RowSize(i) == m.siz[i])
                for (int j = 0; j < m.siz[i]; j++)
                    vc::eq(a(i, j), m.v[i][j], what, i, j);
        }
    }
    // give the array a new shape and contents (from whatever state it is in)
    static void refill(Arr &a, Model &m, int n, int pat)
    {
        static const int P[4][MR] = {{1, 3, 2}, {2, 0, 3}, {0, 0, 1}, {3, 3, 3}};
        m.n = n;
        int dyn = lo == TABLE_Fixed ? 1 + pat % 3 : 2; // row width of the fixed layouts
        for (int i = 0; i < n; i++)
            m.siz[i] = var ? P[pat][i] : dyn;
        if constexpr (lo == CSR)
        {
            if (pat == 3) // shape given row by row, straight to the compressed form
                a.Resize(n, [&](DIdx i) -> rowsize { return m.siz[i]; });
            else
            {
                a.Decompress();
                if (pat == 2)
                    a.Resize(n, 0);
                else
                    a.Resize(n);
                for (int i = 0; i < n; i++)
                    a.ResizeRow(i, m.siz[i]);
            }
        }
        else if constexpr (lo == TABLE_Fixed)
            a.Resize(n, dyn);
        else if constexpr (lo == TABLE_StaticFixed)
        {
            if (pat & 1)
                a.Resize(n, 2);
            else
                a.Resize(n);
        }
        else if constexpr (lo == TABLE_Max)
            a.Resize(n, 3);
        else if (pat & 1)
            a.Resize(n, 3);
        else
            a.Resize(n);
        if constexpr (isTABLE_Max(lo))
            for (int i = 0; i < n; i++)
                a.ResizeRow(i, m.siz[i]);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m.siz[i]; j++)
                a(i, j) = m.v[i][j] = fresh();
    }
    static void op(Arr &a, Model &m, int k)
    {
        if (k == 0)
            a.Compress();
        else if (k == 1)
            a.Decompress();
        else if (k == 2 && m.n > 0 && var) // shrink one row: the kept entries and all other rows stay
        {
            a.Decompress();
            int i = m.n - 1;
            if (m.siz[i] > 0)
                a.ResizeRow(i, --m.siz[i]);
        }
        else if (k == 3) // write through the row pointer
        {
            for (int i = 0; i < m.n; i++)
            {
                real *p = a[i];
                for (int j = 0; j < m.siz[i]; j++)
                    p[j] = m.v[i][j] = fresh();
            }
        }
    }
    static void history()
    {
        counter = 0;
        Arr a;
        Model m;
        same(a, m, "initially_empty");
        for (int round = 0; round < 2; round++)
        {
            // the second round visits the empty, a shorter-or-equal and the full size
            int n = (int)vc::choice("n", 0, round ? 2 : MR, round);
            refill(a, m, round ? n * 3 / 2 : n, (int)vc::choice("pat", 0, lo == CSR ? 3 : 1, round));
            same(a, m, "refilled");
            op(a, m, (int)vc::choice("op", 0, 3, 2 * round));
            same(a, m, "after_operation");
            if (round == 0)
            {
                op(a, m, (int)vc::choice("op", 0, 3, 1));
                same(a, m, "after_operation");
            }
        }
    }
    // copies and swaps: values follow, and the two arrays stay independent afterwards
    static void copySwap()
    {
        counter = 0;
        Arr a, b;
        Model ma, mb;
        int n = (int)vc::choice("n", 0, MR);
        refill(a, ma, n, (int)vc::choice("pat", 0, 2, 0));
        int c = (int)vc::choice("compressed", 0, 1);
        if (c)
            a.Compress();
        switch ((int)vc::choice("how", 0, 2))
        {
        case 0: // copy construction
        {
            Arr d(a);
            Model md = ma;
            same(d, md, "copy_equal");
            op(d, md, (int)vc::choice("op", 0, 3));
            op(d, md, 3);
            same(d, md, "copy_after_change");
            same(a, ma, "original_unaffected_by_copy");
            op(a, ma, (int)vc::choice("op", 0, 3, 1));
            op(a, ma, 2);
            op(a, ma, 3);
            same(d, md, "copy_unaffected_by_original");
            same(a, ma, "original_after_change");
            Arr e(a);
            Model me;
            refill(e, me, (int)vc::choice("n_re", 0, 1) * 3, 0);
            same(e, me, "copy_reshaped");
            same(a, ma, "original_unaffected_by_reshaping_copy");
            break;
        }
        case 1:
            refill(b, mb, (int)vc::choice("nb", 0, MR), (int)vc::choice("pat", 0, 2, 1));
            b.CopyData(a);
            mb = ma;
            same(b, mb, "copydata_equal");
            op(b, mb, 2);
            op(b, mb, 3);
            same(b, mb, "copydata_after_change");
            same(a, ma, "source_unaffected");
            break;
        default:
            // swapping needs equal total storage
            refill(b, mb, n, lo == CSR ? (int)vc::choice("pat", 0, 2, 1) : 0);
            if (lo == TABLE_Fixed)
            {
                refill(a, ma, n, 0);
            }
            if (c)
                b.Compress();
            if constexpr (lo == CSR)
                if (c && n && a.RawDataVector().size() != b.RawDataVector().size())
                {
                    vc::check(vc::aborts([&]() { a.SwapData(b); }), "swap_of_different_storage_rejected");
                    break;
                }
            a.SwapData(b);
            same(a, mb, "swapped_first");
            same(b, ma, "swapped_second");
            op(a, mb, 3);
            same(a, mb, "swapped_first_after_change");
            same(b, ma, "swapped_second_unaffected");
        }
    }
    static void rejects()
    {
        counter = 0;
        Arr a;
        Model m;
        refill(a, m, (int)vc::choice("n", 0, 2), (int)vc::choice("pat", 0, 2));
        if (vc::choice("compressed", 0, 1))
            a.Compress();
        DIdx i = vc::integer("i", -3, 5);
        rowsize j = (rowsize)vc::integer("j", -3, 5);
        bool in = false;
        for (int k = 0; k < m.n; k++)
            in = in || (i == k && j >= 0 && j < m.siz[k]);
        double x = 0;
        bool ab = vc::aborts([&]() { x = a(i, j); });
        vc::check(ab == !in, "access_rejected_iff_outside");
    }
    static void resizeRejects()
    {
        counter = 0;
        Arr a;
        Model m;
        refill(a, m, 2, 0);
        DIdx i = vc::integer("i", -3, 5);
        rowsize s = (rowsize)vc::integer("s", 0, 5);
        if constexpr (!var)
            vc::check(vc::aborts([&]() { a.ResizeRow(i, s); }), "fixed_rows_cannot_be_resized");
        else if constexpr (isTABLE_Max(lo))
        {
            bool ab = vc::aborts([&]() { a.ResizeRow(i, s); });
            vc::check(ab == !(i >= 0 && i < 2 && s <= 3), "row_resize_rejected_iff_outside_or_too_long");
        }
        else
        {
            rowsize c = (rowsize)vc::choice("c", 0, 4);
            bool ab = vc::aborts([&]() { a.ResizeRow(i, c); });
            vc::check(ab == !(i >= 0 && i < 2), "row_resize_rejected_iff_outside");
            a.Compress();
            vc::check(vc::aborts([&]() { a.ResizeRow(0, 1); }) && vc::aborts([&]() { a.Resize(3); }), "compressed_must_be_decompressed_first");
        }
    }
    // row addresses are contiguous in row order where storage is contiguous; past-the-end is the end of the last row
    static void addresses()
    {
        counter = 0;
        Arr a;
        Model m;
        refill(a, m, (int)vc::choice("n", 1, MR), (int)vc::choice("pat", 0, 3));
        a.Compress();
        long w = 0;
        for (int i = 0; i <= m.n; i++)
        {
            vc::check(a[i] - a.data() == w, "row_address", i);
            if (i < m.n)
                w += isTABLE_Max(lo) ? 3 : m.siz[i];
        }
        vc::check((long)a.DataSize() == w, "data_size");
        if constexpr (lo != CSR)
            vc::check(a.RowSizeField() == (isTABLE_Max(lo) ? 3 : m.siz[0]), "row_field_width");
    }
};
using LSF = L<2, 2>;
using LF = L<DynamicSize, DynamicSize>;
using LSM = L<NonUniformSize, 3>;
using LM = L<NonUniformSize, DynamicSize>;
using LC = L<NonUniformSize, NonUniformSize>;
#define LAYOUT(nm, T)                                     \
    CONTRACT(nm##_history) { T::history(); }              \
    CONTRACT(nm##_copy_swap) { T::copySwap(); }           \
    CONTRACT(nm##_access_rejects) { T::rejects(); }       \
    CONTRACT(nm##_resize_rejects) { T::resizeRejects(); } \
    CONTRACT(nm##_addresses) { T::addresses(); }
LAYOUT(static_fixed, LSF)
LAYOUT(fixed, LF)
LAYOUT(static_max, LSM)
LAYOUT(max, LM)
LAYOUT(csr, LC)
CONTRACT(layouts)
{
    vc::check(LSF::lo == TABLE_StaticFixed && LF::lo == TABLE_Fixed && LSM::lo == TABLE_StaticMax && LM::lo == TABLE_Max && LC::lo == CSR, "layout_from_sizes");
    vc::check(L<2, DynamicSize>::lo == TABLE_StaticFixed && L<2, NonUniformSize>::lo == TABLE_StaticFixed && L<DynamicSize, 4>::lo == TABLE_Fixed && L<DynamicSize, NonUniformSize>::lo == TABLE_Fixed, "max_ignored_for_fixed");
}
// father/son pair: one index range over both
template <class P>
static void pairOf(P &p, int nf, int ns)
{
    p.father = std::make_shared<std::decay_t<decltype(*p.father)>>();
    p.son = std::make_shared<std::decay_t<decltype(*p.son)>>();
    p.father->Resize(nf);
    p.son->Resize(ns);
}
CONTRACT(pair_index)
{
    counter = 0;
    int nf = (int)vc::choice("nf", 0, 2), ns = (int)vc::choice("ns", 0, 2);
    ArrayPair<ParArray<real, NonUniformSize>> p;
    pairOf(p, nf, ns);
    vc::check(p.Size() == nf + ns, "pair_size");
    double v[4][2];
    for (int i = 0; i < nf + ns; i++)
    {
        p.ResizeRow(i, 1 + i % 2);
        for (int j = 0; j < 1 + i % 2; j++)
            p(i, j) = v[i][j] = fresh();
    }
    if (vc::choice("compress", 0, 1))
        p.CompressBoth();
    for (int i = 0; i < nf + ns; i++)
    {
        vc::check(p.RowSize(i) == 1 + i % 2, "pair_row_size", i);
        for (int j = 0; j < 1 + i % 2; j++)
        {
            vc::eq(p(i, j), v[i][j], "pair_value", i, j);
            vc::eq(i < nf ? (*p.father)(i, j) : (*p.son)(i - nf, j), v[i][j], "pair_split", i, j);
            vc::eq(p[i][j], v[i][j], "pair_row_pointer", i, j);
        }
    }
    DIdx q = vc::integer("q", -2, 6);
    double x = 0;
    bool ab = vc::aborts([&]() { x = p(q, 0); });
    vc::check(ab == !(q >= 0 && q < nf + ns), "pair_rejects_outside");
}
