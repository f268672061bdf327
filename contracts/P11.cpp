// P11: ghost communication (ArrayTransformer) over every data layout and communication strategy.
#include "vmpi_dnds.hpp"
#include "DNDS/ArrayTransformer.hpp"
using namespace DNDS;
using DIdx = DNDS::index;
static constexpr int MAXROW = 3, MAXCOL = 3;

enum Mode
{
    Indexed,
    Packed,
    OneByOne,
    Synced,
    NMODE
};
static void setMode(int mode)
{
    auto &S = DNDS::MPI::CommStrategy::Instance();
    S.SetArrayStrategy(mode == Packed ? DNDS::MPI::CommStrategy::InSituPack : DNDS::MPI::CommStrategy::HIndexed);
    S._use_async_one_by_one = mode == OneByOne;
    S._use_strong_sync_wait = mode == Synced;
}
struct Case
{
    int np;
    int rows[3];              // rows of each rank
    int siz[3][MAXROW];       // row sizes (layouts with variable rows)
    bool pull[3][9];          // rank r pulls global row g
    int owner(int g) const
    {
        int r = 0;
        while (g >= rows[r])
            g -= rows[r], r++;
        return r;
    }
    int local(int g) const
    {
        int r = 0;
        while (g >= rows[r])
            g -= rows[r], r++;
        return g;
    }
    int total() const
    {
        int s = 0;
        for (int r = 0; r < np; r++)
            s += rows[r];
        return s;
    }
};
// values: father row (r, i, j) at epoch e; what rank r writes into its ghost g
struct Vals
{
    double f[2][3][MAXROW][MAXCOL], w[3][9][MAXCOL];
    Vals()
    {
        for (int e = 0; e < 2; e++)
            for (int r = 0; r < 3; r++)
                for (int i = 0; i < MAXROW; i++)
                    for (int j = 0; j < MAXCOL; j++)
                        f[e][r][i][j] = vc::real("f", -1e3, 1e3, (e * 3 + r) * 9 + i * 3 + j);
        for (int r = 0; r < 3; r++)
            for (int g = 0; g < 9; g++)
                for (int j = 0; j < MAXCOL; j++)
                    w[r][g][j] = vc::real("w", -1e3, 1e3, r * 27 + g * 3 + j);
    }
};
template <class TTrans>
struct Layout;
template <rowsize rs, rowsize rm>
struct L
{
    using Trans = ArrayTransformer<real, rs, rm>;
    using Arr = typename Trans::TArray;
    static constexpr DataLayout lo = Arr::_dataLayout;
    static int siz(const Case &c, int r, int i) { return isTABLE_Fixed(lo) ? 2 : c.siz[r][i]; }
    static void shape(Arr &a, const Case &c, int r)
    {
        if constexpr (lo == TABLE_StaticFixed)
            a.Resize(c.rows[r]);
        else if constexpr (lo == TABLE_Fixed)
            a.Resize(c.rows[r], 2);
        else if constexpr (lo == TABLE_Max)
            a.Resize(c.rows[r], 3);
        else
            a.Resize(c.rows[r]);
        if constexpr (!isTABLE_Fixed(lo))
            for (int i = 0; i < c.rows[r]; i++)
                a.ResizeRow(i, c.siz[r][i]);
    }
    static void put(Arr &a, const Case &c, const Vals &v, int e, int r)
    {
        for (int i = 0; i < c.rows[r]; i++)
            for (int j = 0; j < siz(c, r, i); j++)
                a(i, j) = v.f[e][r][i][j];
    }
    static void fatherIs(Arr &a, const Case &c, const Vals &v, int e, int r, const char *what)
    {
        for (int i = 0; i < c.rows[r]; i++)
        {
            vc::check(a.RowSize(i) == siz(c, r, i), "father_row_sizes_unchanged", r, i);
            for (int j = 0; j < siz(c, r, i); j++)
                vc::eq(a(i, j), v.f[e][r][i][j], what, r, i * 3 + j);
        }
    }
    static void sonIs(Trans &t, const Case &c, const Vals &v, int e, int r)
    {
        int k = 0;
        for (int g = 0; g < c.total(); g++)
            if (c.pull[r][g])
            {
                int o = c.owner(g), i = c.local(g);
                vc::check(t.son->RowSize(k) == siz(c, o, i), "ghost_row_size", r, g);
                for (int j = 0; j < siz(c, o, i); j++)
                    vc::eq((*t.son)(k, j), v.f[e][o][i][j], e ? "ghost_row_equals_owner_row_after_change" : "ghost_row_equals_owner_row", r, g * 3 + j);
                k++;
            }
        vc::check(t.son->Size() == k, "ghost_count", r);
    }
    static void run(const Case &c, const Vals &v, int mode, bool byPush)
    {
        setMode(mode);
        vmpi::run(c.np, [&](int r)
                  {
            MPIInfo mpi;
            mpi.setWorld();
            auto father = std::make_shared<Arr>(mpi);
            auto son = std::make_shared<Arr>(mpi);
            {
                Trans t;
                shape(*father, c, r);
                put(*father, c, v, 0, r);
                t.setFatherSon(father, son);
                t.createFatherGlobalMapping();
                if (byPush)
                {
                    std::vector<DIdx> pi, ps{0};
                    for (int p = 0; p < c.np; p++)
                    {
                        for (int g = 0; g < c.total(); g++)
                            if (c.pull[p][g] && c.owner(g) == r)
                                pi.push_back(c.local(g));
                        ps.push_back(pi.size());
                    }
                    t.createGhostMapping(pi, ps);
                }
                else
                {
                    std::vector<DIdx> want;
                    for (int g = 0; g < c.total(); g++)
                        if (c.pull[r][g])
                            want.push_back(g);
                    t.createGhostMapping(want);
                }
                t.createMPITypes();
                vc::check(father->AssertConsistent(), "consistent");
                vc::ieq(father->globalSize(), c.total(), "global_size", r);
                t.pullOnce();
                fatherIs(*father, c, v, 0, r, "pull_leaves_owner_data");
                sonIs(t, c, v, 0, r);
                // persistent form, data changed in between
                t.initPersistentPull();
                t.initPersistentPush();
                put(*father, c, v, 1, r);
                t.startPersistentPull();
                t.waitPersistentPull();
                fatherIs(*father, c, v, 1, r, "pull_leaves_owner_data");
                sonIs(t, c, v, 1, r);
                t.startPersistentPull();
                t.waitPersistentPull();
                sonIs(t, c, v, 1, r);
                // push back
                int k = 0;
                for (int g = 0; g < c.total(); g++)
                    if (c.pull[r][g])
                    {
                        for (int j = 0; j < siz(c, c.owner(g), c.local(g)); j++)
                            (*son)(k, j) = v.w[r][g][j];
                        k++;
                    }
                t.startPersistentPush();
                t.waitPersistentPush();
                k = 0;
                for (int g = 0; g < c.total(); g++)
                    if (c.pull[r][g])
                    {
                        for (int j = 0; j < siz(c, c.owner(g), c.local(g)); j++)
                            vc::eq((*son)(k, j), v.w[r][g][j], "push_leaves_ghost_data", r, g * 3 + j);
                        k++;
                    }
                for (int g = 0; g < c.total(); g++)
                    if (c.owner(g) == r)
                    {
                        int n = 0, p0 = -1, i = c.local(g);
                        for (int p = 0; p < c.np; p++)
                            if (c.pull[p][g])
                                n++, p0 = p;
                        vc::check(father->RowSize(i) == siz(c, r, i), "father_row_sizes_unchanged", r, i);
                        for (int j = 0; j < siz(c, r, i); j++)
                            if (n == 0)
                                vc::eq((*father)(i, j), v.f[1][r][i][j], "push_leaves_other_rows", r, g * 3 + j);
                            else if (n == 1)
                                vc::eq((*father)(i, j), v.w[p0][g][j], "push_writes_owner_row", r, g * 3 + j);
                    }
                t.clearPersistentPull();
                t.clearPersistentPush();
                t.pushOnce();
                t.pullOnce();
                k = 0;
                for (int g = 0; g < c.total(); g++)
                    if (c.pull[r][g])
                    {
                        int n = 0;
                        for (int p = 0; p < c.np; p++)
                            n += c.pull[p][g];
                        for (int j = 0; j < siz(c, c.owner(g), c.local(g)); j++)
                            if (n == 1)
                                vc::eq((*son)(k, j), v.w[r][g][j], "push_then_pull_restores_ghost", r, g * 3 + j);
                        k++;
                    }
            }
            vc::check(vmpi::liveReqs[r] == 0 && vmpi::liveTypes[r] == 0, "requests_and_types_released", r); });
    }
};
static void rowSizes(Case &c, int pat)
{
    static const int P[3][3][MAXROW] = {{{1, 3, 2}, {2, 1, 1}, {3, 1, 2}}, {{3, 1, 2}, {1, 2, 3}, {1, 1, 2}}, {{0, 2, 1}, {0, 3, 0}, {2, 0, 1}}};
    for (int r = 0; r < 3; r++)
        for (int i = 0; i < MAXROW; i++)
            c.siz[r][i] = P[pat][r][i];
}
static void clear(Case &c)
{
    for (int r = 0; r < 3; r++)
        for (int g = 0; g < 9; g++)
            c.pull[r][g] = false;
}
// two ranks: every pull pattern
template <class LL>
static void two(int mode)
{
    Case c;
    c.np = 2;
    clear(c);
    int shape = (int)vc::choice("shape", 0, 2);
    c.rows[0] = shape == 1 ? 0 : 2, c.rows[1] = shape == 2 ? 0 : shape == 1 ? 2 : 1;
    bool var = !isTABLE_Fixed(LL::lo);
    rowSizes(c, var ? (int)vc::choice("pattern", 0, 2) : 0);
    for (int r = 0; r < 2; r++)
    {
        int m = (int)vc::choice("mask", 0, (1 << c.total()) - 1, r);
        for (int g = 0; g < c.total(); g++)
            c.pull[r][g] = m >> g & 1;
    }
    Vals v;
    LL::run(c, v, mode, false);
}
// three ranks: selected patterns (ring, all-to-one, one-to-all, nobody, everything, chain with an empty rank)
template <class LL>
static void three(int mode, bool byPush)
{
    Case c;
    c.np = 3;
    clear(c);
    int sh = (int)vc::choice("shape", 0, 2);
    static const int S[3][3] = {{1, 2, 1}, {2, 0, 2}, {0, 3, 1}};
    for (int r = 0; r < 3; r++)
        c.rows[r] = S[sh][r];
    rowSizes(c, isTABLE_Fixed(LL::lo) ? 0 : (int)vc::choice("pattern", 0, 2));
    int kind = (int)vc::choice("kind", 0, 6);
    for (int r = 0; r < 3; r++)
        for (int g = 0; g < c.total(); g++)
        {
            int o = c.owner(g);
            bool b = false;
            switch (kind)
            {
            case 0: b = o == (r + 1) % 3; break;
            case 1: b = r == 2; break;
            case 2: b = o == 1 && r != 1; break;
            case 3: b = false; break;
            case 4: b = true; break;
            case 5: b = o == r + 1 && c.local(g) != 0; break;
            default: b = g % 3 == r; break;
            }
            c.pull[r][g] = b;
        }
    Vals v;
    LL::run(c, v, mode, byPush);
}
using LSF = L<2, 2>;
using LF = L<DynamicSize, DynamicSize>;
using LSM = L<NonUniformSize, 3>;
using LM = L<NonUniformSize, DynamicSize>;
using LC = L<NonUniformSize, NonUniformSize>;
#define LAYOUT(nm, T)                                                     \
    CONTRACT(nm##_two_indexed) { two<T>(Indexed); }                       \
    CONTRACT(nm##_two_packed) { two<T>(Packed); }                         \
    CONTRACT(nm##_two_one_by_one) { two<T>(OneByOne); }                   \
    CONTRACT(nm##_three_indexed) { three<T>(Indexed, false); }            \
    CONTRACT(nm##_three_packed) { three<T>(Packed, false); }              \
    CONTRACT(nm##_three_one_by_one) { three<T>(OneByOne, false); }        \
    CONTRACT(nm##_three_synced) { three<T>(Synced, false); }              \
    CONTRACT(nm##_pushed_indexed) { three<T>(Indexed, true); }            \
    CONTRACT(nm##_pushed_packed) { three<T>(Packed, true); }
LAYOUT(static_fixed, LSF)
LAYOUT(fixed, LF)
LAYOUT(static_max, LSM)
LAYOUT(max, LM)
LAYOUT(csr, LC)
