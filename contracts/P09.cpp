// P09: local numbering of own + ghost entries (OffsetAscendIndexMapping), built collectively by all ranks.
#include "vmpi_dnds.hpp"
#include "DNDS/IndexMapping.hpp"
using namespace DNDS;
using DIdx = DNDS::index;
static const DIdx BIG = DIdx(1) << 40;

struct World
{
    int np;
    DIdx len[4], off[5];
    void make(int n)
    {
        np = n;
        off[0] = 0;
        for (int r = 0; r < np; r++)
            len[r] = vc::integer("len", 0, BIG, r), off[r + 1] = off[r] + len[r];
    }
    int owner(DIdx g) const
    {
        for (int r = 0; r < np; r++)
            if (g < off[r + 1])
                return r;
        return -1;
    }
};
// result of one rank, copied out of the rank's program
struct Res
{
    int nG, nP;
    int gs[4], gst[5], ps[4], pst[5];
    DIdx gi[16], pi[16];
};
static void copyOut(Res &o, const OffsetAscendIndexMapping &m, int np)
{
    vc::check((int)m.ghostSizes.size() == np && (int)m.ghostStart.size() == np + 1 && (int)m.pushIndexSizes.size() == np && (int)m.pushIndexStarts.size() == np + 1, "one_entry_per_rank");
    o.nG = (int)m.ghostIndex.size(), o.nP = (int)m.pushingIndexGlobal.size();
    vc::check(o.nG <= 16 && o.nP <= 16, "sizes_bounded_by_requests");
    for (int r = 0; r < np; r++)
        o.gs[r] = m.ghostSizes[r], o.ps[r] = m.pushIndexSizes[r];
    for (int r = 0; r <= np; r++)
        o.gst[r] = m.ghostStart[r], o.pst[r] = m.pushIndexStarts[r];
    for (int k = 0; k < o.nG; k++)
        o.gi[k] = m.ghostIndex[k];
    for (int k = 0; k < o.nP; k++)
        o.pi[k] = m.pushingIndexGlobal[k];
}
static void consistent(const World &W, const Res *res)
{
    int np = W.np;
    for (int r = 0; r < np; r++)
    {
        const Res &o = res[r];
        vc::check(o.gst[0] == 0 && o.gst[np] == o.nG && o.pst[0] == 0 && o.pst[np] == o.nP, "starts_span_lists", r);
        for (int p = 0; p < np; p++)
        {
            vc::check(o.gst[p + 1] == o.gst[p] + o.gs[p] && o.pst[p + 1] == o.pst[p] + o.ps[p], "starts_accumulate_sizes", r, p);
            // what p pushes to r is what r pulls from p, in the same order
            const Res &q = res[p];
            vc::check(q.ps[r] == o.gs[p], "push_count_equals_pull_count", r, p);
            if (q.ps[r] == o.gs[p])
                for (int k = 0; k < o.gs[p]; k++)
                    vc::ieq(q.pi[q.pst[r] + k], o.gi[o.gst[p] + k], "push_list_equals_pull_list", r, p);
            for (int k = o.gst[p]; k < o.gst[p + 1]; k++)
                vc::check(o.gi[k] >= W.off[p] && o.gi[k] < W.off[p + 1], "ghost_listed_under_its_owner", r, p);
        }
    }
}
static void searches(const World &W, int r, const OffsetAscendIndexMapping &m)
{
    int np = W.np, nG = (int)m.ghostIndex.size();
    // forward map and its inverse on every ghost
    for (int p = 0; p < np; p++)
        for (int k = 0; k < m.ghostSizes[p]; k++)
        {
            DIdx g = m.ghostIndex[m.ghostStart[p] + k];
            bool own = g >= W.off[r] && g < W.off[r + 1];
            vc::ieq(m(p, k), g, "operator_by_rank", p, k);
            vc::ieq(m(-1, W.len[r] + m.ghostStart[p] + k), g, "operator_appended", p, k);
            MPI_int rank = -9;
            DIdx v = -9;
            vc::check(m.searchInGhost(g, p, v) && v == k, "search_in_ghost_of_owner", p, k);
            vc::check(m.searchInAllGhost(g, rank, v) && rank == p && v == m.ghostStart[p] + k, "search_in_all_ghost", p, k);
            rank = -9;
            vc::check(m.search(g, rank, v), "search_finds", p, k);
            vc::check(own ? (rank == -1 && v == g - W.off[r]) : (rank == p && v == m.ghostStart[p] + k), "search_place", p, k);
            vc::check(m.search_indexAppend(g, rank, v), "append_finds", p, k);
            vc::check(own ? (rank == -1 && v == g - W.off[r]) : (rank == p && v == W.len[r] + m.ghostStart[p] + k), "append_place", p, k);
            vc::ieq(m(-1, v), g, "append_round_trip", p, k);
            vc::check(m.search_indexRank(g, rank, v), "rank_finds", p, k);
            vc::check(own ? (rank == -1 && v == g - W.off[r]) : (rank == p && v == k), "rank_place", p, k);
            vc::ieq(m(rank, v), g, "rank_round_trip", p, k);
            vc::check(std::get<0>(m.search(g)) && std::get<0>(m.search_indexRank(g)) && std::get<0>(m.search_indexAppend(g)), "tuple_found", p, k);
            vc::check(std::get<2>(m.search_indexRank(g)) == v && std::get<1>(m.search_indexRank(g)) == rank, "tuple_values", p, k);
        }
    (void)nG;
}
static void anyQuery(const World &W, int r, const OffsetAscendIndexMapping &m, DIdx q)
{
    bool own = q >= W.off[r] && q < W.off[r + 1];
    bool gh = false;
    for (auto g : m.ghostIndex)
        gh = gh || g == q;
    MPI_int rank;
    DIdx v;
    vc::check(m.searchInMain(q, v) == own, "main_found_iff_own");
    vc::check(m.searchInAllGhost(q, rank, v) == gh, "ghost_found_iff_listed");
    vc::check(m.search(q, rank, v) == (own || gh), "found_iff_own_or_listed");
    vc::check(m.search_indexAppend(q, rank, v) == (own || gh), "append_found_iff_own_or_listed");
    vc::check(m.search_indexRank(q, rank, v) == (own || gh), "rank_found_iff_own_or_listed");
}

// every rank asks for any multiset of global indices (possibly its own, possibly repeated)
static void pull(int np, const int *nReq, bool query)
{
    World W;
    W.make(np);
    DIdx req[4][4];
    for (int r = 0; r < np; r++)
        for (int k = 0; k < nReq[r]; k++)
        {
            req[r][k] = vc::integer("req", 0, 4 * BIG, 4 * r + k);
            vc::assume(req[r][k] < W.off[np]);
        }
    DIdx q = query ? vc::integer("q", -BIG, 5 * BIG) : 0;
    Res res[4];
    vmpi::run(np, [&](int r)
              {
        MPIInfo mpi;
        mpi.setWorld();
        GlobalOffsetsMapping G;
        G.setMPIAlignBcast(mpi, W.len[r]);
        std::vector<DIdx> want(req[r], req[r] + nReq[r]);
        OffsetAscendIndexMapping m(W.off[r], W.len[r], want, G, mpi);
        // exactly the requested set, ascending, without repetition
        for (size_t k = 0; k + 1 < m.ghostIndex.size(); k++)
            vc::check(m.ghostIndex[k] < m.ghostIndex[k + 1], "ghosts_ascending_unique", r, (int)k);
        for (int k = 0; k < nReq[r]; k++)
        {
            bool in = false;
            for (auto g : m.ghostIndex)
                in = in || g == req[r][k];
            vc::check(in, "every_request_listed", r, k);
        }
        for (size_t k = 0; k < m.ghostIndex.size(); k++)
        {
            bool in = false;
            for (int j = 0; j < nReq[r]; j++)
                in = in || m.ghostIndex[k] == req[r][j];
            vc::check(in, "only_requests_listed", r, (int)k);
        }
        if (query)
            anyQuery(W, r, m, q);
        else
            searches(W, r, m);
        copyOut(res[r], m, np); });
    consistent(W, res);
}
CONTRACT(pull_1) { int n[] = {(int)vc::choice("n", 0, 3)}; pull(1, n, false); }
CONTRACT(pull_2)
{
    int a = (int)vc::choice("a", 0, 2), b = (int)vc::choice("b", 0, 2);
    int n[] = {a, b};
    pull(2, n, false);
}
CONTRACT(pull_3)
{
    int w = (int)vc::choice("w", 0, 2);
    int n[] = {w == 0 ? 2 : 1, w == 1 ? 2 : 1, w == 2 ? 2 : 0};
    pull(3, n, false);
}
CONTRACT(query_2) { int n[] = {2, 1}; pull(2, n, true); }
CONTRACT(query_3) { int n[] = {1, 0, 2}; pull(3, n, true); }

// an index outside the global range is rejected on the rank that asks for it
CONTRACT(pull_rejects)
{
    DIdx len = vc::integer("len", 0, BIG), g = vc::integer("g", -BIG, 2 * BIG);
    vmpi::run(1, [&](int)
              {
        MPIInfo mpi;
        mpi.setWorld();
        GlobalOffsetsMapping G;
        G.setMPIAlignBcast(mpi, len);
        bool ab = vc::aborts([&]() { std::vector<DIdx> w{g}; OffsetAscendIndexMapping m(0, len, w, G, mpi); });
        vc::check(ab == !(g >= 0 && g < len), "rejected_iff_outside"); });
}

// the owner decides: rank r pushes given local entries to each rank
static void push(int np, const int (*nPush)[3])
{
    World W;
    W.make(np);
    DIdx loc[3][3][2];
    for (int r = 0; r < np; r++)
        for (int p = 0; p < np; p++)
            for (int k = 0; k < nPush[r][p]; k++)
            {
                loc[r][p][k] = vc::integer("loc", 0, BIG, r * 3 + p, k);
                vc::assume(loc[r][p][k] < W.len[r]);
            }
    Res res[4];
    vmpi::run(np, [&](int r)
              {
        MPIInfo mpi;
        mpi.setWorld();
        GlobalOffsetsMapping G;
        G.setMPIAlignBcast(mpi, W.len[r]);
        std::vector<DIdx> pi, ps{0};
        for (int p = 0; p < np; p++)
        {
            for (int k = 0; k < nPush[r][p]; k++)
                pi.push_back(loc[r][p][k]);
            ps.push_back((DIdx)pi.size());
        }
        OffsetAscendIndexMapping m(W.off[r], W.len[r], pi, ps, G, mpi);
        copyOut(res[r], m, np);
        for (int p = 0; p < np; p++)
            for (int k = 0; k < m.ghostSizes[p]; k++)
                vc::ieq(m(p, k), m.ghostIndex[m.ghostStart[p] + k], "operator_by_rank", p, k); });
    consistent(W, res);
    for (int r = 0; r < np; r++)
        for (int p = 0; p < np; p++)
        {
            vc::check(res[r].ps[p] == nPush[r][p], "pushes_as_stated", r, p);
            if (res[r].ps[p] == nPush[r][p])
                for (int k = 0; k < nPush[r][p]; k++)
                    vc::ieq(res[r].pi[res[r].pst[p] + k], W.off[r] + loc[r][p][k], "pushed_entry_is_stated_entry", r, p);
        }
}
CONTRACT(push_2)
{
    int n[3][3] = {};
    for (int r = 0; r < 2; r++)
        for (int p = 0; p < 2; p++)
            n[r][p] = (int)vc::choice("n", 0, 1 + (r != p), r * 2 + p);
    push(2, n);
}
CONTRACT(push_3)
{
    int n[3][3] = {};
    for (int r = 0; r < 3; r++)
        for (int p = 0; p < 3; p++)
            n[r][p] = r == p ? 0 : (int)vc::choice("n", 0, 1, r * 3 + p);
    push(3, n);
}
CONTRACT(operator_rejects)
{
    DIdx len = vc::integer("len", 0, BIG);
    DIdx g[2] = {vc::integer("g", 0, BIG, 0), vc::integer("g", 0, BIG, 1)};
    vc::assume(g[0] < g[1] && g[1] < len);
    vmpi::run(1, [&](int)
              {
        MPIInfo mpi;
        mpi.setWorld();
        GlobalOffsetsMapping G;
        G.setMPIAlignBcast(mpi, len);
        std::vector<DIdx> w{g[1], g[0]};
        OffsetAscendIndexMapping m(0, len, w, G, mpi);
        int r = (int)vc::choice("r", -2, 2);
        DIdx v = vc::integer("v", -3, 2 * BIG);
        bool ok = r == -1 ? v >= 0 && v < len + 2 : r == 0 && v >= 0 && v < 2;
        DIdx x = 0;
        bool ab = vc::aborts([&]() { x = m(r, v); });
        vc::check(ab == !ok, "rejected_iff_outside"); });
}
