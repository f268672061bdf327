// P08: the global numbering (offsets per rank) and its inverse.
#include "vmpi_dnds.hpp"
#include "DNDS/IndexMapping.hpp"
using namespace DNDS;
using DIdx = DNDS::index;

static const DIdx BIG = DIdx(1) << 40;

// every rank states its own length; all ranks end up with the same offsets
CONTRACT(offsets)
{
    int np = (int)vc::choice("np", 1, 4);
    DIdx len[4];
    for (int r = 0; r < np; r++)
        len[r] = vc::integer("len", 0, BIG, r);
    GlobalOffsetsMapping m[4];
    vmpi::run(np, [&](int r)
              {
        MPIInfo mpi;
        mpi.setWorld();
        vc::check(mpi.rank == r && mpi.size == np, "world");
        m[r] = GlobalOffsetsMapping();
        m[r].setMPIAlignBcast(mpi, len[r]); });
    for (int r = 0; r < np; r++)
    {
        DIdx s = 0;
        vc::check((int)m[r].RLengths().size() == np && (int)m[r].ROffsets().size() == np + 1, "one_entry_per_rank");
        for (int k = 0; k < np; k++)
        {
            vc::ieq(m[r].RLengths()[k], len[k], "length_of_rank", r, k);
            vc::ieq(m[r].ROffsets()[k], s, "offset_is_prefix_sum", r, k);
            s += len[k];
        }
        vc::ieq(m[r].globalSize(), s, "global_size", r);
    }
}
static void fill(GlobalOffsetsMapping &m, int np, DIdx *len)
{
    m.RLengths().resize(np);
    m.ROffsets().resize(np + 1);
    m.ROffsets()[0] = 0;
    for (int r = 0; r < np; r++)
    {
        len[r] = vc::integer("len", 0, BIG, r);
        m.RLengths()[r] = len[r];
        m.ROffsets()[r + 1] = m.ROffsets()[r] + len[r];
    }
}
CONTRACT(search_inverts)
{
    int np = (int)vc::choice("np", 1, 4);
    DIdx len[4];
    GlobalOffsetsMapping m;
    fill(m, np, len);
    DIdx q = vc::integer("q", -BIG * 8, BIG * 8);
    MPI_int rank = -7;
    DIdx val = -7;
    bool ok = m.search(q, rank, val);
    vc::check(ok == (q >= 0 && q < m.globalSize()), "found_iff_in_range");
    auto t = m.search(q);
    vc::check(std::get<0>(t) == ok, "tuple_form_same");
    if (ok)
    {
        vc::check(rank >= 0 && rank < np, "rank_valid");
        vc::check(val >= 0 && val < len[rank], "local_index_in_rank");
        vc::ieq(m(rank, val), q, "round_trip_global");
        vc::check(std::get<1>(t) == rank && std::get<2>(t) == val, "tuple_form_values");
    }
}
CONTRACT(map_then_search)
{
    int np = (int)vc::choice("np", 1, 4);
    DIdx len[4];
    GlobalOffsetsMapping m;
    fill(m, np, len);
    int r = (int)vc::choice("r", 0, np - 1);
    DIdx v = vc::integer("v", 0, BIG);
    vc::assume(v < len[r]);
    DIdx g = m(r, v), s = 0;
    for (int k = 0; k < r; k++)
        s += len[k];
    vc::ieq(g, s + v, "offset_plus_local");
    MPI_int rank = -7;
    DIdx val = -7;
    vc::check(m.search(g, rank, val) && rank == r && val == v, "round_trip_local");
}
// an end position is accepted (it names the end of a rank), everything else outside is rejected
CONTRACT(rejects)
{
    int np = (int)vc::choice("np", 0, 3);
    DIdx len[4];
    GlobalOffsetsMapping m;
    fill(m, np, len);
    int r = (int)vc::choice("r", -1, np + 1);
    DIdx v = vc::integer("v", -BIG, BIG);
    DIdx g = 0;
    bool ab = vc::aborts([&]() { g = m(r, v); });
    bool good = r >= 0 && r < np && v >= 0 && v <= len[r < 0 || r >= np ? 0 : r];
    vc::check(ab == !good, "rejected_iff_outside");
}
CONTRACT(empty_mapping)
{
    GlobalOffsetsMapping m;
    vc::ieq(m.globalSize(), 0, "empty_size");
    MPI_int rank;
    DIdx val;
    vc::check(!m.search(vc::integer("q", -BIG, BIG), rank, val), "empty_search");
}
