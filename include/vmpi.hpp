// A specification of the MPI operations DNDS uses, as executable contracts: N ranks of one program, re-executed from scratch until the
// data they wait for is available.
//  * collectives match by call order; every rank must enter the same operation;
//  * point-to-point: non-overtaking per (source, destination, tag); a receive buffer is unspecified from start until its wait completes;
//    a send completes only after the matching receive has been started (rendezvous - the strongest blocking behaviour MPI allows),
//    the send buffer must not change before that;
//  * no rank able to proceed == deadlock, reported as a failed obligation; a receive shorter than the message is an error.
#pragma once
#include <mpi.h>
#include <cstring>
#include <cstdlib>
#include "vc.hpp"

extern "C" int __vc_suspendable(void (*f)(void *), void *ctx); // 1: left by __vc_suspend, 0: returned
extern "C" void __vc_suspend();

namespace vmpi
{
    constexpr int MAXR = 4, MAXOP = 256, MAXMSG = 256, MAXTYPE = 64, MAXREQ = 256, MAXBLK = 16;
    struct Coll
    {
        int kind, root;
        char *data;          // this rank's contribution
        int cnt[MAXR], dsp[MAXR]; // per destination, in bytes
    };
    struct Msg
    {
        int src, dst, tag, seq;
        bool sent, posted;
        char *data;
        long n;
    };
    struct Type
    {
        bool used;
        int n;
        long disp[MAXBLK], len[MAXBLK]; // bytes
        long total;
    };
    struct Req
    {
        bool used, send, persistent, active;
        char *buf;
        Type *type;
        long n;
        int peer, tag;
        int msg;
        char *snap;
    };
    inline int np = 1, cur = 0;
    inline Coll coll[MAXR][MAXOP];
    inline int nColl[MAXR], pos[MAXR];
    inline Msg msgs[MAXMSG];
    inline int nMsg;
    inline int seqS[MAXR][MAXR], seqR[MAXR][MAXR]; // per (src,dst): the tags DNDS uses are functions of the pair
    inline Type types[MAXTYPE];
    inline int nType;
    inline Req reqs[MAXREQ];
    inline int nReq;
    inline bool progress, deadlock;
    inline int liveTypes[MAXR], liveReqs[MAXR];

    inline void fail(bool ok, const char *what) { vc::check(ok, what); }

    inline long basic(MPI_Datatype t)
    {
        if (t == MPI_BYTE || t == MPI_INT8_T || t == MPI_UINT8_T || t == MPI_CHAR)
            return 1;
        if (t == MPI_INT16_T || t == MPI_UINT16_T)
            return 2;
        if (t == MPI_INT || t == MPI_INT32_T || t == MPI_UINT32_T || t == MPI_FLOAT || t == MPI_REAL4)
            return 4;
        if (t == MPI_DOUBLE || t == MPI_REAL8 || t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_LONG || t == MPI_LONG_LONG)
            return 8;
        return t == MPI_DOUBLE_INT ? 16 : 0;
    }
    inline Type *derived(MPI_Datatype t)
    {
        for (int i = 0; i < nType; i++)
            if ((void *)t == (void *)&types[i])
                return &types[i];
        return nullptr;
    }
    inline char *dup(const void *p, long n)
    {
        char *r = (char *)malloc(n + 1);
        if (n > 0)
            memcpy(r, p, n);
        return r;
    }
    // pack / unpack a typed buffer
    inline long bytes(const Req &r) { return r.type ? r.type->total * r.n : r.n; }
    inline char *pack(const Req &r)
    {
        if (!r.type)
            return dup(r.buf, r.n);
        char *o = (char *)malloc(r.type->total + 1);
        long k = 0;
        for (int i = 0; i < r.type->n; i++)
        {
            if (r.type->len[i] > 0)
                memcpy(o + k, r.buf + r.type->disp[i], r.type->len[i]);
            k += r.type->len[i];
        }
        return o;
    }
    inline void unpack(const Req &r, const char *d, long n)
    {
        if (!r.type)
        {
            if (n > 0)
                memcpy(r.buf, d, n);
            return;
        }
        long k = 0;
        for (int i = 0; i < r.type->n && k < n; i++)
        {
            long l = r.type->len[i] < n - k ? r.type->len[i] : n - k;
            if (l > 0)
                memcpy(r.buf + r.type->disp[i], d + k, l);
            k += r.type->len[i];
        }
    }
    inline int msgOf(int src, int dst, int tag, int seq)
    {
        for (int i = 0; i < nMsg; i++)
            if (msgs[i].src == src && msgs[i].dst == dst && msgs[i].tag == tag && msgs[i].seq == seq)
                return i;
        fail(nMsg < MAXMSG, "vmpi_message_limit");
        Msg &m = msgs[nMsg];
        m.src = src, m.dst = dst, m.tag = tag, m.seq = seq, m.sent = m.posted = false, m.data = nullptr, m.n = 0;
        return nMsg++;
    }
    inline void start(Req &r)
    {
        fail(!r.active, "request_started_while_active");
        r.active = true;
        if (r.send)
        {
            int k = msgOf(cur, r.peer, r.tag, seqS[cur][r.peer]++);
            r.msg = k;
            if (!msgs[k].sent)
            {
                msgs[k].sent = true;
                msgs[k].data = pack(r);
                msgs[k].n = bytes(r);
                progress = true;
            }
            r.snap = msgs[k].data;
        }
        else
        {
            int k = msgOf(r.peer, cur, r.tag, seqR[r.peer][cur]++);
            r.msg = k;
            if (!msgs[k].posted)
            {
                msgs[k].posted = true;
                progress = true;
            }
            // unspecified until completion: poison what is there
            long n = bytes(r);
            char *junk = (char *)malloc(n + 1);
            for (long i = 0; i + 8 <= n; i += 8)
            {
                long v = 0x7ff4dead00000000L + i;
                memcpy(junk + i, &v, 8);
            }
            unpack(r, junk, n - n % 8);
            free(junk);
        }
    }
    inline bool complete(Req &r) // true when done
    {
        if (!r.active)
            return true;
        Msg &m = msgs[r.msg];
        if (r.send)
        {
            if (!m.posted)
                return false;
        }
        else
        {
            if (!m.sent)
                return false;
            fail(m.n <= bytes(r), "message_fits_receive_buffer");
            unpack(r, m.data, m.n);
        }
        r.active = false;
        return true;
    }
    inline MPI_Request newReq(bool send, bool persistent, void *buf, int count, MPI_Datatype t, int peer, int tag)
    {
        fail(nReq < MAXREQ, "vmpi_request_limit");
        Req &r = reqs[nReq++];
        r.used = true, r.send = send, r.persistent = persistent, r.active = false;
        r.buf = (char *)buf;
        r.type = derived(t);
        r.n = r.type ? count : count * basic(t);
        fail(r.type || basic(t) > 0, "known_datatype");
        fail(peer >= 0 && peer < np, "peer_in_communicator");
        r.peer = peer, r.tag = tag;
        liveReqs[cur]++;
        return (MPI_Request)(void *)&r;
    }
    inline void freeReq(MPI_Request *q)
    {
        ((Req *)(void *)*q)->used = false;
        liveReqs[cur]--;
        *q = MPI_REQUEST_NULL;
    }
    // enter collective number pos[cur] of this rank; returns when every rank has contributed
    inline int enter(int kind, int root, const void *data, const int *cnt, const int *dsp, long total)
    {
        int k = pos[cur]++;
        fail(k < MAXOP, "vmpi_collective_limit");
        if (k >= nColl[cur])
        {
            Coll &c = coll[cur][k];
            c.kind = kind, c.root = root;
            c.data = dup(data, total);
            for (int r = 0; r < np; r++)
                c.cnt[r] = cnt ? cnt[r] : 0, c.dsp[r] = dsp ? dsp[r] : 0;
            nColl[cur] = k + 1;
            progress = true;
        }
        for (int r = 0; r < np; r++)
        {
            if (nColl[r] <= k)
                __vc_suspend();
            fail(coll[r][k].kind == kind && coll[r][k].root == root, "same_collective_on_every_rank");
        }
        return k;
    }
    template <class F>
    void run(int nranks, F &&prog)
    {
        np = nranks;
        nMsg = nType = nReq = 0;
        deadlock = false;
        bool done[MAXR];
        for (int r = 0; r < MAXR; r++)
            nColl[r] = 0, done[r] = false, liveTypes[r] = liveReqs[r] = 0;
        for (int round = 0; round < 400; round++)
        {
            progress = false;
            bool all = true;
            for (int r = 0; r < np; r++)
            {
                if (done[r])
                    continue;
                cur = r;
                pos[r] = 0;
                nType = nReq = 0; // objects of an abandoned execution are gone
                liveTypes[r] = liveReqs[r] = 0;
                for (int p = 0; p < MAXR; p++)
                    seqS[r][p] = 0, seqR[p][r] = 0;
                struct Ctx
                {
                    F *f;
                    int r;
                } c{&prog, r};
                int sus = __vc_suspendable([](void *p) { auto *c = (Ctx *)p; (*c->f)(c->r); }, &c);
                if (!sus)
                    done[r] = true, progress = true;
                else
                    all = false;
            }
            if (all)
                return;
            if (!progress)
            {
                deadlock = true;
                vc::check(false, "no_deadlock");
                return;
            }
        }
        vc::check(false, "vmpi_round_limit");
    }
}

extern "C"
{
    double MPI_Wtime() { return 0; }
    int MPI_Comm_rank(MPI_Comm, int *r) { *r = vmpi::cur; return 0; }
    int MPI_Comm_size(MPI_Comm, int *s) { *s = vmpi::np; return 0; }
    int MPI_Barrier(MPI_Comm) { vmpi::enter(1, 0, nullptr, nullptr, nullptr, 0); return 0; }
    int MPI_Bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm)
    {
        long b = n * vmpi::basic(t);
        int k = vmpi::enter(2, root, buf, nullptr, nullptr, vmpi::cur == root ? b : 0);
        if (vmpi::cur != root)
            memcpy(buf, vmpi::coll[root][k].data, b);
        return 0;
    }
    int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm)
    {
        long sb = sn * vmpi::basic(st), rb = rn * vmpi::basic(rt);
        vmpi::fail(sb == rb, "alltoall_counts_match");
        int k = vmpi::enter(3, 0, s, nullptr, nullptr, sb * vmpi::np);
        for (int p = 0; p < vmpi::np; p++)
            memcpy((char *)r + p * rb, vmpi::coll[p][k].data + vmpi::cur * sb, rb);
        return 0;
    }
    int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm)
    {
        long e = vmpi::basic(st);
        vmpi::fail(e == vmpi::basic(rt), "alltoallv_types_match");
        int cnt[vmpi::MAXR], dsp[vmpi::MAXR];
        long tot = 0;
        for (int p = 0; p < vmpi::np; p++)
        {
            cnt[p] = sn[p] * e, dsp[p] = sd[p] * e;
            if (cnt[p] > 0 && dsp[p] + cnt[p] > tot)
                tot = dsp[p] + cnt[p];
        }
        int k = vmpi::enter(4, 0, s, cnt, dsp, tot);
        for (int p = 0; p < vmpi::np; p++)
        {
            auto &c = vmpi::coll[p][k];
            vmpi::fail(c.cnt[vmpi::cur] == rn[p] * e, "alltoallv_counts_match");
            if (c.cnt[vmpi::cur] > 0)
                memcpy((char *)r + rd[p] * e, c.data + c.dsp[vmpi::cur], c.cnt[vmpi::cur]);
        }
        return 0;
    }
    int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm)
    {
        long b = sn * vmpi::basic(st);
        vmpi::fail(b == rn * vmpi::basic(rt), "allgather_counts_match");
        int k = vmpi::enter(5, 0, s, nullptr, nullptr, b);
        for (int p = 0; p < vmpi::np; p++)
            memcpy((char *)r + p * b, vmpi::coll[p][k].data, b);
        return 0;
    }
    int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm)
    {
        long b = n * vmpi::basic(t);
        int k = vmpi::enter(6, 0, s, nullptr, nullptr, b);
        if (op == MPI_MINLOC && t == MPI_DOUBLE_INT && n == 1) // the least value, with the least index among equals
        {
            struct DI { double d; int i; };
            DI a = *(DI *)vmpi::coll[0][k].data;
            for (int p = 1; p < vmpi::np; p++)
            {
                DI c = *(DI *)vmpi::coll[p][k].data;
                if (c.d < a.d || (c.d == a.d && c.i < a.i))
                    a = c;
            }
            *(DI *)r = a;
            return 0;
        }
        vmpi::fail((op == MPI_SUM || op == MPI_MAX || op == MPI_MIN) && (t == MPI_INT64_T || t == MPI_DOUBLE || t == MPI_REAL8 || t == MPI_LONG || t == MPI_LONG_LONG), "reduction_known");
        for (int i = 0; i < n; i++)
            if (t == MPI_DOUBLE || t == MPI_REAL8)
            {
                double a = ((double *)vmpi::coll[0][k].data)[i];
                for (int p = 1; p < vmpi::np; p++)
                {
                    double c = ((double *)vmpi::coll[p][k].data)[i];
                    a = op == MPI_SUM ? a + c : op == MPI_MAX ? (a > c ? a : c) : (a < c ? a : c);
                }
                ((double *)r)[i] = a;
            }
            else
            {
                long a = ((long *)vmpi::coll[0][k].data)[i];
                for (int p = 1; p < vmpi::np; p++)
                {
                    long c = ((long *)vmpi::coll[p][k].data)[i];
                    a = op == MPI_SUM ? a + c : op == MPI_MAX ? (a > c ? a : c) : (a < c ? a : c);
                }
                ((long *)r)[i] = a;
            }
        return 0;
    }
    int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d)
    {
        *d = c; // one communicator: the copy only separates messages, and DNDS sends none on it
        return 0;
    }
    int MPI_Comm_free(MPI_Comm *) { return 0; }
    int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm)
    {
        vmpi::fail(op == MPI_SUM && vmpi::basic(t) == 8 && t != MPI_DOUBLE && t != MPI_REAL8, "reduction_known");
        int k = vmpi::enter(7, 0, s, nullptr, nullptr, n * 8);
        for (int i = 0; i < n; i++)
        {
            long a = 0;
            for (int p = 0; p <= vmpi::cur; p++)
                a += ((long *)vmpi::coll[p][k].data)[i];
            ((long *)r)[i] = a;
        }
        return 0;
    }
    int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = 0; *ex = vmpi::basic(t); return 0; }
    int MPI_Type_create_hindexed(int n, const int *len, const MPI_Aint *disp, MPI_Datatype old, MPI_Datatype *out)
    {
        long e = vmpi::basic(old);
        vmpi::fail(e > 0 && n <= vmpi::MAXBLK && vmpi::nType < vmpi::MAXTYPE, "vmpi_type_limit");
        auto &t = vmpi::types[vmpi::nType++];
        t.used = true, t.n = n, t.total = 0;
        for (int i = 0; i < n; i++)
        {
            vmpi::fail(len[i] >= 0, "block_length_nonnegative");
            t.len[i] = len[i] * e, t.disp[i] = disp[i], t.total += t.len[i];
        }
        *out = (MPI_Datatype)(void *)&t;
        vmpi::liveTypes[vmpi::cur]++;
        return 0;
    }
    int MPI_Type_commit(MPI_Datatype *) { return 0; }
    int MPI_Type_free(MPI_Datatype *t)
    {
        vmpi::liveTypes[vmpi::cur]--;
        *t = MPI_DATATYPE_NULL;
        return 0;
    }
    int MPI_Send_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *q) { *q = vmpi::newReq(true, true, (void *)b, n, t, dst, tag); return 0; }
    int MPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *q) { *q = vmpi::newReq(false, true, b, n, t, src, tag); return 0; }
    int MPI_Start(MPI_Request *q) { vmpi::start(*(vmpi::Req *)(void *)*q); return 0; }
    int MPI_Startall(int n, MPI_Request *q) { for (int i = 0; i < n; i++) MPI_Start(q + i); return 0; }
    int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Request *q) { *q = vmpi::newReq(false, false, b, n, t, src, tag); return MPI_Start(q); }
    int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request *q) { *q = vmpi::newReq(true, false, (void *)b, n, t, dst, tag); return MPI_Start(q); }
    int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return MPI_Issend(b, n, t, dst, tag, c, q); }
    int MPI_Request_free(MPI_Request *q) { vmpi::freeReq(q); return 0; }
    int MPI_Wait(MPI_Request *q, MPI_Status *)
    {
        if (*q == MPI_REQUEST_NULL)
            return 0;
        auto &r = *(vmpi::Req *)(void *)*q;
        if (!vmpi::complete(r))
            __vc_suspend();
        if (!r.persistent)
            vmpi::freeReq(q);
        return 0;
    }
    int MPI_Waitall(int n, MPI_Request *q, MPI_Status *) { for (int i = 0; i < n; i++) MPI_Wait(q + i, MPI_STATUS_IGNORE); return 0; }
    int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *s) { *flag = 1; return MPI_Waitall(n, q, s); }
}
