// Assumed contract of (parallel) HDF5: an in-memory file.  Every rank executes the same collective calls on its own copy; the
// copies are compared call by call and merged at the end (vh5::commit), so a rank that skips a collective call, names another object
// or writes where another rank writes is reported.  Errors HDF5 reports through its return value are returned the same way.
#pragma once
#include "vmpi.hpp"
#include <hdf5.h>
#include <cstdlib>
#include <cstring>
namespace vh5
{
    static constexpr int MAXR = 3, MAXN = 64, MAXA = 96, MAXH = 40, MAXL = 600, NM = 112;
    struct Node
    {
        int kind; // 1: group, 2: data set
        char path[NM];
        long type, nd;
        hsize_t dim[2];
        bool filter;
        char *data;
        signed char *owner; // 0: fill value
    };
    struct Attr
    {
        char path[NM];
        long type, size; // size of a string
        char *data;
        bool written;
    };
    struct File
    {
        int nNode = 0, nAttr = 0;
        Node node[MAXN];
        Attr attr[MAXA];
    };
    enum HKind
    {
        FREE,
        HFILE,
        HGROUP,
        HDSET,
        HATTR,
        HSPACE,
        HPROP,
        HTYPE
    };
    struct Handle
    {
        int kind = FREE;
        int obj = -1; // node or attribute
        long nd = 0, cls = 0, size = 0;
        hsize_t dim[2] = {}, max[2] = {}, off[2] = {}, cnt[2] = {};
        bool sel = false, collective = false, deflate = false;
        int chunkRank = 0;
        hsize_t chunk[2] = {};
    };
    struct Log
    {
        int op;
        long a, b;
        char what[NM];
    };
    inline File file[MAXR], disk;
    inline Handle handle[MAXR][MAXH];
    inline Log logs[MAXR][MAXL];
    inline int nLog[MAXR];
    inline bool readOnly[MAXR];
    inline bool onDisk = false;

    inline int me() { return vmpi::cur; }
    inline void fail(bool ok, const char *what)
    {
        if (!ok)
            vc::check(false, what);
    }
    inline int length(const char *s)
    {
        int n = 0;
        while (s[n])
            n++;
        return n;
    }
    inline bool same(const char *a, const char *b)
    {
        int i = 0;
        for (; a[i] && a[i] == b[i]; i++)
            ;
        return a[i] == b[i];
    }
    inline void copy(char *d, const char *s)
    {
        int i = 0;
        for (; s[i] && i < NM - 1; i++)
            d[i] = s[i];
        d[i] = 0;
    }
    inline File &cur() { return readOnly[me()] ? disk : file[me()]; }
    inline Handle *get(hid_t h, int kind)
    {
        long i = (long)h - 1000;
        if (i < 0 || i >= MAXH || handle[me()][i].kind != kind)
            return nullptr;
        return &handle[me()][i];
    }
    inline hid_t put(int kind)
    {
        for (int i = 0; i < MAXH; i++)
            if (handle[me()][i].kind == FREE)
            {
                handle[me()][i] = Handle();
                handle[me()][i].kind = kind;
                return 1000 + i;
            }
        fail(false, "vh5_handle_leak");
        return -1;
    }
    inline herr_t drop(hid_t h, int kind)
    {
        Handle *p = get(h, kind);
        if (!p)
            return -1;
        p->kind = FREE;
        return 0;
    }
    inline void note(int op, const char *what, long a = 0, long b = 0)
    {
        int r = me();
        fail(nLog[r] < MAXL, "vh5_log_limit");
        Log &l = logs[r][nLog[r]++];
        l.op = op, l.a = a, l.b = b;
        copy(l.what, what);
    }
    // absolute path without duplicate or trailing slashes; "" is the root group
    inline void resolve(char *out, hid_t loc, const char *name)
    {
        char full[2 * NM];
        int n = 0;
        if (name[0] != '/')
        {
            Handle *g = get(loc, HGROUP);
            if (g && g->obj >= 0)
                for (const char *s = cur().node[g->obj].path; *s && n < NM; s++)
                    full[n++] = *s;
            full[n++] = '/';
        }
        for (int i = 0; name[i] && n < 2 * NM - 1; i++)
            full[n++] = name[i];
        full[n] = 0;
        int k = 0;
        for (int i = 0; i < n && k < NM - 1; i++)
            if (full[i] != '/' || (i + 1 < n && full[i + 1] != '/'))
                out[k++] = full[i];
        out[k] = 0;
        fail(n < NM, "vh5_path_limit");
    }
    inline int find(const char *p)
    {
        for (int i = 0; i < cur().nNode; i++)
            if (same(cur().node[i].path, p))
                return i;
        return -1;
    }
    inline int findAttr(const char *p)
    {
        for (int i = 0; i < cur().nAttr; i++)
            if (same(cur().attr[i].path, p))
                return i;
        return -1;
    }
    inline bool parentExists(const char *p)
    {
        char q[NM];
        copy(q, p);
        int n = length(q);
        while (n > 0 && q[n - 1] != '/')
            n--;
        if (n <= 1)
            return true;
        q[n - 1] = 0;
        int i = find(q);
        return i >= 0 && cur().node[i].kind == 1;
    }
    inline long size(long type)
    {
        return type == 11 ? 4 : type == 12 ? 8 : type == 13 ? 4 : type == 14 ? 8 : type == 15 ? 1 : 0;
    }
    inline void attrPath(char *out, hid_t loc, const char *name)
    {
        Handle *g = get(loc, HGROUP);
        copy(out, g && g->obj >= 0 ? cur().node[g->obj].path : "");
        int n = length(out), i = 0;
        out[n++] = '@';
        for (; name[i] && n < NM - 1; i++)
            out[n++] = name[i];
        out[n] = 0;
    }
    inline void compareLogs(int np)
    {
        for (int r = 1; r < np; r++)
        {
            fail(nLog[r] == nLog[0], "collective_io_calls_match_on_all_ranks");
            for (int i = 0; i < nLog[0] && i < nLog[r]; i++)
                fail(logs[r][i].op == logs[0][i].op && same(logs[r][i].what, logs[0][i].what) && logs[r][i].a == logs[0][i].a && logs[r][i].b == logs[0][i].b, "collective_io_calls_match_on_all_ranks");
        }
    }
    // after all ranks have written and closed: the file as it is on disk
    inline void commit(int np)
    {
        compareLogs(np);
        disk = file[0];
        for (int i = 0; i < disk.nNode; i++)
            if (disk.node[i].kind == 2)
            {
                long es = size(disk.node[i].type), n = (long)disk.node[i].dim[0] * (disk.node[i].nd == 2 ? (long)disk.node[i].dim[1] : 1);
                for (int r = 1; r < np && i < file[r].nNode; r++)
                    for (long k = 0, j; k < n; k = j)
                    {
                        for (j = k; j < n && file[r].node[i].owner[j]; j++)
                        {
                            fail(!disk.node[i].owner[j], "no_two_ranks_write_one_entry");
                            disk.node[i].owner[j] = file[r].node[i].owner[j];
                        }
                        if (j > k)
                            memcpy(disk.node[i].data + k * es, file[r].node[i].data + k * es, (j - k) * es);
                        else
                            j++;
                    }
            }
        for (int i = 0; i < disk.nAttr; i++)
            for (int r = 1; r < np && i < file[r].nAttr; r++)
            {
                Attr &a = disk.attr[i], &b = file[r].attr[i];
                fail(a.type == b.type && a.size == b.size, "attributes_agree_on_all_ranks");
                if (a.type == 14)
                    vc::eq(*(double *)a.data, *(double *)b.data, "attributes_agree_on_all_ranks");
                else if (a.type == 12)
                    fail(*(long *)a.data == *(long *)b.data, "attributes_agree_on_all_ranks");
                else if (a.type == 11 || a.type == 13)
                    fail(*(int *)a.data == *(int *)b.data, "attributes_agree_on_all_ranks");
                else
                    for (long k = 0; k < a.size && k < b.size; k++)
                        fail(a.data[k] == b.data[k], "attributes_agree_on_all_ranks");
            }
        onDisk = true;
        for (int r = 0; r < MAXR; r++)
            nLog[r] = 0;
    }
}
extern "C"
{
    hid_t H5T_NATIVE_INT_g = 11, H5T_NATIVE_INT64_g = 12, H5T_NATIVE_INT32_g = 13, H5T_NATIVE_DOUBLE_g = 14, H5T_NATIVE_UINT8_g = 15;
    hid_t H5P_CLS_FILE_ACCESS_ID_g = 21, H5P_CLS_LINK_ACCESS_ID_g = 22, H5P_CLS_GROUP_ACCESS_ID_g = 23, H5P_CLS_ATTRIBUTE_ACCESS_ID_g = 24,
          H5P_CLS_DATASET_ACCESS_ID_g = 25, H5P_CLS_DATASET_CREATE_ID_g = 26, H5P_CLS_DATASET_XFER_ID_g = 27;
    herr_t H5open(void) { return 0; }
    herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
    herr_t H5free_memory(void *) { return 0; }
    hid_t H5Pcreate(hid_t cls)
    {
        if (cls == 21) // the first call of a session: drop what an earlier execution of this rank left
            for (int i = 0; i < vh5::MAXH; i++)
                vh5::handle[vh5::me()][i].kind = vh5::FREE;
        hid_t h = vh5::put(vh5::HPROP);
        vh5::get(h, vh5::HPROP)->cls = cls;
        return h;
    }
    herr_t H5Pclose(hid_t h) { return vh5::drop(h, vh5::HPROP); }
    herr_t H5Pset_fapl_mpio(hid_t h, MPI_Comm, MPI_Info) { return vh5::get(h, vh5::HPROP) ? 0 : -1; }
    herr_t H5Pset_all_coll_metadata_ops(hid_t h, hbool_t) { return vh5::get(h, vh5::HPROP) ? 0 : -1; }
    herr_t H5Pset_coll_metadata_write(hid_t h, hbool_t) { return vh5::get(h, vh5::HPROP) ? 0 : -1; }
    herr_t H5Pset_dxpl_mpio(hid_t h, H5FD_mpio_xfer_t m)
    {
        auto *p = vh5::get(h, vh5::HPROP);
        if (!p || p->cls != 27)
            return -1;
        p->collective = m == H5FD_MPIO_COLLECTIVE;
        return 0;
    }
    herr_t H5Pset_chunk(hid_t h, int nd, const hsize_t *d)
    {
        auto *p = vh5::get(h, vh5::HPROP);
        if (!p || p->cls != 26 || nd < 1 || nd > 2)
            return -1;
        p->chunkRank = nd;
        for (int i = 0; i < nd; i++)
        {
            if (d[i] == 0)
                return -1;
            p->chunk[i] = d[i];
        }
        return 0;
    }
    herr_t H5Pset_deflate(hid_t h, unsigned level)
    {
        auto *p = vh5::get(h, vh5::HPROP);
        if (!p || p->cls != 26 || level > 9)
            return -1;
        p->deflate = true;
        return 0;
    }
    hid_t H5Fcreate(const char *name, unsigned, hid_t, hid_t)
    {
        int r = vh5::me();
        vh5::readOnly[r] = false;
        vh5::file[r].nNode = vh5::file[r].nAttr = 0;
        vh5::nLog[r] = 0;
        vh5::note(1, name);
        return vh5::put(vh5::HFILE);
    }
    hid_t H5Fopen(const char *name, unsigned, hid_t)
    {
        int r = vh5::me();
        vh5::nLog[r] = 0;
        vh5::note(2, name);
        if (!vh5::onDisk)
            return H5I_INVALID_HID;
        vh5::readOnly[r] = true;
        return vh5::put(vh5::HFILE);
    }
    herr_t H5Fclose(hid_t h)
    {
        if (!vh5::get(h, vh5::HFILE))
            return -1;
        vh5::note(3, "");
        vh5::drop(h, vh5::HFILE);
        for (int i = 0; i < vh5::MAXH; i++)
            vh5::fail(vh5::handle[vh5::me()][i].kind == vh5::FREE, "every_io_handle_closed");
        return 0;
    }
    htri_t H5Lexists(hid_t loc, const char *name, hid_t)
    {
        char p[vh5::NM];
        vh5::resolve(p, loc, name);
        vh5::note(4, p);
        return p[0] == 0 ? 1 : !vh5::parentExists(p) ? -1 : vh5::find(p) >= 0;
    }
    hid_t H5Gopen2(hid_t loc, const char *name, hid_t)
    {
        char p[vh5::NM];
        vh5::resolve(p, loc, name);
        vh5::note(5, p);
        int i = p[0] ? vh5::find(p) : -1;
        if (p[0] && (i < 0 || vh5::cur().node[i].kind != 1))
            return -1;
        hid_t h = vh5::put(vh5::HGROUP);
        vh5::get(h, vh5::HGROUP)->obj = i;
        return h;
    }
    hid_t H5Gcreate2(hid_t loc, const char *name, hid_t, hid_t, hid_t)
    {
        char p[vh5::NM];
        vh5::resolve(p, loc, name);
        vh5::note(6, p);
        auto &f = vh5::cur();
        if (vh5::readOnly[vh5::me()] || vh5::find(p) >= 0 || !vh5::parentExists(p))
            return -1;
        vh5::fail(f.nNode < vh5::MAXN, "vh5_node_limit");
        f.node[f.nNode].kind = 1;
        vh5::copy(f.node[f.nNode].path, p);
        hid_t h = vh5::put(vh5::HGROUP);
        vh5::get(h, vh5::HGROUP)->obj = f.nNode++;
        return h;
    }
    herr_t H5Gclose(hid_t h) { return vh5::drop(h, vh5::HGROUP); }
    hid_t H5Screate(H5S_class_t c)
    {
        return c == H5S_SCALAR ? vh5::put(vh5::HSPACE) : -1; // no dimensions
    }
    hid_t H5Screate_simple(int nd, const hsize_t *d, const hsize_t *m)
    {
        hid_t h = vh5::put(vh5::HSPACE);
        auto *p = vh5::get(h, vh5::HSPACE);
        p->nd = nd;
        for (int i = 0; i < nd; i++)
        {
            p->dim[i] = d[i], p->max[i] = m ? m[i] : d[i];
            if (p->max[i] != H5S_UNLIMITED && p->max[i] < p->dim[i])
                return vh5::drop(h, vh5::HSPACE), -1;
        }
        return h;
    }
    herr_t H5Sclose(hid_t h) { return vh5::drop(h, vh5::HSPACE); }
    int H5Sget_simple_extent_ndims(hid_t h)
    {
        auto *p = vh5::get(h, vh5::HSPACE);
        return p ? (int)p->nd : -1;
    }
    int H5Sget_simple_extent_dims(hid_t h, hsize_t *d, hsize_t *m)
    {
        auto *p = vh5::get(h, vh5::HSPACE);
        if (!p)
            return -1;
        for (int i = 0; i < p->nd; i++)
        {
            d[i] = p->dim[i];
            if (m)
                m[i] = p->max[i];
        }
        return (int)p->nd;
    }
    herr_t H5Sselect_hyperslab(hid_t h, H5S_seloper_t, const hsize_t *off, const hsize_t *stride, const hsize_t *cnt, const hsize_t *block)
    {
        auto *p = vh5::get(h, vh5::HSPACE);
        if (!p || p->nd < 1)
            return -1;
        vh5::fail(!stride && !block, "vh5_contiguous_selection");
        p->sel = true;
        for (int i = 0; i < p->nd; i++)
            p->off[i] = off[i], p->cnt[i] = cnt[i];
        return 0;
    }
    hid_t H5Tcreate(H5T_class_t c, size_t n)
    {
        if (c != H5T_STRING || n == 0)
            return -1;
        hid_t h = vh5::put(vh5::HTYPE);
        vh5::get(h, vh5::HTYPE)->size = (long)n;
        return h;
    }
    herr_t H5Tset_strpad(hid_t h, H5T_str_t) { return vh5::get(h, vh5::HTYPE) ? 0 : -1; }
    herr_t H5Tclose(hid_t h) { return vh5::drop(h, vh5::HTYPE); }
    size_t H5Tget_size(hid_t h)
    {
        auto *p = vh5::get(h, vh5::HTYPE);
        return p ? p->size : 0;
    }
    htri_t H5Tis_variable_str(hid_t h) { return vh5::get(h, vh5::HTYPE) ? 0 : -1; }
    hid_t H5Acreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t)
    {
        char p[vh5::NM];
        vh5::attrPath(p, loc, name);
        vh5::note(7, p);
        auto &f = vh5::cur();
        auto *t = vh5::get(type, vh5::HTYPE);
        if (!vh5::get(loc, vh5::HGROUP) || vh5::readOnly[vh5::me()] || vh5::findAttr(p) >= 0 || !vh5::get(space, vh5::HSPACE) || (!t && !vh5::size(type)))
            return -1;
        vh5::fail(f.nAttr < vh5::MAXA, "vh5_attribute_limit");
        auto &a = f.attr[f.nAttr];
        vh5::copy(a.path, p);
        a.type = t ? 99 : (long)type, a.size = t ? t->size : vh5::size(type), a.data = (char *)malloc(a.size + 8), a.written = false;
        hid_t h = vh5::put(vh5::HATTR);
        vh5::get(h, vh5::HATTR)->obj = f.nAttr++;
        return h;
    }
    hid_t H5Aopen(hid_t loc, const char *name, hid_t)
    {
        char p[vh5::NM];
        vh5::attrPath(p, loc, name);
        vh5::note(8, p);
        int i = vh5::findAttr(p);
        if (!vh5::get(loc, vh5::HGROUP) || i < 0)
            return -1;
        hid_t h = vh5::put(vh5::HATTR);
        vh5::get(h, vh5::HATTR)->obj = i;
        return h;
    }
    htri_t H5Aexists(hid_t loc, const char *name)
    {
        char p[vh5::NM];
        vh5::attrPath(p, loc, name);
        vh5::note(9, p);
        return !vh5::get(loc, vh5::HGROUP) ? -1 : vh5::findAttr(p) >= 0;
    }
    herr_t H5Awrite(hid_t h, hid_t type, const void *buf)
    {
        auto *p = vh5::get(h, vh5::HATTR);
        if (!p)
            return -1;
        auto &a = vh5::cur().attr[p->obj];
        vh5::note(10, a.path);
        auto *t = vh5::get(type, vh5::HTYPE);
        vh5::fail((t ? 99 : (long)type) == a.type && (!t || t->size == a.size), "vh5_memory_type_is_file_type");
        memcpy(a.data, buf, a.size);
        a.written = true;
        return 0;
    }
    herr_t H5Aread(hid_t h, hid_t type, void *buf)
    {
        auto *p = vh5::get(h, vh5::HATTR);
        if (!p)
            return -1;
        auto &a = vh5::cur().attr[p->obj];
        vh5::note(11, a.path);
        auto *t = vh5::get(type, vh5::HTYPE);
        vh5::fail(a.written && (t ? 99 : (long)type) == a.type && (!t || t->size == a.size), "vh5_memory_type_is_file_type");
        memcpy(buf, a.data, a.size);
        return 0;
    }
    herr_t H5Aclose(hid_t h) { return vh5::drop(h, vh5::HATTR); }
    hid_t H5Aget_space(hid_t h) { return vh5::get(h, vh5::HATTR) ? vh5::put(vh5::HSPACE) : -1; }
    hid_t H5Aget_type(hid_t h)
    {
        auto *p = vh5::get(h, vh5::HATTR);
        if (!p)
            return -1;
        auto &a = vh5::cur().attr[p->obj];
        if (a.type != 99)
            return (hid_t)a.type;
        hid_t t = vh5::put(vh5::HTYPE);
        vh5::get(t, vh5::HTYPE)->size = a.size;
        return t;
    }
    hid_t H5Dcreate2(hid_t loc, const char *name, hid_t type, hid_t space, hid_t, hid_t dcpl, hid_t)
    {
        char p[vh5::NM];
        vh5::resolve(p, loc, name);
        auto *s = vh5::get(space, vh5::HSPACE);
        auto *c = vh5::get(dcpl, vh5::HPROP);
        vh5::note(12, p, s ? (long)s->dim[0] : -1, s && s->nd == 2 ? (long)s->dim[1] : -1);
        auto &f = vh5::cur();
        if (!vh5::get(loc, vh5::HGROUP) || !s || s->nd < 1 || !vh5::size(type) || vh5::readOnly[vh5::me()] || vh5::find(p) >= 0 || !vh5::parentExists(p))
            return H5I_INVALID_HID;
        bool chunked = c && c->chunkRank, unlimited = s->max[0] == H5S_UNLIMITED || (s->nd == 2 && s->max[1] == H5S_UNLIMITED);
        if ((unlimited || (c && c->deflate)) && !chunked)
            return H5I_INVALID_HID;
        if (chunked && c->chunkRank != s->nd)
            return H5I_INVALID_HID;
        vh5::fail(f.nNode < vh5::MAXN, "vh5_node_limit");
        auto &d = f.node[f.nNode];
        d.kind = 2, d.type = (long)type, d.nd = s->nd, d.dim[0] = s->dim[0], d.dim[1] = s->dim[1], d.filter = c && c->deflate;
        vh5::copy(d.path, p);
        long n = (long)d.dim[0] * (d.nd == 2 ? (long)d.dim[1] : 1), es = vh5::size(d.type);
        vh5::fail(n <= 4096, "vh5_size_limit");
        d.data = (char *)calloc(n * es + 1, 1);
        d.owner = (signed char *)calloc(n + 1, 1);
        hid_t h = vh5::put(vh5::HDSET);
        vh5::get(h, vh5::HDSET)->obj = f.nNode++;
        return h;
    }
    hid_t H5Dopen2(hid_t loc, const char *name, hid_t)
    {
        char p[vh5::NM];
        vh5::resolve(p, loc, name);
        vh5::note(13, p);
        int i = vh5::find(p);
        if (!vh5::get(loc, vh5::HGROUP) || i < 0 || vh5::cur().node[i].kind != 2)
            return -1;
        hid_t h = vh5::put(vh5::HDSET);
        vh5::get(h, vh5::HDSET)->obj = i;
        return h;
    }
    herr_t H5Dclose(hid_t h) { return vh5::drop(h, vh5::HDSET); }
    hid_t H5Dget_space(hid_t h)
    {
        auto *p = vh5::get(h, vh5::HDSET);
        if (!p)
            return -1;
        auto &d = vh5::cur().node[p->obj];
        return H5Screate_simple((int)d.nd, d.dim, nullptr);
    }
}
namespace vh5
{
    // one transfer: contiguous 1-d selection of the file space against the whole memory space
    inline herr_t transfer(hid_t dset, hid_t type, hid_t mem, hid_t fsp, hid_t dxpl, char *buf, bool write)
    {
        auto *p = get(dset, HDSET), *m = get(mem, HSPACE), *s = get(fsp, HSPACE), *x = get(dxpl, HPROP);
        if (!p || !m || !s || !x || x->cls != 27)
            return -1;
        auto &d = cur().node[p->obj];
        if (x->collective)
            note(write ? 14 : 15, d.path);
        if (write && (readOnly[me()] || (d.filter && !x->collective)))
            return -1;
        fail((long)type == d.type, "vh5_memory_type_is_file_type");
        fail(d.nd == 1, "vh5_one_dimension");
        long off = s->sel ? (long)s->off[0] : 0, n = s->sel ? (long)s->cnt[0] : (long)s->dim[0], es = size(d.type);
        if (n != (long)m->dim[0])
            return -1;
        if (n == 0)
            return 0;
        if (off < 0 || off + n > (long)d.dim[0] || !buf)
            return -1;
        if (write)
        {
            memcpy(d.data + off * es, buf, n * es);
            for (long i = 0; i < n; i++)
                d.owner[off + i] = 1 + me();
        }
        else
            memcpy(buf, d.data + off * es, n * es);
        return 0;
    }
}
extern "C"
{
    herr_t H5Dwrite(hid_t d, hid_t t, hid_t m, hid_t f, hid_t x, const void *b) { return vh5::transfer(d, t, m, f, x, (char *)b, true); }
    herr_t H5Dread(hid_t d, hid_t t, hid_t m, hid_t f, hid_t x, void *b) { return vh5::transfer(d, t, m, f, x, (char *)b, false); }
}
