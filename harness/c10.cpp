// C10: .bin files.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"

#include "bits.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

std::string layout(const bits::Mat<VT> & m)
{
    std::string s;
    io::append<IT>(s, (IT) m.rows);
    io::append<IT>(s, (IT) m.cols);
    io::append<IT>(s, (IT) m.e.size());
    for (auto & e : m.e) io::append<IT>(s, (IT) e.r);
    for (auto & e : m.e) io::append<IT>(s, (IT) e.c);
    for (auto & e : m.e) io::append<VT>(s, e.v);
    return s;
}

template <class W> void write(pbt::Case & c, const bits::Mat<VT> & m, const char * name)
{
    if (c.draw(2)) io::write_file(name, std::string(100000, 'z'));
    Obj<W> A(0x5a);
    bits::fill(*A, m);
    int rc = write_bin_COO(*A, name);
    CHECK(rc == 0, "write_bin_COO failed (%d)", rc);
    bits::expect(*A, m, "the matrix after writing it");
    release(*A);
    std::string want = layout(m), got = io::read_file(name);
    CHECK(got.size() == want.size(), "the file has %lu bytes, expected %lu", (unsigned long) got.size(), (unsigned long) want.size());
    size_t d = io::differs(got, want);
    CHECK(d == want.size(), "byte %lu of the file differs", (unsigned long) d);
}

template <class R> void readback(pbt::Case & c, const bits::Mat<VT> & m, const char * name)
{
    Obj<R> B(c.pick<int>({0xa5, 0, 0xff}));
    int rc = c.draw(2) ? read_COO(B.get(), name) : read_bin_COO(B.get(), name);
    CHECK(rc == 0, "refused (%d)", rc);
    bits::expect(*B, m, "matrix read");
    release(*B);
}

// Entries of each row, in a fixed order
typedef std::vector<std::vector<std::pair<uint64_t, uint64_t>>> Rows;
uint64_t raw(VT v) { uint64_t b = 0; memcpy(&b, &v, sizeof(v)); return b; }

template <class G> Rows rows_of(IT rows, IT * ptr, G get)
{
    Rows r(rows);
    CHECK(ptr[0] == 0, "row pointers do not begin with 0");
    for (IT i = 0; i < rows; i++) {
        CHECK(ptr[i] <= ptr[i + 1], "row pointers decrease");
        for (IT k = ptr[i]; k < ptr[i + 1]; k++) r[i].push_back(get(k));
        std::sort(r[i].begin(), r[i].end());
    }
    return r;
}
Rows rows_of(Csr<VT, IT> & A) { return rows_of(A.rows, A.row_ptr, [&](IT k) { return std::make_pair((uint64_t) A.col_ind[k], raw(A.val[k])); }); }
Rows rows_of(Csr2<VT, IT> & A) { return rows_of(A.rows, A.row_ptr, [&](IT k) { return std::make_pair((uint64_t) A.data[k].index, raw(A.data[k].val)); }); }

template <class CSR> void csr(pbt::Case & c, const bits::Mat<VT> & m, const char * name, const std::vector<double> & x, const std::vector<double> & y0,
                              const std::vector<double> * want)
{
    Obj<CSR> A(c.pick<int>({0xa5, 0, 0xff}));
    int rc = read_bin_CSR(A.get(), name);
    CHECK(rc == 0, "read_bin_CSR refused (%d)", rc);
    // from the coordinate matrix
    Obj<Coo2<VT, IT>> S(0x5a);
    bits::fill(*S, m);
    Obj<CSR> B(0x5a);
    Coo_to_Csr(B.get(), S.get());
    release(*S);
    CHECK(A->rows == B->rows && A->columns == B->columns && (uint64_t) A->rows == m.rows && (uint64_t) A->columns == m.cols,
          "%lux%lu instead of %lux%lu", (unsigned long) A->rows, (unsigned long) A->columns, (unsigned long) m.rows, (unsigned long) m.cols);
    CHECK(A->nonzeros() == B->nonzeros() && (uint64_t) A->nonzeros() == m.e.size(), "%lu entries instead of %lu", (unsigned long) A->nonzeros(),
          (unsigned long) m.e.size());
    CHECK(rows_of(*A) == rows_of(*B), "rows of the matrix read differ from those built in memory");
    if (want) {
        Vec<VT> xv(x), yv(y0);
        if (c.draw(2)) A->spmv(xv.p, yv.p); else A->spmv_serial(xv.p, yv.p);
        yv.expect(*want, "CSR read from file");
    }
    release(*A);
    release(*B);
}

void run(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4}));
    bool to_csr = c.draw(2);
    bool exact = to_csr && c.draw(2);
    uint64_t lim = std::numeric_limits<IT>::max();
    bits::Mat<VT> m;
    Mat em;
    if (exact) {
        Opt o;
        o.max_nnz = c.draw(8) == 7 ? 5000 : 500;
        o.max_dim = std::min<uint64_t>(3000, lim);
        o.max_nnz = std::min(o.max_nnz, lim);
        if (lim > 70000) { o.huge_dim = 70000; o.big = 100; }
        em = gen_mat<VT>(c, o);
        std::stable_sort(em.e.begin(), em.e.end(), [](const Ent & a, const Ent & b) { return a.r < b.r; });
        m.rows = em.rows; m.cols = em.cols;
        for (auto & e : em.e) m.e.push_back({e.r, e.c, (VT) e.v});
    } else {
        uint64_t md = to_csr ? 70000 : 1ull << 62;
        m = bits::gen_mat<VT>(c, false, std::min(lim, md), c.draw(8) == 7 ? 5000 : 500, to_csr);
        if (!to_csr && c.draw(4) == 3) { m.rows = lim; m.cols = lim; for (auto & e : m.e) { if (e.r % 3 == 0) e.r = lim - 1 - e.r % 7; if (e.c % 3 == 0) e.c = lim - 1 - e.c % 5; } }
    }
    if (to_csr) c.label("CSR");
    if (!m.e.empty()) c.nontrivial();
    static const char * names[] = {"b.bin", ".bin", "b.mtx.bin"};
    const char * name = names[c.draw(3)];
    switch (c.draw(3)) {
        case 0: io::write_file(name, layout(m)); break;
        case 1: write<Coo2<VT, IT>>(c, m, name); break;
        case 2: write<Coo3<VT, IT>>(c, m, name); break;
    }
    if (to_csr) {
        std::vector<double> x, y0, want;
        if (exact) { x = gen_vec<VT>(c, m.cols); y0 = gen_vec<VT>(c, m.rows, true); want = product(em, x, y0); }
        if (c.draw(2)) csr<Csr<VT, IT>>(c, m, name, x, y0, exact ? &want : nullptr);
        else csr<Csr2<VT, IT>>(c, m, name, x, y0, exact ? &want : nullptr);
    } else if (c.draw(2)) readback<Coo2<VT, IT>>(c, m, name);
    else readback<Coo3<VT, IT>>(c, m, name);
    unlink(name);
}

pbt::Reg reg(TAG, run);

} // namespace
