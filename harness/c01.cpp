// C01: unblocked formats add exactly A*x to y.
// Compiled once per combination: -DPVT=<value type> -DPIT=<index type> -DTAG="name"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"

#include "gen.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

struct Run {
    pbt::Case & c;
    const Mat & m;
    std::vector<double> x, y0, want;
    int fillb;

    // Multiply twice; the second product is added to the first
    template <class F> void mult(const char * what, F f)
    {
        Vec<VT> vx(x), vy(y0);
        f(vx.p, vy.p);
        vy.expect(want, what);
        vx.expect(x, "x changed");
        std::vector<double> want2 = want;
        for (auto & e : m.e) want2[e.r] += e.v * x[e.c];
        if (c.draw(4) == 3) { f(vx.p, vy.p); vy.expect(want2, what); }
    }

    template <class M> void mult_cswr(M & A, const char * what)
    {
        CHECK(A->nonzeros() == m.e.size(), "%s: %lu non-zeros, expected %lu", what, (unsigned long) A->nonzeros(), (unsigned long) m.e.size());
        mult(what, [&](VT * px, VT * py) { A->spmv(px, py); });
    }

    template <template <typename, typename> class COO> void csrs(COO<VT, IT> * B, const char * src)
    {
        char w[100];
        { Obj<Csr<VT, IT>> A(fillb); Coo_to_Csr(A.get(), B);
          snprintf(w, 100, "CSR from %s", src);
          CHECK(A->nonzeros() == m.e.size(), "%s: wrong number of non-zeros", w);
          mult(w, [&](VT * px, VT * py) { A->spmv(px, py); });
          snprintf(w, 100, "CSR (serial) from %s", src);
          mult(w, [&](VT * px, VT * py) { A->spmv_serial(px, py); });
          release(*A); }
        { Obj<Csr2<VT, IT>> A(fillb); Coo_to_Csr(A.get(), B);
          snprintf(w, 100, "CSR(2) from %s", src);
          CHECK(A->nonzeros() == m.e.size(), "%s: wrong number of non-zeros", w);
          mult(w, [&](VT * px, VT * py) { A->spmv(px, py); });
          snprintf(w, 100, "CSR(2) (serial) from %s", src);
          mult(w, [&](VT * px, VT * py) { A->spmv_serial(px, py); });
          release(*A); }
    }

    // From an array of entries, in order or not, into arrays of the library's or of our own
    template <class NZ> void csr_array(NZ * data, const char * src)
    {
        char w[100];
        size_t n = m.e.size();
        bool sorted = c.draw(2), own = c.draw(2);
        if (sorted)
            std::stable_sort(data, data + n, [](const NZ & a, const NZ & b) { return a.row < b.row; });
        std::vector<NZ> before(data, data + n);
        snprintf(w, 100, "CSR from an array of %s%s%s", src, sorted ? ", in order" : "", own ? ", into our arrays" : "");
        if (c.draw(2)) {
            Obj<Csr<VT, IT>> A(fillb);
            if (own) { A->val = new VT[n]; A->col_ind = new IT[n]; }
            VT * val = A->val; IT * col = A->col_ind;
            CHECK(Coo_to_Csr(A.get(), data, (IT) m.rows, (IT) m.cols, (IT) n, sorted, !own) == 0, "%s: refused", w);
            if (own) CHECK(A->val == val && A->col_ind == col, "%s: arrays replaced", w);
            CHECK(A->nonzeros() == n && A->rows == m.rows && A->columns == m.cols, "%s: wrong dimensions", w);
            mult(w, [&](VT * px, VT * py) { A->spmv(px, py); });
            mult(w, [&](VT * px, VT * py) { A->spmv_serial(px, py); });
            release(*A);
        } else {
            Obj<Csr2<VT, IT>> A(fillb);
            if (own) A->data = new NonZero<VT, IT>[n];
            NonZero<VT, IT> * d = A->data;
            CHECK(Coo_to_Csr(A.get(), data, (IT) m.rows, (IT) m.cols, (IT) n, sorted, !own) == 0, "%s: refused", w);
            if (own) CHECK(A->data == d, "%s: array replaced", w);
            CHECK(A->nonzeros() == n && A->rows == m.rows && A->columns == m.cols, "%s: wrong dimensions", w);
            mult(w, [&](VT * px, VT * py) { A->spmv(px, py); });
            mult(w, [&](VT * px, VT * py) { A->spmv_serial(px, py); });
            release(*A);
        }
        if (sorted)
            for (size_t i = 0; i < n; i++)
                CHECK(data[i].row == before[i].row && data[i].col == before[i].col && !memcmp(&data[i].val, &before[i].val, sizeof(VT)),
                      "%s: entries in order were changed", w);
    }

    template <template <typename, typename> class COO> void crcsr(COO<VT, IT> * B, const char * src)
    {
        char w[100];
        Obj<CompRowCsr<VT, IT>> A(fillb);
        Coo_to_CrCsr(A.get(), B);
        snprintf(w, 100, "compressed-row CSR from %s", src);
        CHECK(A->nonzeros() == m.e.size(), "%s: wrong number of non-zeros", w);
        mult(w, [&](VT * px, VT * py) { spmv(A.get(), px, py); });
        snprintf(w, 100, "compressed-row CSR (serial) from %s", src);
        mult(w, [&](VT * px, VT * py) { spmv_serial(A.get(), px, py); });
        release(*A);
    }

    template <template <typename, typename> class COO> void cswr(COO<VT, IT> * B, const char * src)
    {
        char w[100];
        unsigned how = c.draw(5);
        uint64_t width = how == 0 ? DEFAULT_CSWR_WIDTH
                       : how == 1 ? 1 + c.draw(300)
                       : how == 4 ? std::min<uint64_t>(std::numeric_limits<IT>::max(), 1ull << 32) - c.draw(c.draw(2) ? 3 : std::min<uint64_t>(100000, std::numeric_limits<IT>::max()))
                       : how == 2 ? std::max<uint64_t>(1, m.rows - 1 + c.draw(3))
                       : c.pick<uint64_t>({1, 2, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537});
        if (how == 2 && width > 60000) width = 60000;
        width = std::min<uint64_t>(width, std::numeric_limits<IT>::max());
        c.desc("width=%lu; ", (unsigned long) width);
        snprintf(w, 100, "wide rows of %lu from %s", (unsigned long) width, src);
        if (width <= 256 && c.draw(2) == 0) {
            Obj<Cswr<VT, IT, uint8_t>> A(fillb);
            if (how == 0) Coo_to_Cswr(A.get(), B); else Coo_to_Cswr(A.get(), B, (IT) width);
            mult_cswr(A, w); release(*A);
        } else if (width <= 65536 && c.draw(2) == 0) {
            Obj<Cswr<VT, IT, uint16_t>> A(fillb);
            if (how == 0) Coo_to_Cswr(A.get(), B); else Coo_to_Cswr(A.get(), B, (IT) width);
            mult_cswr(A, w); release(*A);
        } else {
            Obj<Cswr<VT, IT, uint32_t>> A(fillb);
            if (how == 0) Coo_to_Cswr(A.get(), B); else Coo_to_Cswr(A.get(), B, (IT) width);
            mult_cswr(A, w); release(*A);
        }
    }

    template <template <typename, typename> class COO> void dense(COO<VT, IT> * B, const char * src)
    {
        char w[100];
        snprintf(w, 100, "dense from %s", src);
        if (c.draw(2) == 0) {
            Obj<BlockDense<VT, IT>> A(fillb);
            Coo_to_Dense(A.get(), B);
            mult(w, [&](VT * px, VT * py) { A->spmv(px, py); });
            snprintf(w, 100, "dense (serial) from %s", src);
            mult(w, [&](VT * px, VT * py) { A->spmv_serial(px, py); });
            release(*A);
        } else {
            DenseSerial<VT, IT> A;
            Coo_to_Dense(&A, B);
            mult(w, [&](VT * px, VT * py) { A.spmv(px, py); });
            release(A);
        }
    }

    void dense_elements(Coo3<VT, IT> * B)
    {
        if (c.draw(2)) {
            DenseParallel<VT, IT> A(B->elements, B->rows, B->columns, B->nnz);
            mult("dense from elements", [&](VT * px, VT * py) { A.spmv(px, py); });
        } else {
            DenseSerial<VT, IT> A(B->elements, B->rows, B->columns, B->nnz);
            mult("dense (serial) from elements", [&](VT * px, VT * py) { A.spmv(px, py); });
        }
    }
};

void run(pbt::Case & c)
{
    Opt o;
    o.max_nnz = 6000;
    o.flat = 60;
    if (sizeof(IT) > 2) o.big = 150;
    unsigned fmt = c.draw(8);
    if (fmt == 7) o.max_dim = 400; else o.huge_dim = sizeof(IT) > 2 ? 70000 : std::numeric_limits<IT>::max();
    int threads = c.pick<int>({1, 2, 3, 4, 8, 5, 1, 4, 2, 24});
    omp_set_num_threads(threads);
    c.desc("threads=%d; ", threads);
    Mat m = gen_mat<VT>(c, o);
    Run r{c, m, gen_vec<VT>(c, m.cols), gen_vec<VT>(c, m.rows, true), {}, (int) c.pick<int>({0x00, 0xff, 0x01, 0xa5})};
    r.want = product(m, r.x, r.y0);
    bool changes = false;
    for (size_t i = 0; i < r.want.size(); i++) changes |= r.want[i] != r.y0[i];
    if (changes) c.nontrivial();
    if (has_dups(m)) c.label("repeated entries");

    unsigned src = c.draw(2);        // which coordinate layout feeds the format
    static const char * names[] = {"coo(3 arrays)", "coo(triplets)", "coo(elements)", "coo to coo", "csr", "crcsr", "cswr", "dense"};
    c.label(names[fmt]);
    c.desc("format=%s from %s; ", names[fmt], src ? "elements" : "triplets");

    if (fmt == 0) {
        Coo<VT, IT, IT> A;
        fill(&A, m);
        r.mult(names[0], [&](VT * px, VT * py) { A.spmv(px, py); });
        CHECK(A.nonzeros() == m.e.size(), "number of non-zeros");
        release(A);
        return;
    }
    Obj<Coo2<VT, IT>> B2(r.fillb);
    Obj<Coo3<VT, IT>> B3(r.fillb);
    if (src == 0) fill(B2.get(), m); else fill(B3.get(), m);
    switch (fmt) {
        case 1: case 2:
            if (src == 0) r.mult(names[1], [&](VT * px, VT * py) { B2->spmv(px, py); });
            else r.mult(names[2], [&](VT * px, VT * py) { B3->spmv(px, py); });
            break;
        case 3: {
            // From one coordinate layout to another
            if (src == 0) {
                Coo<VT, IT, IT> A; Coo_to_Coo(&A, B2.get());
                CHECK(A.rows == m.rows && A.columns == m.cols && A.nonzeros() == m.e.size(), "coo to coo: dimensions");
                r.mult("coo(3 arrays) from triplets", [&](VT * px, VT * py) { A.spmv(px, py); });
                Obj<Coo3<VT, IT>> C(r.fillb);
                Coo_to_Coo(C.get(), A.val, A.I, A.J, A.rows, A.columns, A.nnz);
                CHECK(C->rows == m.rows && C->columns == m.cols && C->nonzeros() == m.e.size(), "coo to coo: dimensions");
                r.mult("elements from 3 arrays", [&](VT * px, VT * py) { C->spmv(px, py); });
                release(A); release(*C);
            } else {
                Obj<Coo2<VT, IT>> A(r.fillb); Coo_to_Coo(A.get(), B3.get());
                CHECK(A->rows == m.rows && A->columns == m.cols && A->nonzeros() == m.e.size(), "coo to coo: dimensions");
                r.mult("triplets from elements", [&](VT * px, VT * py) { A->spmv(px, py); });
                Coo<VT, IT, IT> D;
                Coo_to_Coo(&D, A->triplets, A->rows, A->columns, A->nnz);
                CHECK(D.rows == m.rows && D.columns == m.cols && D.nonzeros() == m.e.size(), "coo to coo: dimensions");
                r.mult("3 arrays from an array of triplets", [&](VT * px, VT * py) { D.spmv(px, py); });
                release(*A); release(D);
            }
            break;
        }
        case 4:
            if (c.draw(4) == 3) {
                if (src == 0) r.csr_array(B2->triplets, "triplets"); else r.csr_array(B3->elements, "elements");
            } else if (src == 0) r.csrs(B2.get(), "triplets"); else r.csrs(B3.get(), "elements");
            break;
        case 5: if (src == 0) r.crcsr(B2.get(), "triplets"); else r.crcsr(B3.get(), "elements"); break;
        case 6: if (src == 0) r.cswr(B2.get(), "triplets"); else r.cswr(B3.get(), "elements"); break;
        case 7:
            if (src == 0) r.dense(B2.get(), "triplets");
            else if (c.draw(2)) r.dense(B3.get(), "elements");
            else r.dense_elements(B3.get());
            break;
    }
    if (src == 0) release(*B2); else release(*B3);
}

pbt::Reg reg(TAG, run);

} // namespace
