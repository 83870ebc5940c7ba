// C02: blocked CSR formats multiply exactly for every blocking.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "generic/gsb.h"

#include "blk.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

const int THREADS[] = {1, 2, 3, 4, 8, 5, 2, 4, 8, 24};

template <class M> void mult(pbt::Case & c, M & A, const Mat & m, const std::vector<double> & x,
                             const std::vector<double> & y0, const std::vector<double> & want, const char * what)
{
    Vec<VT> vx(x), vy(y0);
    A->spmv(vx.p, vy.p);
    vy.expect(want, what);
    if (c.draw(4) == 3) {
        omp_set_num_threads(THREADS[c.draw(10)]);
        A->spmv(vx.p, vy.p);
        vy.expect(product(m, x, want), what);
    }
    vx.expect(x, "x changed");
}

template <class M, class COO> void construct(pbt::Case & c, M * A, COO * B, const Blocking & b)
{
    bool generic = c.draw(2);
    if (b.constant) {
        if (generic) Coo_to_Blocked(A, B, (IT) b.brs, (IT) b.bcs);
        else Coo_to_Csbr(A, B, (IT) b.brs, (IT) b.bcs);
        return;
    }
    IT * ro = offsets_new<IT>(b.rs);
    IT * co = b.same ? ro : offsets_new<IT>(b.cs);
    if (generic) Coo_to_Blocked(A, B, ro, (IT) b.rs.size(), co, (IT) b.cs.size());
    else Coo_to_Csbr(A, B, ro, (IT) b.rs.size(), co, (IT) b.cs.size());
}

void run(pbt::Case & c)
{
    unsigned fmt = c.draw(3);          // Csbr from triplets, from elements, Csbr2
    Opt o;
    o.huge_dim = 70000;
    o.big = 120;
    omp_set_num_threads(THREADS[c.draw(10)]);
    c.desc("threads=%d; ", omp_get_max_threads());
    Mat m = gen_mat<VT>(c, o);
    BlkOpt bo;
    // The numbers of the blocks of elements have to fit the index type
    bo.max_blocks = fmt == 0 ? 1ull << 40 : block_numbers<IT>();
    Blocking b;
    if (!gen_last_block<VT, IT>(c, 60, m, b)) b = gen_blocking(c, m, bo);
    std::vector<double> x = gen_vec<VT>(c, m.cols), y0 = gen_vec<VT>(c, m.rows, true);
    std::vector<double> want = product(m, x, y0);
    static const char * names[] = {"CSBR from triplets", "CSBR from elements", "CSBR(2)"};
    bool balanced = c.draw(3) == 0;
    if (b.rs.size() * b.cs.size() > 1) c.nontrivial();
    if (has_dups(m)) c.label("repeated entries");
    int fillb = c.pick<int>({0x00, 0xff, 0x01, 0xa5});
    c.label(names[fmt]);
    c.desc("%s; ", names[fmt]);

    if (fmt < 2) {
        c.label(balanced ? "balanced" : "unbalanced");
        c.desc("%s; ", balanced ? "balanced" : "unbalanced");
        Obj<Csbr<VT, IT>> A(fillb);
        if (fmt == 0) { Obj<Coo2<VT, IT>> B(fillb); fill(B.get(), m); construct(c, A.get(), B.get(), b); release(*B); }
        else { Obj<Coo3<VT, IT>> B(fillb); fill(B.get(), m); construct(c, A.get(), B.get(), b); release(*B); }
        expect_blocking(*A, b, names[fmt]);
        CHECK(A->nonzeros() == m.e.size(), "%s: wrong number of non-zeros", names[fmt]);
        A->balanced = balanced;
        if (c.draw(4) == 3) omp_set_num_threads(THREADS[c.draw(10)]);
        mult(c, A, m, x, y0, want, names[fmt]);
        release(*A);
    } else {
        Obj<Csbr2<VT, IT>> A(fillb);
        Obj<Coo3<VT, IT>> B(fillb);
        fill(B.get(), m);
        construct(c, A.get(), B.get(), b);
        release(*B);
        expect_blocking(*A, b, names[fmt]);
        CHECK(A->nonzeros() == m.e.size(), "%s: wrong number of non-zeros", names[fmt]);
        mult(c, A, m, x, y0, want, names[fmt]);
        release(*A);
    }
}

pbt::Reg reg(TAG, run);

} // namespace
