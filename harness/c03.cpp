// C03: generalised block formats multiply exactly for every mix of block kinds.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"

#include "blk.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;

void fill(Coo3<VT, IT> * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

const int THREADS[] = {1, 2, 3, 4, 8, 5, 2, 4, 8, 24};

// Chooses kinds at random
struct AnyFactory : public BlockFactory<VT, IT> {
    pbt::Rng g;
    unsigned kinds;
    unsigned used = 0;
    double spent = 0;
    AnyFactory(uint64_t seed, unsigned k) : g(seed), kinds(k) {}
    MatrixType create(BlockBase<VT, IT> ** target, Element<VT, IT> * array, IT rows, IT columns, IT nnz)
    {
        unsigned k = kinds < 5 ? kinds : g.below(5);
        double cost = k == 2 || k == 3 ? (double) rows * columns : k == 1 || k == 4 ? (double) rows : 0;
        if (cost > 300000 || (spent += cost) > 2e7) k = 0;       // all blocks together must fit into memory
        used |= 1u << k;
        switch (k) {
            case 1: *target = new BlockCsrSerial<VT, IT, SIT>(array, rows, columns, nnz); return BLOCK_CSR;
            case 4: *target = new BlockCsrParallel<VT, IT, SIT>(array, rows, columns, nnz); return BLOCK_CSR_PAR;
            case 2: *target = new DenseSerial<VT, IT>(array, rows, columns, nnz); return BLOCK_DENSE;
            case 3: *target = new DenseParallel<VT, IT>(array, rows, columns, nnz); return BLOCK_DENSE;
            default: *target = new Coo<VT, IT, SIT>(array, nnz); return BLOCK_COO;
        }
    }
};

struct Run {
    pbt::Case & c;
    const Mat & m;
    std::vector<double> x, y0, want;

    template <class F> void mult(const char * what, F f)
    {
        Vec<VT> vx(x), vy(y0);
        f(vx.p, vy.p);
        vy.expect(want, what);
        vx.expect(x, "x changed");
        if (c.draw(4) == 3) {
            omp_set_num_threads(THREADS[c.draw(10)]);
            f(vx.p, vy.p);
            vy.expect(product(m, x, want), what);
        }
    }
};

template <class M> void kinds(pbt::Case & c, M & A)
{
    static const char * names[] = {"blocks: coo", "blocks: csr", "blocks: dense", "", "blocks: csr (parallel)", ""};
    for (int i = 0; i < MATRIX_TYPE_NUM; i++) if (A->type_block_count[i]) c.label(names[i]);
}

// Dense within some blocks: otherwise every block would be of the coordinate kind
void densify(pbt::Case & c, Mat & m, const Blocking & b, uint64_t max_extra)
{
    unsigned k = c.draw(4);
    if (k == 0) return;
    pbt::Rng g(c.seed());
    Opt o;
    uint64_t extra = 0;
    for (unsigned n = 0; n < k * 3; n++) {
        uint64_t br = g.below(b.rs.size()), bc = g.below(b.cs.size());
        unsigned pct = g.below(4) == 0 ? 100 : 3 + g.below(97);
        double area = (double) b.rs[br] * b.cs[bc];
        if (area * pct / 100 > 8000 || extra > max_extra) continue;
        for (uint64_t i = 0; i < b.rs[br]; i++)
            for (uint64_t j = 0; j < b.cs[bc]; j++)
                if (g.chance(pct)) {
                    m.e.push_back({b.ro[br] + i, b.co[bc] + j, gen_value<VT>(g.next(), o)});
                    extra++;
                }
    }
    if (extra) { c.label("with dense blocks"); c.desc("+%lu entries in dense blocks; ", (unsigned long) extra); }
}

void run(pbt::Case & c)
{
    unsigned fmt = c.draw(3);          // Cgbr, Cgbr2 with the default choice, Cgbr2 with any choice
    Opt o;
    o.max_nnz = 4000;
    o.big = 120;
    const bool tiny = sizeof(SIT) == 1;
    o.max_dim = tiny ? 1500 : 3000;
    if (!tiny) o.huge_dim = 70000;
    omp_set_num_threads(THREADS[c.draw(10)]);
    c.desc("threads=%d; ", omp_get_max_threads());
    Mat m = gen_mat<VT>(c, o);
    BlkOpt bo;
    bo.max_blocks = block_numbers<IT>();
    bo.max_size = small_indices<SIT>();
    Blocking b;
    if (tiny || !gen_last_block<VT, IT>(c, 80, m, b)) b = gen_blocking(c, m, bo);
    densify(c, m, b, 20000);
    Run r{c, m, gen_vec<VT>(c, m.cols), gen_vec<VT>(c, m.rows, true), {}};
    r.want = product(m, r.x, r.y0);
    if (b.rs.size() * b.cs.size() > 1 && !m.e.empty()) c.nontrivial();
    int fillb = c.pick<int>({0x00, 0xff, 0x01, 0xa5});
    static const char * names[] = {"CGBR", "CGBR(2)", "CGBR(2) with other block kinds"};
    c.label(names[fmt]);
    c.desc("%s; ", names[fmt]);

    Obj<Coo3<VT, IT>> B(fillb);
    fill(B.get(), m);
    auto build = [&](auto * A) {
        bool generic = c.draw(2);
        if (b.constant) {
            if (generic) Coo_to_Blocked(A, B.get(), (IT) b.brs, (IT) b.bcs);
            else Coo_to_Cgbr(A, B.get(), (IT) b.brs, (IT) b.bcs);
        } else {
            IT * ro = offsets_new<IT>(b.rs);
            IT * co = b.same ? ro : offsets_new<IT>(b.cs);
            if (generic) Coo_to_Blocked(A, B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size());
            else Coo_to_Cgbr(A, B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size());
        }
        release(*B);
    };
    auto multiply = [&](auto & A) {
        expect_blocking(*A, b, names[fmt]);
        CHECK(A->nonzeros() == m.e.size(), "%s: %lu non-zeros, expected %lu", names[fmt], (unsigned long) A->nonzeros(), (unsigned long) m.e.size());
        unsigned how = c.draw(3);       // as marked, other strategy, both
        bool as_built = A->balanced;
        if (c.draw(4) == 3) omp_set_num_threads(THREADS[c.draw(10)]);
        for (int k = 0; k < 2; k++) {
            if (how != 2 && (unsigned) k != how) continue;
            A->balanced = k ? !as_built : as_built;
            c.label(A->balanced ? "balanced" : "unbalanced");
            c.desc("%s; ", A->balanced ? "balanced" : "unbalanced");
            r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
        }
    };

    if (fmt == 0) {
        Obj<Cgbr<VT, IT, SIT>> A(fillb);
        build(A.get());
        kinds(c, A);
        multiply(A);
        r.mult("CGBR (serial)", [&](VT * px, VT * py) { A->spmv_serial(px, py); });
        release(*A);
    } else if (fmt == 1) {
        Obj<Cgbr2<VT, IT, SIT>> A(fillb);
        build(A.get());
        kinds(c, A);
        multiply(A);
        release(*A);
    } else {
        AnyFactory f(c.seed(), c.draw(7));
        if (b.constant) { b.constant = false; }
        IT * ro = offsets_new<IT>(b.rs);
        IT * co = b.same ? ro : offsets_new<IT>(b.cs);
        Obj<Cgbr2<VT, IT, SIT>> A(fillb);
        switch (c.draw(3)) {
            case 0: Coo_to_Cgbr(A.get(), B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size(), f); break;
            case 1: A->create(B->elements, B->rows, B->columns, B->nnz, ro, (IT) b.rs.size(), co, (IT) b.cs.size(), f); break;
            default:
                A.p = new (A.raw) Cgbr2<VT, IT, SIT>(B->elements, B->rows, B->columns, B->nnz, ro, (IT) b.rs.size(),
                                                     co, (IT) b.cs.size(), f);
        }
        release(*B);
        kinds(c, A);
        multiply(A);
        release(*A);
    }
}

pbt::Reg reg(TAG, run);

} // namespace
