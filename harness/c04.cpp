// C04: parallel routines are free of data races and independent of the number of threads.
// Built with ThreadSanitizer (OpenMP annotations by the runtime's archer tool) and without.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>
#include <functional>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
#include "permute.h"
#include "expand.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

#include "blk.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

enum { F_CSR, F_CSR2, F_CRCSR, F_CSWR, F_DENSE, F_CSBR, F_CSBR2, F_CGBR, F_CGBR2, F_CGBR2X, F_PERMUTE, F_EXPAND, F_SORT, F_TOGETHER, NFMT };
const char * names[] = {"csr", "csr(2)", "crcsr", "cswr", "dense", "csbr", "csbr(2)", "cgbr", "cgbr(2)", "cgbr(2) any blocks",
                        "permute", "expand", "sort", "different matrices at the same time"};

struct AnyFactory : public BlockFactory<VT, IT> {
    pbt::Rng g;
    double spent = 0;
    AnyFactory(uint64_t seed) : g(seed) {}
    MatrixType create(BlockBase<VT, IT> ** target, Element<VT, IT> * array, IT rows, IT columns, IT nnz)
    {
        unsigned k = g.below(4);
        double cost = k == 2 ? (double) rows * columns : k ? (double) rows : 0;
        if (cost > 100000 || (spent += cost) > 2e7) k = 0;        // all blocks together must fit into memory
        switch (k) {
            case 1: *target = new BlockCsrParallel<VT, IT, SIT>(array, rows, columns, nnz); return BLOCK_CSR_PAR;
            case 2: *target = new DenseParallel<VT, IT>(array, rows, columns, nnz); return BLOCK_DENSE;
            case 3: *target = new BlockCsrSerial<VT, IT, SIT>(array, rows, columns, nnz); return BLOCK_CSR;
            default: *target = new Coo<VT, IT, SIT>(array, nnz); return BLOCK_COO;
        }
    }
};

struct Run {
    pbt::Case & c;
    const Mat & m;
    int threads;
    std::vector<double> x, y0, want;

    template <class F> void mult(const char * what, F f)
    {
        unsigned again = c.draw(2);
        Vec<VT> vx(x), vy(y0);
        omp_set_num_threads(threads);
        f(vx.p, vy.p);
        vy.expect(want, what);
        if (again) {
            f(vx.p, vy.p);
            vy.expect(product(m, x, want), what);
        }
        if (unsigned several = c.draw(4) == 3 ? 2 + c.draw(3) : 0) {      // products of one matrix at the same time
            unsigned levels = 1 + (c.draw(8) == 7);     // nesting makes the runtime itself fail now and then
            std::vector<Vec<VT> *> ys;
            for (unsigned i = 0; i < several; i++) ys.push_back(new Vec<VT>(y0));
            omp_set_max_active_levels(levels);
            if (levels > 1) omp_set_num_threads(2);
            #pragma omp parallel num_threads(several)
            for (int i = omp_get_thread_num(); i < (int) several; i += omp_get_num_threads()) f(vx.p, ys[i]->p);
            omp_set_max_active_levels(1);
            for (auto p : ys) { p->expect(want, what); delete p; }
            c.label(levels > 1 ? "several products at once, nested" : "several products at once");
            c.desc("%u products at once, %u levels; ", several, levels);
        }
        Vec<VT> v1(y0);
        omp_set_num_threads(1);
        f(vx.p, v1.p);
        v1.expect(want, what);
        omp_set_num_threads(threads);
    }
};

void permute_case(pbt::Case & c, int threads)
{
    uint64_t n = 1 + c.draw(3000);
    pbt::Rng g(c.seed());
    std::vector<IT> p(n), q;
    for (uint64_t i = 0; i < n; i++) p[i] = i;
    for (uint64_t i = n; i-- > 1;) std::swap(p[i], p[g.below(i + 1)]);
    omp_set_num_threads(threads);
    IT * inv = invert_permutation(p.data(), (IT) n);
    for (uint64_t i = 0; i < n; i++) CHECK(inv[p[i]] == i, "inverse permutation, element %lu", (unsigned long) i);
    q = p;
    permute_indeces(q.data(), inv, (IT) n);
    for (uint64_t i = 0; i < n; i++) CHECK(q[i] == i, "permutation and inverse, element %lu", (unsigned long) i);
    uint64_t k = c.draw(3000);
    std::vector<Triplet<VT, IT>> t(k);
    for (auto & e : t) { e.row = g.below(n); e.col = g.below(n); e.val = 1; }
    auto o = t;
    permute_indeces(t.data(), (IT) k, p.data());
    for (uint64_t i = 0; i < k; i++) CHECK(t[i].row == p[o[i].row] && t[i].col == p[o[i].col], "permuted entry %lu", (unsigned long) i);
    delete [] inv;
    if (n > 64 && threads > 1) c.nontrivial();
    c.desc("permutation of %lu; ", (unsigned long) n);
}

void expand_case(pbt::Case & c, int threads)
{
    uint64_t n = 1 + c.draw(3000);
    std::vector<uint64_t> s = gen_partition(c, n, 500);
    std::vector<IT> sizes(s.begin(), s.end()), off(s.size() + 1);
    for (size_t i = 0; i < s.size(); i++) off[i + 1] = off[i] + sizes[i];
    uint64_t big = 1;
    for (auto v : s) while (big < v) big *= 2;
    pbt::Rng g(c.seed());
    uint64_t k = c.draw(3000);
    std::vector<IT> a(k);
    for (auto & v : a) v = g.below(n);
    auto o = a;
    omp_set_num_threads(threads);
    IT bs = expand_indeces(a.data(), (IT) k, sizes.data(), (IT) s.size());
    CHECK(bs == big, "expanded to blocks of %lu, expected %lu", (unsigned long) bs, (unsigned long) big);
    for (uint64_t i = 0; i < k; i++) {
        uint64_t b = std::upper_bound(off.begin(), off.end(), o[i]) - off.begin() - 1;
        CHECK(a[i] == o[i] - off[b] + b * big, "expanded index %lu", (unsigned long) i);
    }
    // Entries with a block number
    uint64_t nb = s.size();
    if (nb * big <= 60000 && nb * nb <= std::min<uint64_t>(std::numeric_limits<IT>::max(), 1u << 30)) {
        std::vector<Element<VT, IT>> t(k);
        for (auto & e : t) {
            uint64_t r = g.below(n), q = g.below(n);
            e.row = r; e.col = q; e.val = 1;
            r = std::upper_bound(off.begin(), off.end(), (IT) r) - off.begin() - 1;
            q = std::upper_bound(off.begin(), off.end(), (IT) q) - off.begin() - 1;
            e.block = r * nb + q;
        }
        auto u = t;
        bs = expand_indeces(t.data(), (IT) k, sizes.data(), off.data(), (IT) nb);
        CHECK(bs == big, "entries expanded to blocks of %lu, expected %lu", (unsigned long) bs, (unsigned long) big);
        for (uint64_t i = 0; i < k; i++) {
            uint64_t r = u[i].block / nb, q = u[i].block % nb;
            CHECK(t[i].row == u[i].row - off[r] + r * big && t[i].col == u[i].col - off[q] + q * big, "expanded entry %lu", (unsigned long) i);
        }
        c.label("entries expanded");
    }
    if (k > 64 && threads > 1) c.nontrivial();
    c.desc("expand %lu indices; ", (unsigned long) k);
}

void sort_case(pbt::Case & c, int threads)
{
    uint64_t k = c.draw(4) == 0 ? c.draw(c.draw(8) == 7 ? 150000 : 40000) : c.draw(9000);
    unsigned how = c.draw(4);
    pbt::Rng g(c.seed());
    uint64_t range = 1 + c.draw(300);
    std::vector<Element<VT, IT>> t(k);
    for (uint64_t i = 0; i < k; i++) { t[i].row = g.below(range); t[i].col = g.below(range); t[i].val = (VT) (i % 65536); t[i].block = g.below(range); }
    auto o = t;
    omp_set_num_threads(threads);
    typedef Element<VT, IT> E;
    bool (*less)(const E &, const E &);
    switch (how) {
        case 0: sort_triplets(t.data(), (IT) k);
                less = [](const E & a, const E & b) { return a.row != b.row ? a.row < b.row : a.col < b.col; }; break;
        case 1: sort_triplets(t.data(), (IT) k, false);
                less = [](const E & a, const E & b) { return a.col != b.col ? a.col < b.col : a.row < b.row; }; break;
        case 2: sort_elements_blocks(t.data(), (IT) k);
                less = [](const E & a, const E & b) { return a.block != b.block ? a.block < b.block : a.row != b.row ? a.row < b.row : a.col < b.col; }; break;
        default: sort_triplets_widerows(t.data(), (IT) k, (IT) 1);
                less = [](const E & a, const E & b) { return a.row != b.row ? a.row < b.row : a.col < b.col; }; break;
    }
    std::stable_sort(o.begin(), o.end(), less);
    for (uint64_t i = 0; i < k; i++)
        CHECK(t[i].row == o[i].row && t[i].col == o[i].col && t[i].val == o[i].val && t[i].block == o[i].block,
              "sort %u with %d threads: entry %lu of %lu differs", how, threads, (unsigned long) i, (unsigned long) k);
    if (k > 2000 && threads > 1) c.nontrivial();
    c.desc("sort %u of %lu entries; ", how, (unsigned long) k);
}

// Each thread has a matrix, and files, of its own. (OpenMP threads: the runtime itself crashes and hangs now and then
// when several threads of the program's own use it.)
struct Job {
    Mat m;
    Blocking b;
    unsigned fmt, file, rounds;
    bool balanced;
    int fillb, threads;
    uint64_t seed;
    std::string name;
    std::vector<double> x, y0, want;

    void mult(std::function<void(VT *, VT *)> f)
    {
        Vec<VT> vx(x), vy(y0);
        f(vx.p, vy.p);
        vy.expect(want, names[fmt]);
    }

    template <class COO> void files(COO * A)
    {
        Obj<COO> R(fillb);
        std::string n = name + (file == 1 ? ".mtx" : ".bin"), n2 = name + "_r", n3 = name + "_c", n4 = name + "_v";
        int w = file == 1 ? write_mm_COO(A, n.c_str()) : file == 2 ? write_bin_COO(*A, n.c_str()) : write_bin_COO(A, n2.c_str(), n3.c_str(), n4.c_str());
        CHECK(w == 0, "writing %s failed: %d", n.c_str(), w);
        int q = file == 3 ? read_bin_COO(R.get(), n2.c_str(), n3.c_str(), n4.c_str()) : read_COO(R.get(), n.c_str());
        CHECK(q == 0, "reading %s failed: %d", n.c_str(), q);
        CHECK(R->nnz == A->nnz, "%s: %lu entries", n.c_str(), (unsigned long) R->nnz);
        for (IT i = 0; i < A->nnz; i++)
            CHECK(R->get_row_index(i) == A->get_row_index(i) && R->get_column_index(i) == A->get_column_index(i) && R->get_value(i) == A->get_value(i),
                  "%s: entry %lu differs", n.c_str(), (unsigned long) i);
        release(*R);
        for (auto & q : {n, n2, n3, n4}) unlink(q.c_str());
    }

    void once()
    {
        if (threads) omp_set_num_threads(threads);
        Obj<Coo3<VT, IT>> B(fillb);
        fill(B.get(), m);
        if (file) files(B.get());
        if (fmt == F_CSR) {
            Obj<Csr<VT, IT>> A(fillb); Coo_to_Csr(A.get(), B.get());
            mult([&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else if (fmt == F_CSR2) {
            Obj<Csr2<VT, IT>> A(fillb); Coo_to_Csr(A.get(), B.get());
            mult([&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else if (fmt == F_CRCSR) {
            Obj<CompRowCsr<VT, IT>> A(fillb); Coo_to_CrCsr(A.get(), B.get());
            mult([&](VT * px, VT * py) { spmv(A.get(), px, py); });
            release(*A);
        } else if (fmt == F_CSWR) {
            Obj<Cswr<VT, IT, SIT>> A(fillb); Coo_to_Cswr(A.get(), B.get(), (IT) (1 + seed % 100));
            mult([&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else if (fmt == F_DENSE) {
            Obj<BlockDense<VT, IT>> A(fillb); Coo_to_Dense(A.get(), B.get());
            mult([&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else {
            IT * ro = offsets_new<IT>(b.rs);
            IT * co = b.same ? ro : offsets_new<IT>(b.cs);
            IT nr = b.rs.size(), nc = b.cs.size();
            if (fmt == F_CSBR) {
                Obj<Csbr<VT, IT>> A(fillb); Coo_to_Csbr(A.get(), B.get(), ro, nr, co, nc);
                A->balanced = balanced;
                mult([&](VT * px, VT * py) { A->spmv(px, py); });
                release(*A);
            } else if (fmt == F_CSBR2) {
                Obj<Csbr2<VT, IT>> A(fillb); Coo_to_Csbr(A.get(), B.get(), ro, nr, co, nc);
                mult([&](VT * px, VT * py) { A->spmv(px, py); });
                release(*A);
            } else if (fmt == F_CGBR) {
                Obj<Cgbr<VT, IT, SIT>> A(fillb); Coo_to_Cgbr(A.get(), B.get(), ro, nr, co, nc);
                A->balanced = balanced;
                mult([&](VT * px, VT * py) { A->spmv(px, py); });
                release(*A);
            } else {
                Obj<Cgbr2<VT, IT, SIT>> A(fillb);
                if (fmt == F_CGBR2) Coo_to_Cgbr(A.get(), B.get(), ro, nr, co, nc);
                else { AnyFactory f(seed); Coo_to_Cgbr(A.get(), B.get(), ro, nr, co, nc, f); }
                A->balanced = balanced;
                mult([&](VT * px, VT * py) { A->spmv(px, py); });
                release(*A);
            }
        }
        release(*B);
    }
};

void together_case(pbt::Case & c, int threads)
{
    unsigned k = 2 + c.draw(3), levels = 1 + (c.draw(8) == 7);
    uint64_t most = c.draw(4) == 3 ? 3000 : 300;
    // Often they all do the same thing: that is when they meet in the same code.
    int fmt = c.draw(2) ? (int) c.draw(F_CGBR2X + 1) : -1, file = c.draw(2) ? 1 + (int) c.draw(3) : -1;
    std::vector<Job> jobs(k);
    for (unsigned i = 0; i < k; i++) {
        Job & j = jobs[i];
        j.fmt = fmt < 0 ? c.draw(F_CGBR2X + 1) : fmt;
        j.file = file > 0 ? file : c.draw(2) ? c.draw(4) : 0;
        j.rounds = 1 + c.draw(3);
        j.balanced = c.draw(2);
        j.fillb = c.pick<int>({0x00, 0xff, 0x01, 0xa5});
        j.threads = levels > 1 ? 2 : 0;
        j.seed = c.seed();
        j.name = "t" + std::to_string(i);
        Opt o;
        o.max_dim = j.fmt == F_DENSE ? 100 : 400;
        o.max_nnz = most;
        o.big = 0;
        j.m = gen_mat<VT>(c, o);
        BlkOpt bo;
        bo.max_blocks = 1 << 16;
        bo.max_row_elems = 1 << 14;
        if (j.fmt >= F_CSBR) j.b = gen_blocking(c, j.m, bo);
        j.x = gen_vec<VT>(c, j.m.cols);
        j.y0 = gen_vec<VT>(c, j.m.rows, true);
        j.want = product(j.m, j.x, j.y0);
        c.desc("%s, %u rounds; ", names[j.fmt], j.rounds);
    }
    c.nontrivial();
    omp_set_max_active_levels(levels);
    #pragma omp parallel for schedule(static, 1) num_threads(k)
    for (unsigned i = 0; i < k; i++) for (unsigned r = 0; r < jobs[i].rounds; r++) jobs[i].once();
    omp_set_max_active_levels(1);
    omp_set_num_threads(threads);
    c.desc("%u at the same time, %s; ", k, levels > 1 ? "nested" : "one level");
}

void run(pbt::Case & c)
{
    unsigned fmt = c.draw(NFMT + 3);
    if (fmt >= NFMT) fmt = F_CSBR + 2 * (fmt - NFMT) / 2 + (fmt - NFMT) % 2;   // blocked formats more often
    if (fmt >= NFMT) fmt = F_CGBR;
    int threads = c.pick<int>({2, 4, 8, 3, 16});
    c.label(names[fmt]);
    c.label("threads " + std::to_string(threads));
    c.desc("%s, threads=%d; ", names[fmt], threads);
    omp_set_num_threads(threads);
    if (fmt == F_PERMUTE) return permute_case(c, threads);
    if (fmt == F_EXPAND) return expand_case(c, threads);
    if (fmt == F_SORT) return sort_case(c, threads);
    if (fmt == F_TOGETHER) return together_case(c, threads);

    Opt o;
    o.max_dim = fmt == F_DENSE ? 200 : c.draw(3) == 0 ? 200 : 2500;
    o.max_nnz = 5000;
    o.big = 60;
    Mat m = gen_mat<VT>(c, o);
    Run r{c, m, threads, gen_vec<VT>(c, m.cols), gen_vec<VT>(c, m.rows, true), {}};
    r.want = product(m, r.x, r.y0);
    if (m.e.size() > 12 && m.rows > 1) c.nontrivial();
    int fillb = c.pick<int>({0x00, 0xff, 0x01, 0xa5});
    Obj<Coo3<VT, IT>> B(fillb);
    fill(B.get(), m);

    if (fmt == F_CSR) {
        Obj<Csr<VT, IT>> A(fillb); Coo_to_Csr(A.get(), B.get());
        r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
        release(*A);
    } else if (fmt == F_CSR2) {
        Obj<Csr2<VT, IT>> A(fillb); Coo_to_Csr(A.get(), B.get());
        r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
        release(*A);
    } else if (fmt == F_CRCSR) {
        Obj<CompRowCsr<VT, IT>> A(fillb); Coo_to_CrCsr(A.get(), B.get());
        r.mult(names[fmt], [&](VT * px, VT * py) { spmv(A.get(), px, py); });
        release(*A);
    } else if (fmt == F_CSWR) {
        Obj<Cswr<VT, IT, SIT>> A(fillb); Coo_to_Cswr(A.get(), B.get(), (IT) (1 + c.draw(100)));
        r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
        release(*A);
    } else if (fmt == F_DENSE) {
        if (c.draw(2)) {
            Obj<BlockDense<VT, IT>> A(fillb); Coo_to_Dense(A.get(), B.get());
            r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else {
            DenseParallel<VT, IT> A(B->elements, B->rows, B->columns, B->nnz);
            r.mult(names[fmt], [&](VT * px, VT * py) { A.spmv(px, py); });
        }
    } else {
        BlkOpt bo;
        bo.max_blocks = 1 << 20;
        bo.max_row_elems = 1 << 18;
        Blocking b = gen_blocking(c, m, bo);
        IT * ro = offsets_new<IT>(b.rs);
        IT * co = b.same ? ro : offsets_new<IT>(b.cs);
        IT nr = b.rs.size(), nc = b.cs.size();
        bool balanced = c.draw(3) == 0;
        c.desc("%s; ", balanced ? "balanced" : "unbalanced");
        if (fmt != F_CSBR2) c.label(balanced ? "balanced" : "unbalanced");
        if (fmt == F_CSBR) {
            Obj<Csbr<VT, IT>> A(fillb);
            if (c.draw(2)) Coo_to_Csbr(A.get(), B.get(), ro, nr, co, nc);
            else { Obj<Coo2<VT, IT>> B2(fillb); fill(B2.get(), m); Coo_to_Csbr(A.get(), B2.get(), ro, nr, co, nc); release(*B2); }
            A->balanced = balanced;
            r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else if (fmt == F_CSBR2) {
            Obj<Csbr2<VT, IT>> A(fillb); Coo_to_Csbr(A.get(), B.get(), ro, nr, co, nc);
            r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else if (fmt == F_CGBR) {
            Obj<Cgbr<VT, IT, SIT>> A(fillb); Coo_to_Cgbr(A.get(), B.get(), ro, nr, co, nc);
            A->balanced = balanced;
            r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        } else {
            Obj<Cgbr2<VT, IT, SIT>> A(fillb);
            if (fmt == F_CGBR2) Coo_to_Cgbr(A.get(), B.get(), ro, nr, co, nc);
            else { AnyFactory f(c.seed()); Coo_to_Cgbr(A.get(), B.get(), ro, nr, co, nc, f); }
            A->balanced = balanced;
            r.mult(names[fmt], [&](VT * px, VT * py) { A->spmv(px, py); });
            release(*A);
        }
    }
    release(*B);
}

pbt::Reg reg(TAG, run);

} // namespace
