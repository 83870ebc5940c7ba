// C24: small index types never silently corrupt a matrix.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <omp.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#ifndef NO_CGBR              // does not compile with 16 bits
#include "matrix/cgbr.h"
#endif
#include "matrix/cgbr.2.h"
#include "matrix/block_coo.2.h"
#include "generic/gsb.h"

#include "blk.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;

const uint64_t L = 1ull << std::min<int>(32, std::numeric_limits<SIT>::digits);   // indices the small type can tell apart
const uint64_t CAP = sizeof(IT) == 2 ? std::numeric_limits<IT>::max() : ~0ull;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

// Runs f in a child: true if it came to its end, false if an assertion stopped it
template <class F> bool survives(F f)
{
    pid_t p = fork();
    if (p < 0) pbt::engine_error("fork");
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        f();
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0) ;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == pbt::FAIL_EXIT) _exit(pbt::FAIL_EXIT);    // reported by the child
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return false;
    if (WIFSIGNALED(st)) pbt::fail("the program was killed by signal %d (no assertion)", WTERMSIG(st));
    pbt::fail("the program ended with status %d", WEXITSTATUS(st));
}

// Every block of the same kind
struct OneKind : public BlockFactory<VT, IT> {
    unsigned k;
    explicit OneKind(unsigned kind) : k(kind) {}
    MatrixType create(BlockBase<VT, IT> ** target, Element<VT, IT> * array, IT rows, IT columns, IT nnz)
    {
        unsigned kind = (double) rows * columns > 400000 && (k == 2 || k == 3) ? 0 : k;
        switch (kind) {
            case 1: *target = new BlockCsrSerial<VT, IT, SIT>(array, rows, columns, nnz); return BLOCK_CSR;
            case 4: *target = new BlockCsrParallel<VT, IT, SIT>(array, rows, columns, nnz); return BLOCK_CSR_PAR;
            case 2: *target = new DenseSerial<VT, IT>(array, rows, columns, nnz); return BLOCK_DENSE;
            case 3: *target = new DenseParallel<VT, IT>(array, rows, columns, nnz); return BLOCK_DENSE;
            default: *target = new Coo<VT, IT, SIT>(array, nnz); return BLOCK_COO;
        }
    }
};

// At, just below and just above the limit of the small type, or anything
uint64_t near_limit(pbt::Case & c)
{
    const uint64_t l = L < (1ull << 20) ? L : 256;
    uint64_t s;
    switch (c.draw(7)) {
        case 0: s = l; break;
        case 1: s = l + 1; break;
        case 2: s = l - 1; break;
        case 3: s = l + 1 + c.draw(std::min<uint64_t>(l, 4000)); break;
        case 4: s = 2 * l + c.draw(3) - 1; break;
        case 5: s = 1 + c.draw(l); break;
        default: s = 1 + c.draw(l + l / 4); break;
    }
    return std::min(s, CAP);
}

std::vector<uint64_t> cut(pbt::Case & c, uint64_t n, uint64_t size)
{
    std::vector<uint64_t> s;
    switch (c.draw(3)) {
        case 0: s.push_back(n); break;
        case 1: for (uint64_t p = 0; p < n; p += size) s.push_back(std::min(size, n - p)); break;
        default:
            for (uint64_t p = 0; p < n && s.size() < 3000;) {
                uint64_t k = c.draw(2) ? size : 1 + c.draw(2 * size);
                k = s.size() == 2999 ? n - p : std::min(k, n - p);
                s.push_back(k);
                p += k;
            }
    }
    return s;
}

void run(pbt::Case & c)
{
    static const char * names[] = {"wide rows (CSWR)", "CGBR(2), default kinds", "CGBR(2), one kind of block", "COO", "dense", "CSR of blocks", "CGBR", "block COO(2)"};
#ifdef NO_CGBR
    const unsigned FM[] = {0, 3, 4, 4, 5, 7};
#else
    const unsigned FM[] = {0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 6, 7};
#endif
    unsigned fmt = FM[c.draw(sizeof(FM) / sizeof(*FM))];
    Mat m;
    uint64_t lim = std::max<uint64_t>(1, std::min(L, CAP)), bs_r = near_limit(c), bs_c = c.draw(3) ? near_limit(c) : bs_r;
    bool blocks = fmt == 1 || fmt == 2 || fmt == 6;
    m.rows = c.draw(3) == 2 ? bs_r * (1 + c.draw(3)) + c.draw(3) : bs_r;
    m.cols = c.draw(3) == 2 ? bs_c * (1 + c.draw(3)) + c.draw(3) : bs_c;
    if (c.draw(8) == 7) { Opt o; m.rows = gen_dim(c, 1000, 0); }
    m.rows = std::min<uint64_t>(std::min<uint64_t>(m.rows, CAP), 140000);
    m.cols = std::min<uint64_t>(std::min<uint64_t>(m.cols, CAP), 140000);
    if (fmt == 4) {
        // More elements than the matrix's own index type can count, with 16 bits
        m.rows = 1 + c.draw(700); m.cols = 1 + c.draw(700);
        if (c.draw(3) == 2) { m.rows = 256 + c.draw(3) - 1; m.cols = 256 + c.draw(3) - 1; }
        bs_r = m.rows; bs_c = m.cols;
    }
    // Entries: at the ends of blocks and of the matrix, and anywhere
    {
        pbt::Rng g(c.seed());
        uint64_t n;
        switch (c.draw(4)) { case 0: n = 1; break; case 1: n = 1 + c.draw(8); break; case 2: n = c.draw(400); break; default: n = c.draw(sizeof(SIT) == 1 || fmt == 4 ? 5000 : 1500); break; }
        unsigned low = c.draw(4);              // keep inside what the type can represent
        Opt o;
        auto idx = [&](uint64_t dim, uint64_t bs) {
            uint64_t i;
            switch (g.below(6)) {
                case 0: i = dim - 1; break;
                case 1: i = bs * g.below(dim / bs + 1) + bs - 1; break;
                case 2: i = lim * (1 + g.below(2)) + g.below(3) - 1; break;
                case 3: i = bs * g.below(dim / bs + 1) + lim + g.below(2) - 1; break;
                default: i = g.below(dim);
            }
            i = std::min(i, dim - 1);
            return low == 3 ? i % std::min(lim, dim) : i;
        };
        for (uint64_t i = 0; i < n; i++) { uint64_t r = idx(m.rows, bs_r), cc = idx(m.cols, bs_c); m.e.push_back({r, cc, gen_value<VT>(g.next(), o)}); }
    }
    Blocking b;
    uint64_t width = 0;
    if (blocks) {
        b.rs = cut(c, m.rows, bs_r);
        b.cs = cut(c, m.cols, bs_c);
        if (b.rs.size() * b.cs.size() > 60000) { b.cs.assign(1, m.cols); }
        b.finish();
    }
    if (fmt == 0) { width = near_limit(c); if (m.rows / width > 200000) width = m.rows; }
    uint64_t largest = 0;
    if (fmt == 0) largest = width;
    else if (blocks) { for (auto s : b.rs) largest = std::max(largest, s); for (auto s : b.cs) largest = std::max(largest, s); }
    else if (fmt == 4) largest = 1;
    else if (fmt == 5) largest = m.cols;
    else largest = std::max(m.rows, m.cols);
    bool fits = largest <= L;
    bool at = largest == L;
    unsigned kind = c.draw(5), how = c.draw(3), threads = 1 + c.draw(4);
    bool balanced = c.draw(2);
    std::vector<double> x = gen_vec<VT>(c, m.cols), y0 = gen_vec<VT>(c, m.rows, true), want = product(m, x, y0);
    c.label(names[fmt]);
    c.desc("%s: %lux%lu nnz=%lu, largest side %lu, the type can tell %lu apart; ", names[fmt], (unsigned long) m.rows, (unsigned long) m.cols,
           (unsigned long) m.e.size(), (unsigned long) largest, (unsigned long) L);
    if (blocks) { desc_sizes(c, "rows", b.rs); desc_sizes(c, "columns", b.cs); c.desc("kind %u; ", kind); }
    if (m.e.size() <= 8) for (auto & e : m.e) c.desc(" (%lu,%lu)", (unsigned long) e.r, (unsigned long) e.c);
    c.label(at ? "exactly at the limit" : fits ? "within the limit" : "beyond the limit");
    if (fmt == 4 && sizeof(IT) == 2 && m.rows * m.cols > 65535) c.label("more elements than the index type counts");
    if (!m.e.empty() && (largest + 2 >= L || fmt == 4)) c.nontrivial();

    bool done = survives([&] {
        omp_set_num_threads(threads);
        Vec<VT> vx(x), vy(y0);
        auto mult = [&](auto & A) { A.spmv(vx.p, vy.p); vy.expect(want, names[fmt]); vx.expect(x, "x changed"); };
        Obj<Coo3<VT, IT>> B(0xa5);
        fill(B.get(), m);
        switch (fmt) {
            case 0: {
                Obj<Cswr<VT, IT, SIT>> A(0xff);
                if (how == 1) { Obj<Coo2<VT, IT>> B2(0xa5); fill(B2.get(), m); Coo_to_Cswr(A.get(), B2.get(), (IT) width); }
                else Coo_to_Cswr(A.get(), B.get(), (IT) width);
                mult(*A);
                break;
            }
#ifndef NO_CGBR
            case 1: {
                Obj<Cgbr2<VT, IT, SIT>> A(0xff);
                Coo_to_Cgbr(A.get(), B.get(), offsets_new<IT>(b.rs), (IT) b.rs.size(), offsets_new<IT>(b.cs), (IT) b.cs.size());
                A->balanced = balanced;
                mult(*A);
                break;
            }
            case 2: {
                Obj<Cgbr2<VT, IT, SIT>> A(0xff);
                OneKind f(kind);
                Coo_to_Cgbr(A.get(), B.get(), offsets_new<IT>(b.rs), (IT) b.rs.size(), offsets_new<IT>(b.cs), (IT) b.cs.size(), f);
                A->balanced = balanced;
                mult(*A);
                break;
            }
#endif
            case 3: {
                Coo<VT, IT, SIT> A(B->elements, B->nnz);
                mult(A);
                break;
            }
            case 4: {
                if (how == 0) { DenseSerial<VT, IT> A(B->elements, B->rows, B->columns, B->nnz); mult(A); }
                else if (how == 1) { DenseParallel<VT, IT> A(B->elements, B->rows, B->columns, B->nnz); mult(A); }
                else {
                    Obj<BlockDense<VT, IT>> A(0xff);
                    Coo_to_Dense(A.get(), B.get());
                    mult(*A);
                    want = product(m, x, want);
                    A->spmv_serial(vx.p, vy.p);
                    vy.expect(want, "dense, serial");
                    release(*A);
                }
                break;
            }
            case 5: {
                std::stable_sort(B->elements, B->elements + B->nnz, [](const Element<VT, IT> & p, const Element<VT, IT> & q) { return p.row < q.row; });
                if (how == 0) { BlockCsrSerial<VT, IT, SIT> A(B->elements, B->rows, B->columns, B->nnz); mult(A); }
                else if (how == 1) { BlockCsrParallel<VT, IT, SIT> A(B->elements, B->rows, B->columns, B->nnz); mult(A); }
#ifndef NO_CGBR
                else { Obj<BlockCsr<VT, IT, SIT>> A(0xff); Coo_to_Csr(A.get(), B->elements, B->rows, B->columns, B->nnz); mult(*A); }
#endif
                break;
            }
#ifndef NO_CGBR
            case 6: {
                Obj<Cgbr<VT, IT, SIT>> A(0xff);
                Coo_to_Cgbr(A.get(), B.get(), offsets_new<IT>(b.rs), (IT) b.rs.size(), offsets_new<IT>(b.cs), (IT) b.cs.size());
                A->balanced = balanced;
                mult(*A);
                break;
            }
#endif
            default: {
                Obj<BlockCoo2<VT, IT, SIT>> A(0xff);
                Coo_to_Coo(A.get(), B->elements, B->nnz);
                mult(*A);
                break;
            }
        }
    });
    CHECK(!(fits && !done), "stopped by an assertion although every index fits");
    c.label(done ? "multiplied exactly" : "stopped by an assertion");
}

pbt::Reg reg(TAG, run);

} // namespace
