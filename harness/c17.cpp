// C17: the block size the library picks.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"

#include "blk.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

constexpr uint64_t CACHE = 256 * 1024;      // include/params.h

uint64_t pow2(uint64_t n)
{
    uint64_t p = 1;
    while (p < n) p *= 2;
    return p;
}

uint64_t gen_shape(pbt::Case & c)
{
    uint64_t lim = (uint64_t) std::numeric_limits<IT>::max();
    lim = std::min<uint64_t>(lim, 1ull << 48);     // vectors that can be addressed
    uint64_t d;
    unsigned bits = 0;
    while (bits < 64 && (lim >> bits)) bits++;
    switch (c.draw(6)) {
        case 0: d = 1 + c.draw(20); break;
        case 1: d = 1 + c.draw(3000); break;
        case 2: { uint64_t p = 1ull << c.draw(bits); d = p + c.draw(3); d -= d > 1; break; }
        case 3: d = lim - c.draw(4); break;
        case 4: { uint64_t k = c.draw(bits); d = 1 + c.draw(1ull << k); break; }
        default: d = 1 + c.draw(lim); break;
    }
    return std::min(std::max<uint64_t>(d, 1), lim);
}

void shapes(pbt::Case & c)
{
    for (int rep = 0; rep < 20; rep++) {
        uint64_t m = gen_shape(c), n = c.draw(3) ? gen_shape(c) : m;
        size_t vs = c.pick<size_t>({4, 8, 1, 2, 16, 32});
        int w = 1;
        switch (c.draw(5)) {
            case 0: w = 1; break;
            case 1: w = 2 + c.draw(8); break;
            case 2: w = 1 << c.draw(11); break;
            case 3: w = 1 + c.draw(256); break;
            default: w = 1 + c.draw(4096); break;
        }
        IT got = pick_block_size((IT) m, (IT) n, vs, w);
        uint64_t b = (uint64_t) got, R = pow2(m), C = pow2(n);
#define SHAPE "%lux%lu, %lu bytes, %d workers"
#define SH (unsigned long) m, (unsigned long) n, (unsigned long) vs, w
        CHECK(got > 0 && (b & (b - 1)) == 0, SHAPE ": picked %lu, no power of two", SH, (unsigned long) b);
        CHECK(b <= std::max(R, C), SHAPE ": picked %lu, larger than the matrix", SH, (unsigned long) b);
        CHECK(b * vs <= CACHE, SHAPE ": picked %lu, larger than the cache", SH, (unsigned long) b);
        if (w > 1 && R > 8 * (uint64_t) w && C > 8 * (uint64_t) w) {
            c.label("split among workers");
            c.nontrivial();
            CHECK(R / b >= 8 * (uint64_t) w, SHAPE ": picked %lu, only %lu block-rows", SH, (unsigned long) b, (unsigned long) (R / b));
        }
        if (w == 1 && m > 2 && n > 2) c.nontrivial();
    }
}

#ifndef NOBUILD
// Any blocked format can be built with the size picked
void build(pbt::Case & c)
{
    Opt o;
    o.max_nnz = 600;
    o.max_dim = std::min<uint64_t>(3000, std::numeric_limits<IT>::max());
    o.huge_dim = 200000;
    if (sizeof(IT) > 2) o.big = 150;
    Mat m = gen_mat<VT>(c, o);
    int w = 1 + c.draw(c.draw(3) ? 8 : 300);
    IT bs = pick_block_size((IT) m.rows, (IT) m.cols, sizeof(VT), w);
    c.desc("%d workers: block size %lu; ", w, (unsigned long) bs);
    c.label("built");
    Blocking b;
    b.rs = const_sizes(m.rows, bs);
    b.cs = const_sizes(m.cols, bs);
    b.finish();
    uint64_t elems = 0;
    Blocks g = group(m, b);
    for (auto & k : g) elems += b.rs[k.first.first] + 1;
    if (elems > (1u << 21)) { c.label("too large to build"); return; }
    bool many = b.rs.size() * b.cs.size() > (1u << 22);
    if (m.e.size() && b.rs.size() * b.cs.size() > 1) c.nontrivial();
    std::vector<double> x = gen_vec<VT>(c, m.cols), y0 = gen_vec<VT>(c, m.rows, true), want = product(m, x, y0);
    Obj<Coo3<VT, IT>> A(0x5a);
    Obj<Coo2<VT, IT>> A2(0x5a);
    allocate(A.get(), (IT) m.e.size());
    allocate(A2.get(), (IT) m.e.size());
    A->rows = A2->rows = (IT) m.rows; A->columns = A2->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++) {
        set_point(A.get(), (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
        set_point(A2.get(), (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
    }
    Vec<VT> vx(x), vy(y0);
    switch (c.draw(5)) {
        case 0: { c.desc("CSBR; "); Obj<Csbr<VT, IT>> M(0x5a); Coo_to_Csbr(M.get(), A.get(), bs, bs); M->spmv(vx.p, vy.p); release(*M); break; }
        case 1: if (!many) { c.desc("CSBR from triplets; "); Obj<Csbr<VT, IT>> M(0x5a); Coo_to_Csbr(M.get(), A2.get(), bs, bs); M->spmv(vx.p, vy.p); release(*M); break; }
                /* fall through */
        case 2: { c.desc("CSBR(2); "); Obj<Csbr2<VT, IT>> M(0x5a); Coo_to_Csbr(M.get(), A.get(), bs, bs); M->spmv(vx.p, vy.p); release(*M); break; }
        case 3: { c.desc("CGBR; "); Obj<Cgbr<VT, IT, uint32_t>> M(0x5a); Coo_to_Cgbr(M.get(), A.get(), bs, bs); M->spmv(vx.p, vy.p); release(*M); break; }
        default: { c.desc("CGBR(2); "); Obj<Cgbr2<VT, IT, uint32_t>> M(0x5a); Coo_to_Cgbr(M.get(), A.get(), bs, bs); M->spmv(vx.p, vy.p); release(*M); break; }
    }
    vy.expect(want, "product");
    release(*A);
    release(*A2);
}
#endif

void run(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4}));
#ifndef NOBUILD
    if (c.draw(4)) { build(c); return; }
#endif
    shapes(c);
}

pbt::Reg reg(TAG, run);

} // namespace
