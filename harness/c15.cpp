// C15: permutations and their inverses.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <omp.h>

#include "common.h"
#include "typedefs.h"
#include "utils.h"
#include "permute.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/cswr.h"

#include "bits.h"
#include "perm.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

// Exactly as long as given, with guards where there is no AddressSanitizer
struct Ints {
    IT * p;
    std::vector<uint64_t> v;
    static constexpr uint64_t G = Vec<VT>::G;
    explicit Ints(const std::vector<uint64_t> & w) : v(w)
    {
        p = (IT *) malloc((v.size() + 2 * G) * sizeof(IT) + 1);
        for (uint64_t i = 0; i < G; i++) p[i] = p[G + v.size() + i] = (IT) 91;
        p += G;
        for (uint64_t i = 0; i < v.size(); i++) p[i] = (IT) v[i];
    }
    ~Ints() { free(p - G); }
    Ints(const Ints &) = delete;
    void same(const char * what) { is(v, what); }
    void is(const std::vector<uint64_t> & w, const char * what)
    {
        for (uint64_t i = 0; i < v.size(); i++)
            CHECK((uint64_t) p[i] == w[i], "%s: element %lu of %lu is %lu, expected %lu", what, (unsigned long) i, (unsigned long) v.size(),
                  (unsigned long) p[i], (unsigned long) w[i]);
        for (uint64_t i = 0; i < G; i++)
            CHECK(p[(int64_t) i - (int64_t) G] == (IT) 91 && p[v.size() + i] == (IT) 91, "%s: wrote outside the array", what);
    }
};

uint64_t gen_n(pbt::Case & c, uint64_t cap)
{
    uint64_t n;
    if (cap > 200000 && c.draw(100) == 99) { c.label("60000+ elements"); return 60000 + c.draw(140000); }
    switch (c.draw(8)) {
        case 0: n = c.draw(5); break;
        case 1: n = 60 + c.draw(10); break;
        case 2: n = c.draw(40); break;
        case 3: n = c.draw(300); break;
        case 4: n = 64 * c.draw(20) + c.draw(3); break;
        case 5: n = cap > 70000 ? c.draw(20000) : cap - c.draw(std::min<uint64_t>(cap, 3)); break;
        default: n = c.draw(3000); break;
    }
    return std::min(n, cap);
}

std::vector<uint64_t> inverse(const std::vector<uint64_t> & p)
{
    std::vector<uint64_t> q(p.size());
    for (uint64_t i = 0; i < p.size(); i++) q[p[i]] = i;
    return q;
}

void arrays(pbt::Case & c)
{
    uint64_t n = gen_n(c, std::numeric_limits<IT>::max());
    std::vector<uint64_t> pv = gen_perm(c, n), qv = inverse(pv);
    Ints p(pv);
    IT * q = invert_permutation(p.p, (IT) n);
    p.same("the permutation after inverting it");
    for (uint64_t i = 0; i < n; i++) {
        CHECK((uint64_t) q[i] < n, "the inverse maps %lu to %lu", (unsigned long) i, (unsigned long) q[i]);
        CHECK((uint64_t) q[i] == qv[i], "the inverse maps %lu to %lu, expected %lu", (unsigned long) i, (unsigned long) q[i], (unsigned long) qv[i]);
    }
    IT * r = invert_permutation((IT const *) q, (IT) n);
    for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) r[i] == pv[i], "inverse of the inverse: maps %lu to %lu instead of %lu", (unsigned long) i,
                                           (unsigned long) r[i], (unsigned long) pv[i]);
    // any number of indices
    uint64_t k = n ? (c.draw(4) == 0 ? n : gen_n(c, std::numeric_limits<IT>::max())) : 0;
    uint64_t used = c.draw(3) == 2 ? c.draw(k + 1) : k;
    c.desc("%lu of %lu indices; ", (unsigned long) used, (unsigned long) k);
    std::vector<uint64_t> iv(k), want;
    pbt::Rng g(c.seed());
    bool seq = c.draw(2);
    for (uint64_t i = 0; i < k; i++) iv[i] = seq && i < n ? i : g.below(n);
    want = iv;
    for (uint64_t i = 0; i < used; i++) want[i] = pv[iv[i]];
    Ints a(iv);
    permute_indeces(a.p, p.p, (IT) used);
    a.is(want, "indices permuted");
    p.same("the permutation after applying it");
    permute_indeces(a.p, q, (IT) used);
    a.same("indices permuted and permuted back");
    permute_indeces(a.p, q, (IT) used);
    permute_indeces(a.p, p.p, (IT) used);
    a.same("indices permuted by the inverse and back");
    // the permutation and its inverse, composed
    permute_indeces(q, p.p, (IT) n);
    for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) q[i] == i, "permutation of its inverse is not the identity at %lu", (unsigned long) i);
    delete [] q;
    delete [] r;
    if (n > 1 && k) c.nontrivial();
}

IT block_of(const Triplet<VT, IT> *, IT) { return 0; }
IT block_of(const Element<VT, IT> * e, IT i) { return e[i].block; }
void set_block(Triplet<VT, IT> *, IT, IT) {}
void set_block(Element<VT, IT> * e, IT i, IT b) { e[i].block = b; }
Triplet<VT, IT> * items(Coo2<VT, IT> & A) { return A.triplets; }
Element<VT, IT> * items(Coo3<VT, IT> & A) { return A.elements; }

template <class COO> void multiply(pbt::Case & c, COO & A, const std::vector<double> & x, const std::vector<double> & y0,
                                   const std::vector<double> & want, const char * what)
{
    Vec<VT> vx(x), vy(y0);
    switch (c.draw(4)) {
        case 0: A.spmv(vx.p, vy.p); break;
        case 1: { Obj<Csr<VT, IT>> M(0x5a); Coo_to_Csr(M.get(), &A); M->spmv(vx.p, vy.p); release(*M); break; }
        case 2: { Obj<Csr2<VT, IT>> M(0x5a); Coo_to_Csr(M.get(), &A); M->spmv(vx.p, vy.p); release(*M); break; }
        default: { Obj<Cswr<VT, IT, uint32_t>> M(0x5a); Coo_to_Cswr(M.get(), &A); M->spmv(vx.p, vy.p); release(*M); break; }
    }
    vy.expect(want, what);
}

template <class COO> void matrix(pbt::Case & c)
{
    Opt o;
    o.max_dim = std::min<uint64_t>(3000, std::numeric_limits<IT>::max());
    o.max_nnz = std::min<uint64_t>(5000, std::numeric_limits<IT>::max());
    if (sizeof(IT) > 2) o.big = 100;
    Mat m = gen_mat<VT>(c, o);
    // Rows and columns share the permutation: it must cover both
    uint64_t n = std::max(m.rows, m.cols);
    m.rows = m.cols = n;
    std::vector<uint64_t> pv = gen_perm(c, n);
    uint64_t nnz = m.e.size(), used = c.draw(4) == 3 ? c.draw(nnz + 1) : nnz;
    if (nnz && n > 1) c.nontrivial();
    bits::Mat<VT> b, w, s;
    b.rows = b.cols = w.rows = w.cols = n;
    for (auto & e : m.e) b.e.push_back({e.r, e.c, (VT) e.v});
    for (uint64_t i = 0; i < nnz; i++) {
        auto e = b.e[i];
        if (i < used) { e.r = pv[e.r]; e.c = pv[e.c]; }
        w.e.push_back(e);
    }
    Obj<COO> A(0x5a);
    bits::fill(*A, b);
    for (uint64_t i = 0; i < nnz; i++) set_block(items(*A), (IT) i, (IT) (i * 7));
    Ints p(pv);
    permute_indeces(items(*A), (IT) used, p.p);
    p.same("the permutation after applying it to a matrix");
    bits::expect(*A, w, "matrix permuted");
    for (uint64_t i = 0; i < nnz && std::is_same<COO, Coo3<VT, IT>>::value; i++)
        CHECK(block_of(items(*A), (IT) i) == (IT) (i * 7), "block number of entry %lu changed", (unsigned long) i);
    IT * q = invert_permutation((IT const *) p.p, (IT) n);
    if (used == nnz) {
        std::vector<double> x = gen_vec<VT>(c, n), y0 = gen_vec<VT>(c, n, true), y = product(m, x, y0);
        std::vector<double> px(n), py0(n), py(n);
        for (uint64_t i = 0; i < n; i++) { px[pv[i]] = x[i]; py0[pv[i]] = y0[i]; py[pv[i]] = y[i]; }
        bool order = c.draw(2);
        multiply(c, *A, px, py0, py, "product with the permuted matrix");   // conversions may reorder the entries
        if (order) {
            permute_indeces(items(*A), (IT) nnz, q);
            multiply(c, *A, x, y0, y, "product with the matrix permuted and permuted back");
        }
    } else {
        permute_indeces(items(*A), (IT) used, q);
        bits::expect(*A, b, "matrix permuted and permuted back");
    }
    delete [] q;
    release(*A);
}

void run(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4, 3, 7}));
    unsigned k = sizeof(IT) < 4 ? 0 : c.draw(4);
    if (k < 2) { c.label("array"); arrays(c); }
    else if (k == 2) { c.label("triplets"); matrix<Coo2<VT, IT>>(c); }
    else { c.label("elements"); matrix<Coo3<VT, IT>>(c); }
}

pbt::Reg reg(TAG, run);

} // namespace
