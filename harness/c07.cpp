// C07: every sort orders the entries and is a permutation of them.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "typedefs.h"
#include "utils.h"

#include "blk.h"

using namespace gen;

extern std::atomic<long> alloc_fail_after;
extern std::atomic<unsigned long> alloc_failed;

namespace {

typedef PVT VT;
typedef PIT IT;

struct Key { uint64_t r, c, b; };

uint64_t max_of() { return std::min<uint64_t>(std::numeric_limits<IT>::max(), 1ull << 62); }

uint64_t gen_size(pbt::Case & c)
{
    if (c.draw(60) == 59) return 60000 + c.draw(140000);
    switch (c.draw(12)) {
        case 0: return c.draw(4);
        case 1: return c.draw(40);
        case 2: return 480 + c.draw(40);
        case 3: return 990 + c.draw(20);
        case 4: return 1980 + c.draw(40);
        case 5: return 3990 + c.draw(20);
        case 6: case 7: return c.draw(3000);
        case 8: case 9: return c.draw(9000);
        case 10: return c.draw(600);
        default: return c.draw(40000);
    }
}

std::vector<Key> gen_keys(pbt::Case & c, uint64_t n, uint64_t rmax, uint64_t cmax)
{
    std::vector<Key> k(n);
    unsigned dist = c.draw(9);
    static const char * names[] = {"all equal", "few keys", "uniform", "few rows", "few columns", "small", "runs", "high values", "blocks of equal keys"};
    c.desc("keys: %s; ", names[dist]);
    c.label(names[dist]);
    pbt::Rng g(c.seed());
    uint64_t pr = g.below(rmax + 1), pc = g.below(cmax + 1), few = 1 + g.below(6);
    uint64_t run = 1 + g.below(n + 1);
    for (uint64_t i = 0; i < n; i++) {
        Key & e = k[i];
        e.b = 0;
        switch (dist) {
            case 0: e.r = pr; e.c = pc; break;
            case 1: e.r = (pr + g.below(few)) % (rmax + 1); e.c = (pc + g.below(few)) % (cmax + 1); break;
            case 2: e.r = g.below(rmax + 1); e.c = g.below(cmax + 1); break;
            case 3: e.r = (pr + g.below(few)) % (rmax + 1); e.c = g.below(cmax + 1); break;
            case 4: e.r = g.below(rmax + 1); e.c = (pc + g.below(few)) % (cmax + 1); break;
            case 5: e.r = g.below(std::min<uint64_t>(rmax, 100) + 1); e.c = g.below(std::min<uint64_t>(cmax, 100) + 1); break;
            case 6: e.r = i % run % (rmax + 1); e.c = i / run % (cmax + 1); break;
            case 7: e.r = rmax - g.below(std::min<uint64_t>(rmax, 9) + 1); e.c = cmax - g.below(std::min<uint64_t>(cmax, 9) + 1); break;
            default: e.r = i / run % (rmax + 1); e.c = (n - i) / run % (cmax + 1); break;
        }
    }
    return k;
}

// Sorts `k` with the library's routine in arrays of P, checks against a stable reference sort by `less`
template <class P> struct Arr {
    P * p;
    uint64_t n;
    Arr(const std::vector<Key> & k) : n(k.size())
    {
        p = (P *) malloc(n * sizeof(P) + 1);
        for (uint64_t i = 0; i < n; i++) { memset(&p[i], 0x3c, sizeof(P)); p[i].row = (IT) k[i].r; p[i].col = (IT) k[i].c; p[i].val = (VT) i; setb(p[i], k[i].b); }
    }
    ~Arr() { free(p); }
    static void setb(Triplet<VT, IT> &, uint64_t) {}
    static void setb(Element<VT, IT> & e, uint64_t b) { e.block = (IT) b; }
    static bool sameb(const Triplet<VT, IT> &, uint64_t) { return true; }
    static bool sameb(const Element<VT, IT> & e, uint64_t b) { return e.block == (IT) b; }
};

uint64_t morton(uint64_t r, uint64_t c)
{
    uint64_t m = 0;
    for (int i = 0; i < 16; i++) m |= ((r >> i & 1) << (2 * i)) | ((c >> i & 1) << (2 * i + 1));
    return m;
}

bool less3(uint64_t a1, uint64_t a2, uint64_t a3, uint64_t b1, uint64_t b2, uint64_t b3)
{
    if (a1 != b1) return a1 < b1;
    if (a2 != b2) return a2 < b2;
    return a3 < b3;
}

template <class P> void sort_as(pbt::Case & c, unsigned how, std::vector<Key> & k, uint64_t width, unsigned call, const char * name)
{
    Arr<P> A(k);
    auto f = [&] {
        switch (how) {
            case 0: if (call % 2) sort_triplets(A.p, (IT) A.n); else sort_triplets(A.p, (IT) A.n, true); break;
            case 1: sort_triplets(A.p, (IT) A.n, false); break;
            case 2: sort_triplets_morton(A.p, (IT) A.n); break;
            case 3: sort_triplets_widerows(A.p, (IT) A.n, (IT) width); break;
            default: pbt::engine_error("how");
        }
    };
    if (call == 3) {
        #pragma omp parallel
        #pragma omp single
        f();
    } else f();
    alloc_fail_after = -1;
    std::vector<uint64_t> ord(k.size());
    for (uint64_t i = 0; i < k.size(); i++) ord[i] = i;
    std::stable_sort(ord.begin(), ord.end(), [&](uint64_t x, uint64_t y) {
        const Key & a = k[x], & b = k[y];
        switch (how) {
            case 0: return less3(a.r, a.c, 0, b.r, b.c, 0);
            case 1: return less3(a.c, a.r, 0, b.c, b.r, 0);
            case 2: return morton(a.r, a.c) < morton(b.r, b.c);
            default: return less3(a.r / width, a.c, a.r, b.r / width, b.c, b.r);
        }
    });
    for (uint64_t i = 0; i < k.size(); i++) {
        const P & p = A.p[i];
        uint64_t w = ord[i];
        CHECK(p.val == (VT) w, "%s sort: place %lu holds entry %.0f, expected entry %lu", name, (unsigned long) i, (double) p.val, (unsigned long) w);
        CHECK((uint64_t) p.row == k[w].r && (uint64_t) p.col == k[w].c && A.sameb(p, k[w].b), "%s sort: place %lu: indices of an entry changed", name, (unsigned long) i);
    }
    (void) c;
}

void sort_elements(std::vector<Key> & k, unsigned call)
{
    Arr<Element<VT, IT>> A(k);
    if (call == 3) {
        #pragma omp parallel
        #pragma omp single
        sort_elements_blocks(A.p, (IT) A.n);
    } else sort_elements_blocks(A.p, (IT) A.n);
    alloc_fail_after = -1;
    std::vector<uint64_t> ord(k.size());
    for (uint64_t i = 0; i < k.size(); i++) ord[i] = i;
    std::stable_sort(ord.begin(), ord.end(), [&](uint64_t x, uint64_t y) {
        const Key & a = k[x], & b = k[y];
        return less3(a.b, a.r, a.c, b.b, b.r, b.c);
    });
    for (uint64_t i = 0; i < k.size(); i++) {
        const auto & p = A.p[i];
        uint64_t w = ord[i];
        CHECK(p.val == (VT) w, "block number sort: place %lu holds entry %.0f, expected entry %lu", (unsigned long) i, (double) p.val, (unsigned long) w);
        CHECK((uint64_t) p.row == k[w].r && (uint64_t) p.col == k[w].c && (uint64_t) p.block == k[w].b, "block number sort: place %lu: entry changed", (unsigned long) i);
    }
}

void sort_blocking(pbt::Case & c, uint64_t n)
{
    uint64_t R = std::min(gen_dim(c, 3000, 70000), max_of()), C = std::min(gen_dim(c, 3000, 70000), max_of());
    std::vector<Key> k = gen_keys(c, n, R - 1, C - 1);
    std::vector<uint64_t> rs = gen_partition(c, R, 4000), cs = gen_partition(c, C, 4000);
    desc_sizes(c, "row groups", rs); desc_sizes(c, "column groups", cs);
    std::vector<IT> ro(rs.size() + 1), co(cs.size() + 1);
    for (size_t i = 0; i < rs.size(); i++) ro[i + 1] = ro[i] + (IT) rs[i];
    for (size_t i = 0; i < cs.size(); i++) co[i + 1] = co[i] + (IT) cs[i];
    auto blk = [](const std::vector<IT> & o, uint64_t v) { return (uint64_t) (std::upper_bound(o.begin(), o.end() - 1, (IT) v) - o.begin() - 1); };
    for (auto & e : k) e.b = blk(ro, e.r) * cs.size() + blk(co, e.c);
    Arr<Triplet<VT, IT>> A(k);
    sort_triplets_blocks(A.p, (IT) n, ro.data(), (IT) rs.size(), co.data(), (IT) cs.size());
    alloc_fail_after = -1;
    std::vector<bool> seen(n);
    uint64_t prev = 0;
    for (uint64_t i = 0; i < n; i++) {
        const auto & p = A.p[i];
        uint64_t w = (uint64_t) p.val;
        CHECK(p.val >= 0 && w < n && (VT) w == p.val && !seen[w], "by-blocking sort: place %lu holds no or a repeated entry", (unsigned long) i);
        seen[w] = true;
        CHECK((uint64_t) p.row == k[w].r && (uint64_t) p.col == k[w].c, "by-blocking sort: place %lu: entry changed", (unsigned long) i);
        CHECK(k[w].b >= prev, "by-blocking sort: place %lu: block %lu after block %lu", (unsigned long) i, (unsigned long) k[w].b, (unsigned long) prev);
        prev = k[w].b;
    }
    CHECK(ro[rs.size()] == (IT) R && co[cs.size()] == (IT) C && ro[0] == 0 && co[0] == 0, "by-blocking sort changed the block boundaries");
}

// The generic sort itself, with a comparison that makes many keys equal
void sort_generic(pbt::Case & c, uint64_t n)
{
    struct Item { uint32_t key, pos; };
    uint64_t mod = c.pick<uint64_t>({1, 2, 3, 10, 100, 1000, 1000000});
    unsigned order = c.draw(4);
    bool up = c.draw(2);
    pbt::Rng g(c.seed());
    std::vector<Item> v(n);
    for (uint64_t i = 0; i < n; i++)
        v[i] = {(uint32_t) (order == 0 ? g.below(mod) : order == 1 ? i % mod : order == 2 ? (n - i) % mod : (i < n / 2 ? i : n - i) % mod), (uint32_t) i};
    c.desc("generic sort, keys modulo %lu, order %u, %s; ", (unsigned long) mod, order, up ? "up" : "down");
    std::vector<Item> w = v;
    auto cmp = [up](const Item & a, const Item & b) { return up ? a.key < b.key : a.key > b.key; };
    pss::parallel_stable_sort(v.data(), v.data() + n, cmp);
    alloc_fail_after = -1;
    std::stable_sort(w.begin(), w.end(), cmp);
    for (uint64_t i = 0; i < n; i++)
        CHECK(v[i].key == w[i].key && v[i].pos == w[i].pos, "generic sort: place %lu holds entry %u, expected %u", (unsigned long) i, v[i].pos, w[i].pos);
}

void run(pbt::Case & c)
{
    static const char * names[] = {"row-major", "column-major", "Morton", "wide row", "block number", "by blocking", "generic"};
    unsigned how = c.draw(7);
    int threads = c.pick<int>({1, 2, 4, 3, 8, 16, 4, 8, 24});
    uint64_t n = std::min(gen_size(c), max_of());
    bool fail = c.draw(6) == 5;
    unsigned call = c.draw(4);
    c.label(names[how]);
    c.label(n <= 1 ? "0-1 entries" : n <= 500 ? "2-500 entries" : n <= 2000 ? "501-2000 entries" : n < 60000 ? "more than 2000 entries" : "60000+ entries");
    c.desc("%s, %lu entries, threads=%d%s%s; ", names[how], (unsigned long) n, threads, fail ? ", no buffer" : "", call == 3 ? ", inside a parallel region" : "");
    omp_set_num_threads(threads);
    if (fail) { c.label("buffer cannot be allocated"); alloc_fail_after = c.draw(2) ? 1 : 0; }
    else alloc_fail_after = -1;
    if (n > 1) c.nontrivial();
    long arm = alloc_fail_after;
    if (how == 5) return sort_blocking(c, n);
    if (how == 6) return sort_generic(c, n);
    // Morton: as many bits as the index type can interleave, at most 16
    uint64_t cap = how == 2 ? std::min<uint64_t>(65535, (1ull << (4 * sizeof(IT) - std::is_signed<IT>::value)) - 1) : c.pick<uint64_t>({100, 10, 1, 1000, 65536, max_of() - 1});
    cap = std::min(cap, max_of() - 1);
    std::vector<Key> k = gen_keys(c, n, cap, c.draw(3) == 2 ? std::min<uint64_t>(cap, 5) : cap);
    uint64_t width = c.pick<uint64_t>({1, 2, 32, 7, 1000, 65536});
    if (how == 3 && c.draw(2)) width = 1 + c.draw(cap);
    width = std::min(width, max_of());
    if (how == 3) c.desc("width=%lu; ", (unsigned long) width);
    pbt::Rng g(c.seed());
    uint64_t nb = 1 + g.below(std::min(c.pick<uint64_t>({1, 4, 50, 100000}), max_of() - 1));
    for (auto & e : k) e.b = how == 4 ? g.below(nb) : (e.r * 7 + e.c) % 100;
    alloc_fail_after = arm;
    if (how == 4) sort_elements(k, call);
    else if (c.draw(2)) sort_as<Element<VT, IT>>(c, how, k, width, call, names[how]);
    else sort_as<Triplet<VT, IT>>(c, how, k, width, call, names[how]);
}

pbt::Reg reg(TAG, run);

} // namespace
