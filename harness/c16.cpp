// C16: expansion of a blocked index space to blocks of one size.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <omp.h>

#include "common.h"
#include "typedefs.h"
#include "utils.h"
#include "expand.h"

#include "gen.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

uint64_t pow2(uint64_t n)
{
    uint64_t p = 1;
    while (p < n) p *= 2;
    return p;
}

// Block sizes whose expanded index space the index type can count
std::vector<uint64_t> gen_sizes(pbt::Case & c)
{
    uint64_t lim = (uint64_t) std::numeric_limits<IT>::max();
    std::vector<uint64_t> s;
    unsigned kind = c.draw(7);
    uint64_t n;
    if (kind == 0) { n = 1 + c.draw(6); for (uint64_t i = 0; i < n; i++) s.push_back(c.draw(9)); }
    else if (kind == 1) { n = 1 + c.draw(4); uint64_t p = 1ull << c.draw(sizeof(IT) == 8 && c.draw(2) ? 61 : 28); for (uint64_t i = 0; i < n; i++) s.push_back(p + c.draw(3) - (p > 1)); }
    else {
        n = 1 + c.draw(kind == 2 ? 70 : kind == 3 ? c.draw(20) == 19 ? 100000 : 3000 : 400);
        uint64_t hi = 1ull << c.draw(kind == 3 ? 12 : 20);
        pbt::Rng g(c.seed());
        for (uint64_t i = 0; i < n; i++) s.push_back(kind == 4 ? hi : g.below(hi + 1));
        if (kind == 5) { for (auto & z : s) z = 1 + z % 3; s[g.below(n)] = hi; }
        if (kind == 6) for (auto & z : s) if (g.chance(40)) z = 0;
    }
    uint64_t mx = 0;
    for (auto z : s) mx = std::max(mx, z);
    if (mx == 0) { s[0] = 1; mx = 1; }
    while (pow2(mx) > lim / 2) { mx = 0; for (auto & z : s) { z = (z + 1) / 2; mx = std::max(mx, z); } }
    while (s.size() > lim / pow2(mx)) s.pop_back();
    mx = 0;
    for (auto z : s) mx = std::max(mx, z);
    if (mx == 0) s[0] = 1;
    return s;
}

struct Ref {
    std::vector<uint64_t> off;
    uint64_t size;
    uint64_t block(uint64_t i) const { uint64_t b = 0, e = off.size() - 1; while (e - b > 1) { uint64_t m = (b + e) / 2; if (off[m] <= i) b = m; else e = m; } return b; }
    uint64_t map(uint64_t i) const { uint64_t b = block(i); return b * size + (i - off[b]); }
};

void run(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4, 3, 7}));
    std::vector<uint64_t> s = gen_sizes(c);
    desc_sizes(c, "blocks", s);
    Ref r;
    r.off.push_back(0);
    uint64_t mx = 0;
    for (auto z : s) { r.off.push_back(r.off.back() + z); mx = std::max(mx, z); }
    r.size = pow2(mx);
    uint64_t dim = r.off.back(), nb = s.size();
    IT * sizes = (IT *) malloc(nb * sizeof(IT)), * offs = (IT *) malloc((nb + 1) * sizeof(IT));
    for (uint64_t i = 0; i < nb; i++) sizes[i] = (IT) s[i];
    size_to_offset(offs, sizes, (IT) nb);
    for (uint64_t i = 0; i <= nb; i++) CHECK((uint64_t) offs[i] == r.off[i], "offset %lu is %lu, expected %lu", (unsigned long) i, (unsigned long) offs[i], (unsigned long) r.off[i]);
    CHECK((uint64_t) expand_block_size(sizes, (IT) nb) == r.size, "block size %lu, expected %lu", (unsigned long) expand_block_size(sizes, (IT) nb), (unsigned long) r.size);

    uint64_t k = c.draw(4) == 0 ? c.draw(8) : c.draw(100) == 99 ? 60000 + c.draw(140000) : c.draw(3000);
    k = std::min<uint64_t>(k, (uint64_t) std::numeric_limits<IT>::max());
    uint64_t used = c.draw(3) == 2 ? c.draw(k + 1) : k;
    unsigned dist = c.draw(4);
    pbt::Rng g(c.seed());
    auto index = [&](uint64_t i) -> uint64_t {
        if (dist == 0) return (unsigned __int128) i * dim / std::max<uint64_t>(k, 1);              // increasing
        if (dist == 1) {                                                       // at the borders of blocks
            uint64_t b = g.below(nb);
            uint64_t p = r.off[b] + (g.chance(50) ? 0 : s[b] ? s[b] - 1 : 0);
            return std::min(p, dim - 1);
        }
        if (dist == 2) return dim - 1 - std::min(dim - 1, g.below(5));
        return g.below(dim);
    };
    c.desc("%lu of %lu; ", (unsigned long) used, (unsigned long) k);
    if (nb > 1 && used) c.nontrivial();
    if (c.draw(2)) {
        c.label("array of indices");
        std::vector<uint64_t> v(k);
        for (uint64_t i = 0; i < k; i++) v[i] = index(i);
        IT * a = (IT *) malloc(k * sizeof(IT) + 1);
        for (uint64_t i = 0; i < k; i++) a[i] = (IT) v[i];
        for (uint64_t i = 0; i < used && i < 50; i++) {
            IT n = expand_index(offs, (IT) nb, (IT) r.size, (IT) v[i]);
            CHECK((uint64_t) n == r.map(v[i]), "index %lu expands to %lu, expected %lu", (unsigned long) v[i], (unsigned long) n, (unsigned long) r.map(v[i]));
        }
        IT got = expand_indeces(a, (IT) used, sizes, (IT) nb);
        CHECK((uint64_t) got == r.size, "returned block size %lu, expected %lu", (unsigned long) got, (unsigned long) r.size);
        for (uint64_t i = 0; i < k; i++) {
            uint64_t want = i < used ? r.map(v[i]) : v[i];
            CHECK((uint64_t) a[i] == want, "index %lu became %lu, expected %lu (number %lu of %lu)", (unsigned long) v[i], (unsigned long) a[i],
                  (unsigned long) want, (unsigned long) i, (unsigned long) used);
        }
        free(a);
    } else if (nb <= (uint64_t) std::numeric_limits<IT>::max() / nb) {
        c.label("matrix entries");
        struct E { uint64_t r, c; VT v; };
        std::vector<E> v(k);
        Element<VT, IT> * a = (Element<VT, IT> *) malloc(k * sizeof(Element<VT, IT>) + 1);
        for (uint64_t i = 0; i < k; i++) {
            uint64_t row = index(i), col = index(i * 7 % std::max<uint64_t>(k, 1));
            v[i] = {row, col, (VT) (int64_t) g.range(-100, 100)};
            a[i].row = (IT) v[i].r; a[i].col = (IT) v[i].c; a[i].val = v[i].v; a[i].block = 0;
        }
        calculate_block_id(a, (IT) k, offs, (IT) nb, offs, (IT) nb);
        for (uint64_t i = 0; i < k; i++) {
            uint64_t b = r.block(v[i].r) * nb + r.block(v[i].c);
            CHECK((uint64_t) a[i].block == b, "entry (%lu,%lu) in block %lu, expected %lu", (unsigned long) v[i].r, (unsigned long) v[i].c,
                  (unsigned long) a[i].block, (unsigned long) b);
        }
        IT got = expand_indeces(a, (IT) used, sizes, offs, (IT) nb);
        CHECK((uint64_t) got == r.size, "returned block size %lu, expected %lu", (unsigned long) got, (unsigned long) r.size);
        for (uint64_t i = 0; i < k; i++) {
            uint64_t wr = i < used ? r.map(v[i].r) : v[i].r, wc = i < used ? r.map(v[i].c) : v[i].c;
            CHECK((uint64_t) a[i].row == wr && (uint64_t) a[i].col == wc, "entry (%lu,%lu) became (%lu,%lu), expected (%lu,%lu)", (unsigned long) v[i].r,
                  (unsigned long) v[i].c, (unsigned long) a[i].row, (unsigned long) a[i].col, (unsigned long) wr, (unsigned long) wc);
            CHECK(a[i].val == v[i].v, "value of entry %lu changed", (unsigned long) i);
            CHECK((uint64_t) a[i].block == r.block(v[i].r) * nb + r.block(v[i].c), "block number of entry %lu changed", (unsigned long) i);
            if (i < used) CHECK(wr / r.size == r.block(v[i].r) && wc / r.size == r.block(v[i].c), "entry %lu left its block", (unsigned long) i);
        }
        // constant block size: the numbers of blocks stay as they were
        calculate_block_id(a, (IT) used, (IT) r.size, (IT) r.size, (IT) nb);
        for (uint64_t i = 0; i < used; i++)
            CHECK((uint64_t) a[i].block == r.block(v[i].r) * nb + r.block(v[i].c), "entry %lu is in another block after expansion", (unsigned long) i);
        free(a);
    }
    for (uint64_t i = 0; i < nb; i++) CHECK((uint64_t) sizes[i] == s[i], "block sizes changed");
    for (uint64_t i = 0; i <= nb; i++) CHECK((uint64_t) offs[i] == r.off[i], "block offsets changed");
    free(sizes);
    free(offs);
}

pbt::Reg reg(TAG, run);

} // namespace
