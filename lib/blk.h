// Generators for ways of cutting a matrix into blocks.
#ifndef BLK_H
#define BLK_H

#include "gen.h"

#include <limits>
#include <map>

namespace gen {

struct Blocking {
    bool constant = false;             // made by the library from two block sizes
    uint64_t brs = 0, bcs = 0;
    bool same = false;                 // same array of offsets for rows and columns
    std::vector<uint64_t> rs, cs;      // sizes
    std::vector<uint64_t> ro, co;      // offsets
    void finish()
    {
        ro.assign(1, 0);
        for (auto s : rs) ro.push_back(ro.back() + s);
        co.assign(1, 0);
        for (auto s : cs) co.push_back(co.back() + s);
    }
    uint64_t row_block(uint64_t i) const { return std::upper_bound(ro.begin(), ro.end(), i) - ro.begin() - 1; }
    uint64_t col_block(uint64_t j) const { return std::upper_bound(co.begin(), co.end(), j) - co.begin() - 1; }
};

// What a constant block size means (include/generic/gsb.h): the last block takes the remainder
inline std::vector<uint64_t> const_sizes(uint64_t dim, uint64_t size)
{
    uint64_t n = std::max<uint64_t>(1, dim / size);
    std::vector<uint64_t> s(n, size);
    s[n - 1] = dim - (n - 1) * size;
    return s;
}

inline uint64_t gen_block_size(pbt::Case & c, uint64_t dim, uint64_t max_groups, uint64_t max_size)
{
    uint64_t s;
    switch (c.draw(4)) {
        case 0: s = 1 + c.draw(dim); break;
        case 1: s = 1ull << c.draw(17); break;
        case 2: s = 1 + c.draw(std::min<uint64_t>(dim, 40)); break;
        default: s = dim + c.draw(3) > 1 ? dim + c.draw(3) - 1 : 1; break;
    }
    s = std::max(s, (dim + max_groups - 1) / max_groups);
    if (max_size != ~0ull) {                      // the last block has up to 2*size-1
        if (dim > max_size) s = std::min(s, (max_size + 1) / 2);
    }
    return s;
}

// Non-empty blocks in row-major order of blocks: (block row, block column) -> entries
typedef std::map<std::pair<uint64_t, uint64_t>, std::vector<Ent>> Blocks;
inline Blocks group(const Mat & m, const Blocking & b)
{
    Blocks g;
    for (auto & e : m.e) g[{b.row_block(e.r), b.col_block(e.c)}].push_back(e);
    return g;
}

// Blocks the index type can number, and rows or columns of a block that the small index type can tell apart
template <class IT> uint64_t block_numbers() { return 1ull << std::min<int>(40, std::numeric_limits<IT>::digits); }
template <class SIT> uint64_t small_indices() { return std::numeric_limits<SIT>::digits < 20 ? 1ull << std::numeric_limits<SIT>::digits : ~0ull; }

struct BlkOpt {
    uint64_t max_blocks = 1u << 20;    // block-rows * block-columns
    uint64_t max_row_elems = 1u << 20; // sum over non-empty blocks of their number of rows
    uint64_t max_size = ~0ull;         // of a block in each dimension
    bool constant = true;
};

inline Blocking gen_blocking(pbt::Case & c, const Mat & m, const BlkOpt & o)
{
    Blocking b;
    uint64_t minr = o.max_size == ~0ull ? 1 : 2 * ((m.rows + o.max_size - 1) / o.max_size);
    uint64_t maxg_r = std::min(m.rows, std::max<uint64_t>(minr, 70000));
    b.constant = o.constant && c.draw(3) == 1;
    if (b.constant) {
        b.brs = gen_block_size(c, m.rows, maxg_r, o.max_size);
        b.rs = const_sizes(m.rows, b.brs);
        uint64_t maxg_c = std::max<uint64_t>(1, std::min(m.cols, o.max_blocks / b.rs.size()));
        b.bcs = c.draw(2) ? b.brs : gen_block_size(c, m.cols, maxg_c, o.max_size);
        if (m.cols / b.bcs > maxg_c) b.bcs = (m.cols + maxg_c - 1) / maxg_c;
        if (o.max_size != ~0ull && m.cols > o.max_size) b.bcs = std::min(b.bcs, (o.max_size + 1) / 2);
        b.cs = const_sizes(m.cols, b.bcs);
    } else {
        b.rs = gen_partition(c, m.rows, maxg_r, o.max_size);
        uint64_t maxg_c = std::max<uint64_t>(1, std::min(m.cols, o.max_blocks / b.rs.size()));
        if (m.rows == m.cols && b.rs.size() <= maxg_c && c.draw(3) == 1) { b.cs = b.rs; b.same = c.draw(2) == 1; }
        else b.cs = gen_partition(c, m.cols, maxg_c, o.max_size);
    }
    b.finish();
    // Row pointers of many blocks with many rows would need too much memory
    Blocks g = group(m, b);
    uint64_t elems = 0;
    for (auto & k : g) elems += b.rs[k.first.first] + 1;
    if (elems > o.max_row_elems && o.max_size == ~0ull) {
        b.constant = b.same = false;
        b.cs.assign(1, m.cols);
        b.finish();
    }
    if (b.constant) c.desc("blocks of %lux%lu; ", (unsigned long) b.brs, (unsigned long) b.bcs);
    else { desc_sizes(c, "block rows", b.rs); desc_sizes(c, "block cols", b.cs); }
    c.label(b.constant ? "constant block size" : "variable block sizes");
    if (b.rs.size() * b.cs.size() == 1) c.label("one block");
    else if (b.rs.size() * b.cs.size() > g.size()) c.label("some blocks empty");
    return b;
}

// As many blocks as the index type has numbers, with entries in the last one
template <class VT, class IT> bool gen_last_block(pbt::Case & c, unsigned rare, Mat & m, Blocking & b)
{
    const int bits = std::numeric_limits<IT>::digits;
    if (bits > 34 || c.draw(rare) != rare - 1) return false;
    int rbits = bits - 17 + c.draw(2 * 17 - bits + 1);
    m = Mat();
    m.rows = 1ull << rbits;
    m.cols = 1ull << (bits - rbits);
    Opt o;
    uint64_t others = c.draw(3) == 2 ? c.draw(20) : 0, n = 1 + c.draw(4);
    for (uint64_t i = 0; i < others; i++) { uint64_t r = c.draw(m.rows), k = c.draw(m.cols); m.e.push_back({r, k, gen_value<VT>(c.draw(1000), o)}); }
    for (uint64_t i = 0; i < n; i++) m.e.push_back({m.rows - 1, m.cols - 1, gen_value<VT>(1 + c.draw(1000), o)});
    b = Blocking();
    b.rs.assign(m.rows, 1);
    b.cs.assign(m.cols, 1);
    b.finish();
    c.label("the last block number");
    c.desc("%lux%lu nnz=%lu, blocks of 1x1, %lu entries in the last; ", (unsigned long) m.rows, (unsigned long) m.cols, (unsigned long) m.e.size(), (unsigned long) n);
    return true;
}

// The blocks of a matrix that was built are the ones asked for
template <class M> void expect_blocking(const M & A, const Blocking & b, const char * what)
{
    CHECK(A.blockrows == b.rs.size() && A.blockcols == b.cs.size(), "%s: %lux%lu blocks, expected %lux%lu", what,
          (unsigned long) A.blockrows, (unsigned long) A.blockcols, (unsigned long) b.rs.size(), (unsigned long) b.cs.size());
    for (size_t i = 0; i < b.ro.size(); i++)
        CHECK((uint64_t) A.get_block_row_offset(i) == b.ro[i], "%s: block-row %lu starts at row %lu, expected %lu", what,
              (unsigned long) i, (unsigned long) A.get_block_row_offset(i), (unsigned long) b.ro[i]);
    for (size_t i = 0; i < b.co.size(); i++)
        CHECK((uint64_t) A.get_block_column_offset(i) == b.co[i], "%s: block-column %lu starts at column %lu, expected %lu", what,
              (unsigned long) i, (unsigned long) A.get_block_column_offset(i), (unsigned long) b.co[i]);
}

} // namespace gen

#endif
