// Coordinate matrices with arbitrary bit patterns as values, and ways of comparing them with the library's.
#ifndef BITS_H
#define BITS_H

#include "gen.h"

#include <limits>

namespace bits {

template <class VT> struct Ent { uint64_t r, c; VT v; };
template <class VT> struct Mat { uint64_t rows = 1, cols = 1; std::vector<Ent<VT>> e; };

template <class VT> VT from_bits(uint64_t b) { VT v; memcpy(&v, &b, sizeof(v)); return v; }

// A value from any part of the type's range. Small draws give plain values.
template <class VT> VT value(uint64_t k, bool finite)
{
    if (std::is_integral<VT>::value) {
        switch (k & 3) {
            case 0: return (VT) (k >> 2 & 15);
            case 1: return std::numeric_limits<VT>::max() - (VT) (k >> 2 & 3);
            case 2: return std::numeric_limits<VT>::min() + (VT) (k >> 2 & 3);
            default: return (VT) (k >> 2);
        }
    }
    typedef std::numeric_limits<VT> L;
    uint64_t r = k >> 4;
    VT v = 0;
    switch (k & 15) {
        case 0: case 1: v = (VT) ((int64_t) (r & 31) - 8); break;
        case 2: v = (VT) (r & 1023) / (VT) 64; break;
        case 3: v = -(VT) 0.0; break;
        case 4: v = L::denorm_min() * (VT) (1 + (r & 7)); break;
        case 5: v = L::min() * (VT) (1 + (r & 1)); break;
        case 6: v = L::max(); break;
        case 7: v = std::nextafter((VT) (r & 255), (VT) (r & 256 ? -1000 : 1000)); break;
        case 8: v = (VT) 1 / (VT) (1 + (r & 4095)); break;
        case 9: v = (VT) strtod("1e23", 0) * (VT) (r & 15); break;
        case 10: if (!finite) v = L::infinity(); else v = (VT) 0.1; break;
        case 11: if (!finite) v = from_bits<VT>(sizeof(VT) == 4 ? 0x7f800001 | (pbt::mix(r) & 0x7fffff) : 0x7ff0000000000001 | (pbt::mix(r) & 0xfffffffffffff));
                 else v = (VT) 0.3; break;
        default: v = from_bits<VT>(pbt::mix(r)); break;
    }
    if (r & 1 << 20) v = -v;
    if (finite && !std::isfinite(v)) v = from_bits<VT>(sizeof(VT) == 4 ? pbt::mix(r) & 0xbfffffff : pbt::mix(r) & 0xbfffffffffffffff);
    return v;
}

// sorted: by row
template <class VT> Mat<VT> gen_mat(pbt::Case & c, bool finite, uint64_t max_dim, uint64_t max_nnz, bool sorted = false, unsigned big = 0)
{
    gen::Opt o;
    o.max_dim = std::min<uint64_t>(3000, max_dim);
    if (max_dim > 3000) o.huge_dim = max_dim;
    o.max_nnz = std::min(max_nnz, max_dim);         // an index type of one byte counts entries, too
    o.big = big;
    o.flat = 60;
    gen::Mat m = gen::gen_mat<float>(c, o);
    if (sorted) std::stable_sort(m.e.begin(), m.e.end(), [](const gen::Ent & a, const gen::Ent & b) { return a.r < b.r; });
    Mat<VT> b;
    b.rows = m.rows; b.cols = m.cols;
    pbt::Rng g(c.seed());
    bool few = m.e.size() <= 12;
    bool wild = c.draw(2);
    for (auto & e : m.e) {
        uint64_t k = few ? c.draw(1ull << 32) : g.next();
        if (!few && !wild) k &= ~15ull;
        b.e.push_back({e.r, e.c, value<VT>(k, finite)});
    }
    if (few) for (auto & e : b.e) c.desc("%.17g ", (double) e.v);
    return b;
}

template <class VT> bool same(VT a, VT b) { return memcmp(&a, &b, sizeof(a)) == 0; }

// Exactly as large as needed
template <class A, class VT> void fill(A & a, const Mat<VT> & m)
{
    typedef decltype(a.rows) IT;
    allocate(&a, (IT) m.e.size());
    a.rows = (IT) m.rows; a.columns = (IT) m.cols; a.nnz = (IT) m.e.size();
    for (size_t i = 0; i < m.e.size(); i++) {
        a.set_row_index((IT) i, (IT) m.e[i].r);
        a.set_column_index((IT) i, (IT) m.e[i].c);
        a.set_value((IT) i, m.e[i].v);
    }
}

template <class A, class VT> void expect(const A & a, const Mat<VT> & m, const char * what)
{
    typedef decltype(a.rows) IT;
    CHECK((uint64_t) a.rows == m.rows && (uint64_t) a.columns == m.cols, "%s: %lux%lu, expected %lux%lu", what, (unsigned long) a.rows,
          (unsigned long) a.columns, (unsigned long) m.rows, (unsigned long) m.cols);
    CHECK((uint64_t) a.nnz == m.e.size() && (uint64_t) a.nonzeros() == m.e.size(), "%s: %lu entries, expected %lu", what,
          (unsigned long) a.nnz, (unsigned long) m.e.size());
    for (size_t i = 0; i < m.e.size(); i++) {
        CHECK((uint64_t) a.get_row_index((IT) i) == m.e[i].r && (uint64_t) a.get_column_index((IT) i) == m.e[i].c,
              "%s: entry %lu at (%lu,%lu), expected (%lu,%lu)", what, (unsigned long) i, (unsigned long) a.get_row_index((IT) i),
              (unsigned long) a.get_column_index((IT) i), (unsigned long) m.e[i].r, (unsigned long) m.e[i].c);
        CHECK(same<VT>(a.get_value((IT) i), m.e[i].v), "%s: value of entry %lu is %.17g, expected %.17g (or differs in its bits)", what,
              (unsigned long) i, (double) a.get_value((IT) i), (double) m.e[i].v);
    }
}

} // namespace bits

#endif
