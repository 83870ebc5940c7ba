// Generators of matrices, vectors and blockings, and the reference product.
#ifndef GEN_H
#define GEN_H

#include "pbt.h"

#include <algorithm>
#include <cmath>
#include <new>
#include <type_traits>

namespace gen {

struct Ent { uint64_t r, c; double v; };

struct Mat {
    uint64_t rows = 1, cols = 1;
    std::vector<Ent> e;
};

struct Opt {
    uint64_t max_dim = 3000;      // cap of a "large" dimension
    uint64_t huge_dim = 0;        // if > 0, sometimes use dimensions up to this one
    uint64_t max_nnz = 6000;
    uint64_t min_nnz = 0;
    bool dups = true;
    bool floats = true;           // values may be fractions
    unsigned flat = 0;            // if > 0, one matrix in so many has no rows or no columns
    unsigned big = 0;             // if > 0, one matrix in so many has big_nnz entries or so
    uint64_t big_nnz = 140000;
    int vbits = 4;                // values are k / 4 with |k| <= 2^vbits (fractions) or |k| <= 2^vbits
};

// A dimension. Small values first, so that shrinking finds them.
inline uint64_t gen_dim(pbt::Case & c, uint64_t max_dim, uint64_t huge_dim)
{
    switch (c.draw(huge_dim ? 12 : 10)) {
        case 0: return 1 + c.draw(std::min<uint64_t>(4, max_dim));
        case 1: case 2: return 1 + c.draw(std::min<uint64_t>(20, max_dim));
        case 3: case 4: return 1 + c.draw(std::min<uint64_t>(130, max_dim));
        case 5: {
            uint64_t p = 1ull << c.draw(12);
            uint64_t d = p + c.draw(3);          // p-1, p, p+1 (never 0)
            d = d > 1 ? d - 1 : 1;
            return std::min(d, max_dim);
        }
        case 6: case 7: return 1 + c.draw(std::min<uint64_t>(600, max_dim));
        case 8: case 9: return 1 + c.draw(max_dim);
        case 10: return std::min<uint64_t>(huge_dim, 65535 + c.draw(3));
        default: return 1 + c.draw(huge_dim);
    }
}

inline uint64_t gen_nnz(pbt::Case & c, const Opt & o)
{
    uint64_t n;
    if (o.big && c.draw(o.big) == o.big - 1) {     // more than 16 bits count
        n = c.draw(3) ? 60000 + c.draw(o.big_nnz - 60000) : c.draw(2) ? (65536ull >> c.draw(2)) * (2 + c.draw(3)) + c.draw(3) - 1 : 65530 + c.draw(12);
        c.label("65000+ entries");
        return n;
    }
    switch (c.draw(11)) {
        case 0: n = c.draw(3); break;
        case 10: n = (1ull << c.draw(13)) * (1 + c.draw(3)) + c.draw(3) - 1; break;    // around whole buffers
        case 1: case 2: n = c.draw(12); break;
        case 3: n = c.draw(70); break;
        case 4: n = 490 + c.draw(30); break;       // around the cut-off of the parallel merge
        case 5: n = 1990 + c.draw(30); break;      // around the cut-off of the parallel sort
        case 6: case 7: n = c.draw(600); break;
        default: n = c.draw(o.max_nnz + 1); break;
    }
    return std::max(o.min_nnz, std::min(n, o.max_nnz));
}

template <class T> double gen_value(uint64_t k, const Opt & o)   // k: any number
{
    if (std::is_integral<T>::value) return (double) ((int64_t) (k % 17) - 8);
    if (sizeof(T) == 4 || !o.floats) {
        int64_t m = (int64_t) (k % 33) - 16;
        return o.floats ? m / 4.0 : (double) m;
    }
    // double: needs more than 24 bits now and then
    if (k % 3 == 0) return ((int64_t) (k / 3 % 33) - 16) / 4.0;
    return ((int64_t) (k / 3 % ((1ull << 35) + 1)) - (1ll << 34)) / 1048576.0;   // |v| <= 2^14, 20 fraction bits
}

// Structure of the position of entries
enum Shape { UNIFORM, DIAG, BAND, ROWS, COLS, STRIPE, DENSEBLOCK, CLUSTERS, CORNER, FEWPOS, ONEROW, ONECOL, NSHAPES };

template <class T>
Mat gen_mat(pbt::Case & c, const Opt & o)
{
    static const char * names[] = {"uniform", "diagonal", "band", "few-rows", "few-cols", "skewed-stripe", "dense-block",
                                   "clusters", "last-corner", "repeated-positions", "one-row", "one-col"};
    Mat m;
    m.rows = gen_dim(c, o.max_dim, o.huge_dim);
    m.cols = c.draw(4) == 0 ? m.rows : gen_dim(c, o.max_dim, o.huge_dim);
    if (o.flat && c.draw(o.flat) == o.flat - 1) {
        unsigned k = c.draw(3);
        if (k != 1) m.rows = 0;
        if (k != 0) m.cols = 0;
        c.label("no rows or no columns");
        c.desc("%lux%lu; ", (unsigned long) m.rows, (unsigned long) m.cols);
        return m;
    }
    uint64_t nnz = gen_nnz(c, o);
    unsigned shape = c.draw(NSHAPES);
    unsigned order = c.draw(5);
    if (nnz <= 12) {
        for (uint64_t i = 0; i < nnz; i++) {
            Ent e;
            e.r = c.draw(m.rows); e.c = c.draw(m.cols); e.v = gen_value<T>(c.draw(1ull << 36) + (sizeof(T) == 8 ? 0 : 17), o);
            m.e.push_back(e);
        }
        shape = UNIFORM;
    } else {
        pbt::Rng g(c.seed());
        uint64_t R = m.rows, C = m.cols;
        uint64_t a = 1 + g.below(4), bw = 1 + g.below(6);
        uint64_t br = g.below(R), bc = g.below(C);
        uint64_t bh = std::min(R - br, 1 + g.below(40)), bwid = std::min(C - bc, 1 + g.below(40));
        uint64_t stripe = std::max<uint64_t>(1, R / 20);
        uint64_t cl[8][4];
        for (auto & k : cl) {
            k[0] = g.below(R); k[1] = g.below(C);
            k[2] = std::min(R - k[0], 1 + g.below(60)); k[3] = std::min(C - k[1], 1 + g.below(60));
        }
        uint64_t pool = 1 + g.below(nnz / 2 + 1);
        for (uint64_t i = 0; i < nnz; i++) {
            Ent e;
            switch (shape) {
                default:
                case UNIFORM: e.r = g.below(R); e.c = g.below(C); break;
                case DIAG: e.r = g.below(std::min(R, C)); e.c = e.r; break;
                case BAND: e.r = g.below(R); e.c = std::min(C - 1, e.r + g.below(bw)); break;
                case ROWS: e.r = std::min(R - 1, br + g.below(a)); e.c = g.below(C); break;
                case COLS: e.r = g.below(R); e.c = std::min(C - 1, bc + g.below(a)); break;
                case STRIPE: e.r = g.chance(90) ? g.below(stripe) : g.below(R); e.c = g.below(C); break;
                case DENSEBLOCK: e.r = br + g.below(bh); e.c = bc + g.below(bwid); break;
                case CLUSTERS: { auto & k = cl[g.below(8)]; e.r = k[0] + g.below(k[2]); e.c = k[1] + g.below(k[3]); break; }
                case CORNER: e.r = R - 1 - g.below(std::min<uint64_t>(R, 10)); e.c = C - 1 - g.below(std::min<uint64_t>(C, 10)); break;
                case FEWPOS:
                    if (i >= pool) { auto & p = m.e[g.below(pool)]; e.r = p.r; e.c = p.c; }
                    else { e.r = g.below(R); e.c = g.below(C); }
                    break;
                case ONEROW: e.r = br; e.c = g.below(C); break;
                case ONECOL: e.r = g.below(R); e.c = bc; break;
            }
            e.v = gen_value<T>(g.next(), o);
            m.e.push_back(e);
        }
    }
    auto rm = [](const Ent & a, const Ent & b) { return a.r != b.r ? a.r < b.r : a.c < b.c; };
    auto cm = [](const Ent & a, const Ent & b) { return a.c != b.c ? a.c < b.c : a.r < b.r; };
    if (!o.dups) {
        std::vector<Ent> s = m.e;
        std::stable_sort(s.begin(), s.end(), rm);
        s.erase(std::unique(s.begin(), s.end(), [](const Ent & a, const Ent & b) { return a.r == b.r && a.c == b.c; }), s.end());
        if (s.size() != m.e.size()) m.e = s;      // sorted when there were repetitions
    }
    if (order == 1) std::stable_sort(m.e.begin(), m.e.end(), rm);
    if (order == 2) std::stable_sort(m.e.begin(), m.e.end(), cm);
    if (order == 3) { std::stable_sort(m.e.begin(), m.e.end(), rm); std::reverse(m.e.begin(), m.e.end()); }
    c.desc("%lux%lu nnz=%lu %s order=%u; ", (unsigned long) m.rows, (unsigned long) m.cols,
           (unsigned long) m.e.size(), m.e.size() <= 12 ? "listed" : names[shape], order);
    if (m.e.size() <= 12) {
        c.desc("entries");
        for (auto & e : m.e) c.desc(" (%lu,%lu,%g)", (unsigned long) e.r, (unsigned long) e.c, e.v);
        c.desc("; ");
    }
    if (m.e.empty()) c.label("no entries");
    else if (m.e.size() <= 12) c.label("1-12 entries");
    else if (m.e.size() < 500) c.label("13-499 entries");
    else if (m.e.size() < 2000) c.label("500-1999 entries");
    else c.label("2000+ entries");
    if (m.rows != m.cols) c.label("rectangular");
    return m;
}

inline bool has_dups(const Mat & m)
{
    std::vector<std::pair<uint64_t, uint64_t>> p;
    for (auto & e : m.e) p.push_back({e.r, e.c});
    std::sort(p.begin(), p.end());
    return std::adjacent_find(p.begin(), p.end()) != p.end();
}

// x, y vectors whose products and sums are exact in T for the matrices above
template <class T>
std::vector<double> gen_vec(pbt::Case & c, uint64_t n, bool y = false)
{
    std::vector<double> v(n);
    pbt::Rng g(c.seed());
    unsigned kind = c.draw(4);
    for (uint64_t i = 0; i < n; i++) {
        int64_t k = g.range(-8, 8);
        if (std::is_integral<T>::value) v[i] = (double) (y ? g.range(-100, 100) : k);
        else if (y) v[i] = g.range(-800, 800) / 8.0;
        else v[i] = k / 2.0;
        if (kind == 1 && !y) v[i] = 1;
        if (kind == 1 && y) v[i] = 0;
    }
    return v;
}

inline std::vector<double> product(const Mat & m, const std::vector<double> & x, const std::vector<double> & y0)
{
    std::vector<double> y = y0;
    for (auto & e : m.e) y[e.r] += e.v * x[e.c];
    return y;
}

// Consecutive non-empty groups of n things, as sizes
inline std::vector<uint64_t> gen_partition(pbt::Case & c, uint64_t n, uint64_t max_groups, uint64_t max_size = ~0ull)
{
    std::vector<uint64_t> cuts;
    unsigned kind = c.draw(6);
    if (kind == 0) {
        ;                                           // one group
    } else if (kind == 1) {                         // groups of equal size
        uint64_t s = 1 + c.draw(n);
        for (uint64_t p = s; p < n && cuts.size() + 1 < max_groups; p += s) cuts.push_back(p);
    } else if (kind == 2 && n <= max_groups) {      // groups of one
        for (uint64_t p = 1; p < n; p++) cuts.push_back(p);
    } else if (kind == 3) {                         // a few drawn cuts
        uint64_t k = c.draw(std::min<uint64_t>(8, max_groups));
        for (uint64_t i = 0; i < k && n > 1; i++) cuts.push_back(1 + c.draw(n - 1));
    } else {                                        // many cuts
        uint64_t k = c.draw(std::min(n, max_groups));
        pbt::Rng g(c.seed());
        for (uint64_t i = 0; i < k && n > 1; i++) cuts.push_back(1 + g.below(n - 1));
    }
    cuts.push_back(n);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    std::vector<uint64_t> sizes;
    uint64_t prev = 0;
    for (auto p : cuts) {
        while (p - prev > max_size) { sizes.push_back(max_size); prev += max_size; }
        sizes.push_back(p - prev);
        prev = p;
    }
    uint64_t most = std::min(n, max_groups);        // more groups than rows are refused
    if (sizes.size() < most && c.draw(6) == 5) {    // groups of none
        uint64_t k = 1 + c.draw(std::min<uint64_t>(most - sizes.size(), 4));
        for (uint64_t i = 0; i < k && sizes.size() < most; i++)
            sizes.insert(sizes.begin() + c.draw(sizes.size() + 1), 0);
        c.label("blocks of size zero");
    }
    return sizes;
}

inline void desc_sizes(pbt::Case & c, const char * what, const std::vector<uint64_t> & s)
{
    c.desc("%s(%lu)", what, (unsigned long) s.size());
    for (size_t i = 0; i < s.size() && i < 8; i++) c.desc(" %lu", (unsigned long) s[i]);
    c.desc(s.size() > 8 ? "...; " : "; ");
}

template <class IT> IT * offsets_new(const std::vector<uint64_t> & sizes)
{
    IT * o = new IT[sizes.size() + 1];
    o[0] = 0;
    for (size_t i = 0; i < sizes.size(); i++) o[i + 1] = o[i] + (IT) sizes[i];
    return o;
}

// An object in storage full of garbage. Default initialisation only, like a
// local variable in the library's programs.
template <class M> struct Obj {
    alignas(64) unsigned char raw[sizeof(M)];
    M * p;
    explicit Obj(int fill) { memset(raw, fill, sizeof(raw)); p = new (raw) M; }
    M * operator->() { return p; }
    M & operator*() { return *p; }
    M * get() { return p; }
};

// Copy of a vector on the heap, between guards: AddressSanitizer's behind it, known numbers in front of it (and
// behind it in builds without AddressSanitizer). Half of them are not aligned to more than one element.
template <class T> struct Vec {
    T * p;
    uint64_t n, F;                                  // size, elements in front
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define GEN_ASAN 1
#endif
#endif
#ifdef GEN_ASAN
    static constexpr uint64_t G = 0;
#else
    static constexpr uint64_t G = 64;
#endif
    explicit Vec(const std::vector<double> & v) : n(v.size()), F(G)
    {
        uint64_t h = n * 0x9e3779b97f4a7c15ull;
        for (uint64_t i = 0; i < n && i < 4; i++) h = (h ^ (uint64_t) (int64_t) (8 * v[i])) * 0xff51afd7ed558ccdull;
        if ((h >> 33) & 1) F += (h >> 34) % 16;
        p = (T *) malloc((F + n + G) * sizeof(T) + 1);
        if (!p) pbt::engine_error("malloc");
        for (uint64_t i = 0; i < F; i++) p[i] = (T) 77;
        for (uint64_t i = 0; i < G; i++) p[F + n + i] = (T) 78;
        p += F;
        for (uint64_t i = 0; i < n; i++) p[i] = (T) v[i];
    }
    Vec(const Vec &) = delete;
    ~Vec() { free(p - F); }
    void check_guards(const char * what)
    {
        for (uint64_t i = 0; i < F; i++) CHECK(p[(int64_t) i - (int64_t) F] == (T) 77, "%s: wrote in front of the vector", what);
        for (uint64_t i = 0; i < G; i++) CHECK(p[n + i] == (T) 78, "%s: wrote behind the vector", what);
    }
    void expect(const std::vector<double> & want, const char * what)
    {
        for (uint64_t i = 0; i < n; i++)
            CHECK((double) p[i] == want[i], "%s: element %lu of y is %.17g, expected %.17g", what, (unsigned long) i,
                  (double) p[i], want[i]);
        check_guards(what);
    }
};

} // namespace gen

#endif
