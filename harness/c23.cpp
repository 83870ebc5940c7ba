// C23: arithmetic and comparison helpers.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <omp.h>

#include "common.h"
#include "typedefs.h"
#include "utils.h"
#include "test/utils.h"

#include "gen.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;      // float or double
typedef PIT IT;

typedef unsigned long UL;

uint64_t gen_u64(pbt::Case & c, unsigned bits)
{
    uint64_t v;
    switch (c.draw(4)) {
        case 0: v = c.draw(300); break;
        case 1: v = (1ull << c.draw(bits)) + c.draw(3) - 1; break;
        case 2: v = c.seed() << 32 | c.seed(); v >>= c.draw(64); break;
        default: v = (1ull << c.draw(bits)) | (1ull << c.draw(bits)); break;
    }
    if (bits < 64) v &= (1ull << bits) - 1;
    return v;
}

int top(uint64_t v) { int b = -1; while (v) { v >>= 1; b++; } return b; }

void bits(pbt::Case & c)
{
    c.label("powers and bits");
    for (int k = 0; k < 50; k++) {
        uint64_t v = gen_u64(c, 64);
        if (v == 0) v = 1;
        CHECK(highest_bit_set(v) == (unsigned) top(v), "highest bit of %lu (64 bits): %u", (UL) v, highest_bit_set(v));
        int64_t s = (int64_t) v;
        CHECK(highest_bit_set(s) == (s < 0 ? -1 : top(v)), "highest bit of %ld (64 bits, signed): %ld", (long) s, (long) highest_bit_set(s));
        uint32_t u = (uint32_t) gen_u64(c, 32);
        if (u == 0) u = 1;
        CHECK(highest_bit_set(u) == (unsigned) top(u), "highest bit of %u (32 bits): %u", u, highest_bit_set(u));
        int i = (int) u;
        CHECK(highest_bit_set(i) == (i < 0 ? -1 : top(u)), "highest bit of %d (32 bits, signed): %d", i, highest_bit_set(i));
        if (v > 1ull << 63) v >>= 1;
        uint64_t p = next_power_of_two(v);
        CHECK(p >= v && (p & (p - 1)) == 0 && (p == 1 || p / 2 < v), "next power of two of %lu: %lu", (UL) v, (UL) p);
        uint32_t a = (uint32_t) gen_u64(c, 16), b = (uint32_t) gen_u64(c, 16);
        uint64_t want = 0;
        for (int q = 0; q < 16; q++) want |= (uint64_t) (a >> q & 1) << (2 * q) | (uint64_t) (b >> q & 1) << (2 * q + 1);
        CHECK((uint64_t) bit_interleave<uint32_t>(a, b) == want && bit_interleave<uint64_t>(a, b) == want, "bits of %u and %u interleaved: %lu, expected %lu", a, b,
              (UL) bit_interleave<uint64_t>(a, b), (UL) want);
    }
    c.nontrivial();
}

void blocks(pbt::Case & c)
{
    c.label("offsets, blocks and rows");
    uint64_t lim = (uint64_t) std::numeric_limits<IT>::max();
    std::vector<uint64_t> s[2], off[2];
    unsigned zeros = c.draw(3) == 2 ? 30 : 0;
    std::vector<IT> vs[2], vo[2];
    for (int d = 0; d < 2; d++) {
        uint64_t n = 1 + c.draw(c.draw(3) ? 12 : 200), big = 1ull << c.draw(22);
        pbt::Rng g(c.seed());
        off[d].push_back(0);
        for (uint64_t i = 0; i < n; i++) {
            uint64_t z = g.chance(zeros) ? 0 : 1 + g.below(big);
            if (off[d].back() + z > lim - (n - i)) z = off[d].back() < lim - (n - i);
            s[d].push_back(z);
            off[d].push_back(off[d].back() + z);
        }
        if (off[d].back() == 0) { s[d][n - 1] = 1; off[d][n] = 1; }
        vs[d].assign(s[d].begin(), s[d].end());
        vo[d].assign(n + 1, (IT) 77);
        size_to_offset(vo[d].data(), (const IT *) vs[d].data(), (IT) n);
        for (uint64_t i = 0; i <= n; i++) CHECK((uint64_t) vo[d][i] == off[d][i], "offset %lu: %lu, expected %lu", (UL) i, (UL) vo[d][i], (UL) off[d][i]);
        for (uint64_t i = 0; i < n; i++) CHECK((uint64_t) vs[d][i] == s[d][i], "sizes changed");
    }
    desc_sizes(c, "rows", s[0]);
    desc_sizes(c, "columns", s[1]);
    uint64_t nr = s[0].size(), nc = s[1].size();
    if (nr > lim / nc) return;
    uint64_t k = c.draw(6) ? c.draw(300) : c.draw(4);
    k = std::min(k, lim);
    std::vector<Element<VT, IT>> e(k);
    pbt::Rng g(c.seed());
    bool edge = c.draw(2);
    for (auto & x : e) {
        uint64_t r = g.below(off[0][nr]), q = g.below(off[1][nc]);
        if (edge) {
            uint64_t b = g.below(nr);
            if (s[0][b]) r = off[0][b] + (g.chance(50) ? 0 : s[0][b] - 1);
            b = g.below(nc);
            if (s[1][b]) q = off[1][b] + (g.chance(50) ? 0 : s[1][b] - 1);
        }
        x.row = (IT) r; x.col = (IT) q; x.val = (VT) 1; x.block = (IT) 99;
        uint64_t br = (uint64_t) index_to_blockindex(vo[0].data(), (IT) nr, (IT) r);
        CHECK(br < nr && off[0][br] <= r && r < off[0][br + 1], "index %lu is in block %lu", (UL) r, (UL) br);
    }
    calculate_block_id(e.data(), (IT) k, vo[0].data(), (IT) nr, vo[1].data(), (IT) nc);
    for (auto & x : e) {
        uint64_t br = (uint64_t) x.block / nc, bc = (uint64_t) x.block % nc, r = (uint64_t) x.row, q = (uint64_t) x.col;
        CHECK(br < nr && off[0][br] <= r && r < off[0][br + 1] && off[1][bc] <= q && q < off[1][bc + 1], "entry (%lu,%lu) is in block %lu of %lux%lu", (UL) r,
              (UL) q, (UL) x.block, (UL) nr, (UL) nc);
    }
    // counts
    std::sort(e.begin(), e.end(), [](const Element<VT, IT> & a, const Element<VT, IT> & b) { return a.block < b.block; });
    uint64_t want = 0;
    for (uint64_t i = 0; i < k; i++) want += i == 0 || e[i].block != e[i - 1].block;
    CHECK((uint64_t) count_blocks(e.data(), (IT) k) == want, "%lu blocks counted, expected %lu", (UL) count_blocks(e.data(), (IT) k), (UL) want);
    {
        if (c.draw(2)) for (auto & x : e) x.row %= 5;
        std::sort(e.begin(), e.end(), [](const Element<VT, IT> & a, const Element<VT, IT> & b) { return a.row < b.row; });
        std::vector<Triplet<VT, IT>> t(k);
        want = 0;
        for (uint64_t i = 0; i < k; i++) { t[i].row = e[i].row; want += i == 0 || e[i].row != e[i - 1].row; }
        CHECK((uint64_t) count_nnz_rows(e.data(), (IT) k) == want && (uint64_t) count_nnz_rows(t.data(), (IT) k) == want, "%lu rows counted, expected %lu",
              (UL) count_nnz_rows(e.data(), (IT) k), (UL) want);
    }
    // constant sizes, also in a grid where the last block is cut
    uint64_t h = 1 + c.draw(c.draw(2) ? 9 : 3000), w = 1 + c.draw(c.draw(2) ? 9 : 3000);
    uint64_t R = off[0][nr] / h + 1, C = off[1][nc] / w + 1;
    if (h <= lim && w <= lim && R <= lim / C) {
        calculate_block_id(e.data(), (IT) k, (IT) h, (IT) w, (IT) C);
        for (auto & x : e)
            CHECK((uint64_t) x.block == (uint64_t) x.row / h * C + (uint64_t) x.col / w, "entry (%lu,%lu), blocks of %lux%lu, %lu in a row: block %lu", (UL) x.row,
                  (UL) x.col, (UL) h, (UL) w, (UL) C, (UL) x.block);
    }
    if (k > 1) c.nontrivial();
}

std::string gen_str(pbt::Case & c, unsigned maxlen)
{
    std::string s;
    unsigned n = c.draw(maxlen + 1);
    for (unsigned i = 0; i < n; i++) s += "ab.mtx"[c.draw(6)];
    return s;
}

void strings_files(pbt::Case & c)
{
    c.label("suffixes and file sizes");
    for (int k = 0; k < 10; k++) {
        std::string suf = c.draw(3) == 0 ? c.pick<const char *>({".mtx", ".bin", "", "."}) : gen_str(c, 5);
        std::string s = gen_str(c, 8);
        if (c.draw(2)) s += suf;
        else if (c.draw(2) && suf.size()) s += suf.substr(c.draw(suf.size()));
        else if (c.draw(2) && suf.size()) s += suf.substr(0, c.draw(suf.size()));
        bool want = s.size() >= suf.size() && s.substr(s.size() - suf.size()) == suf;
        CHECK((string_ends_with(s.c_str(), suf.c_str()) != 0) == want, "\"%s\" ends with \"%s\": %d", s.c_str(), suf.c_str(), string_ends_with(s.c_str(), suf.c_str()));
    }
    uint64_t n = c.draw(4) == 3 ? (1ull << (28 + c.draw(8))) + c.draw(3) : c.draw(2) ? c.draw(10) : c.draw(200000);
    int fd = open("size", O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fd < 0 || ftruncate(fd, (off_t) n) != 0) pbt::engine_error("scratch file");      // sparse
    off_t pos = lseek(fd, 0, SEEK_CUR);
    size_t got = get_file_size("size");
    CHECK(got == n, "a file of %lu bytes has %lu", (UL) n, (UL) got);
    CHECK(lseek(fd, 0, SEEK_CUR) == pos, "position moved");
    close(fd);
    unlink("size");
    c.nontrivial();
}

void statistics(pbt::Case & c)
{
    c.label("mean, median, deviation");
    uint64_t n = c.draw(4) == 0 ? 1 + c.draw(3) : 1 + c.draw(c.draw(3) ? 40 : 1000);
    unsigned kind = c.draw(5);
    c.desc("%lu values, kind %u: ", (UL) n, kind);
    std::vector<VT> d(n);
    pbt::Rng g(c.seed());
    VT base = kind == 1 ? (VT) (int64_t) g.range(-1000, 1000) : 0;
    for (uint64_t i = 0; i < n; i++) {
        d[i] = kind == 0 ? (VT) (int64_t) g.range(-9, 9) : kind == 1 ? base : kind == 2 ? (VT) (int64_t) g.range(-4000, 4000) / 4 : kind == 3 ? (VT) i : (VT) (g.chance(5) ? 1000 : 1);
        if (i < 8) c.desc("%g ", (double) d[i]);
    }
    long double sum = 0, sq = 0, amax = 0;
    for (auto v : d) { sum += v; amax = std::max<long double>(amax, fabsl(v)); }
    long double mu = sum / n;
    for (auto v : d) sq += (v - mu) * (v - mu);
    long double sd = sqrtl(sq / n);
    std::vector<VT> s = d;
    std::sort(s.begin(), s.end());
    long double med = n % 2 ? s[n / 2] : ((long double) s[n / 2 - 1] + s[n / 2]) / 2;
    long double tol = std::numeric_limits<VT>::epsilon() * (n + 16) * (amax + 1);
    auto near = [&](VT got, long double want, const char * what) {
        CHECK(fabsl((long double) got - want) <= tol, "%s of %lu values: %.17g, expected %.17Lg", what, (UL) n, (double) got, want);
    };
    std::vector<VT> a = d;
    near(mean(a.data(), (IT) n), mu, "mean");
    near(standard_deviation(a.data(), (IT) n), sd, "standard deviation");
    CHECK(memcmp(a.data(), d.data(), n * sizeof(VT)) == 0, "data changed");
    near(median(a.data(), (IT) n), med, "median");
    std::sort(a.begin(), a.end());
    CHECK(a == s, "median lost data");
    if (n > 1 && kind != 1) c.nontrivial();
}

void compare(pbt::Case & c)
{
    c.label("comparison of results");
    uint64_t n = c.draw(5) == 0 ? c.draw(3) : c.draw(c.draw(3) ? 20 : 2000);
    std::vector<VT> a(n), b;
    pbt::Rng g(c.seed());
    bool frac = c.draw(2);
    for (auto & v : a) v = frac ? (VT) (int64_t) g.range(-1000, 1000) / 3 : (VT) (int64_t) g.range(-3, 3);
    b = a;
    unsigned kind = c.draw(6);
    uint64_t k = n ? (c.draw(3) == 0 ? 1 : c.draw(n + 1)) : 0;
    c.desc("%lu elements, %lu changed (%u); ", (UL) n, (UL) k, kind);
    bool nan = false;
    for (uint64_t i = 0; i < k; i++) {
        uint64_t p = c.draw(2) && i == 0 ? (c.draw(2) ? n - 1 : 0) : g.below(n);
        switch (kind) {
            case 0: b[p] = a[p] + (VT) (int64_t) g.range(1, 9); break;
            case 1: b[p] = a[p] - (VT) (int64_t) g.range(1, 9); break;
            case 2: b[p] = std::nextafter(a[p], (VT) 1e9); break;
            case 3: b[p] = -a[p]; break;                         // zero stays equal
            case 4: b[p] = std::numeric_limits<VT>::quiet_NaN(); nan = true; break;
            default: b[p] = 0; break;
        }
    }
    if (c.draw(2)) std::swap(a, b);
    uint64_t want = 0;
    VT mx = 0;
    for (uint64_t i = 0; i < n; i++) if (!(a[i] == b[i])) { want++; VT d = std::abs(a[i] - b[i]); if (d > mx) mx = d; }
    std::vector<VT> ka = a, kb = b;
    int rc = 0;
    std::string s = io::capture([&] { rc = check_results(a.data(), b.data(), (IT) n); });
    CHECK(memcmp(a.data(), ka.data(), n * sizeof(VT)) == 0 && memcmp(b.data(), kb.data(), n * sizeof(VT)) == 0, "vectors changed");
    bool same = s.find("same result") != std::string::npos;
    size_t pos = s.find("differ in "), mp = s.find("Maximum error : ");
    if (want == 0) {
        CHECK(rc == 0 && same && pos == std::string::npos, "equal vectors reported as different (%d): %s", rc, s.c_str());
    } else {
        c.nontrivial();
        CHECK(rc != 0 && !same && pos != std::string::npos && mp != std::string::npos, "%lu differences not reported (%d): %s", (UL) want, rc, s.c_str());
        CHECK(strtoull(s.c_str() + pos + 10, 0, 10) == want, "%lu differences reported as: %s", (UL) want, s.c_str());
        double got = strtod(s.c_str() + mp + 16, 0);
        if (!nan) CHECK(std::fabs(got - (double) mx) <= 1e-5 * (double) mx, "largest difference %g reported as: %s", (double) mx, s.c_str());
    }
}

void vectors(pbt::Case & c)
{
    c.label("vectors and timings");
    uint64_t n = c.draw(4) == 0 ? c.draw(3) : c.draw(3000);
    n = std::min(n, (uint64_t) std::numeric_limits<IT>::max());
    VT * z = (VT *) 1, * r = (VT *) 1;
    vector_zero(&z, (IT) n);
    vector_random(&r, (IT) n);
    CHECK((uintptr_t) z % 64 == 0 && (uintptr_t) r % 64 == 0, "vectors of %lu elements are not aligned", (UL) n);
    bool varies = false;
    for (uint64_t i = 0; i < n; i++) {
        CHECK(z[i] == 0, "element %lu of a zero vector is %g", (UL) i, (double) z[i]);
        CHECK(r[i] >= 0 && r[i] <= 1, "element %lu of a random vector is %g", (UL) i, (double) r[i]);
        varies |= r[i] != r[0];
        z[i] = 1;
    }
    CHECK(n < 20 || varies, "a random vector of %lu elements is constant", (UL) n);
    vector_release(z);
    vector_release(r);
    // summaries of times
    uint64_t k = 1 + c.draw(c.draw(2) ? 5 : 200), nnz = 1 + c.draw(1000000);
    std::vector<double> t(k);
    pbt::Rng g(c.seed());
    for (auto & v : t) v = (double) (1 + g.below(1000)) / 64;
    std::vector<double> s = t;
    std::sort(s.begin(), s.end());
    double sum = 0;
    for (auto v : s) sum += v;
    const double lo[4] = {s[0], s[(k - 1) / 2], sum / k, s[k - 1]}, hi[4] = {s[0], s[k / 2], sum / k, s[k - 1]};
    std::vector<double> a = t;
    std::string out = io::capture([&] { print_timing_verbose("meth", nnz, k, a.data()); });
    const char * names[4] = {"best", "median", "mean", "worst"};
    for (int i = 0; i < 4; i++) {
        std::string key = std::string("Execution time meth (") + names[i] + ")", mk = std::string("MFLOP/s        meth (") + names[i] + ")";
        size_t p = out.find(key), q = out.find(mk);
        CHECK(p != std::string::npos && q != std::string::npos, "%s time missing: %s", names[i], out.c_str());
        double v = strtod(out.c_str() + out.find(':', p) + 1, 0), f = strtod(out.c_str() + out.find(':', q) + 1, 0);
        CHECK(v >= lo[i] * (1 - 1e-5) - 1e-6 && v <= hi[i] * (1 + 1e-5) + 1e-6, "%s time: %g, expected %g", names[i], v, lo[i]);
        double wl = 2e-6 * nnz / hi[i], wh = 2e-6 * nnz / lo[i];
        CHECK(f >= wl * (1 - 1e-5) - 1 && f <= wh * (1 + 1e-5) + 1, "%s MFLOP/s: %g, expected %g", names[i], f, wl);
    }
    for (int with = 0; with < 2; with++) {
        out = io::capture([&] { if (with) print_timing("meth", "mode", nnz, t[0]); else print_timing("mode", nnz, t[0]); });
        char want[300];
        const char * w = with ? "meth (mode)" : "mode ";
        double v = -1, f = -1;
        snprintf(want, sizeof(want), "Execution time %s: %%lf MFLOP/s        %s: %%lf", w, w);
        CHECK(sscanf(out.c_str(), want, &v, &f) == 2, "unexpected time: %s", out.c_str());
        CHECK(fabs(v - t[0]) <= 1e-5 * t[0] + 1e-6, "time: %g, expected %g", v, t[0]);
        CHECK(fabs(f - 2e-6 * nnz / t[0]) <= 1 + 1e-5 * f, "MFLOP/s: %g, expected %g", f, 2e-6 * nnz / t[0]);
    }
    // the timer
    if (c.draw(20) == 19) {
        auto now = [] { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; };
        double a0 = now();
        tick();
        double a1 = now();
        usleep(200 + c.draw(1000));
        double b0 = now(), m = tock(), b1 = now();
        CHECK(m >= b0 - a1 - 2e-5 && m <= b1 - a0 + 2e-5, "timer: %g s, expected %g to %g", m, b0 - a1, b1 - a0);
    }
    a = t;
    out = io::capture([&] { print_timing_csv("meth", nnz, k, a.data()); });
    double f[4];
    CHECK(sscanf(out.c_str(), "meth,%lf,%lf,%lf,%lf", f, f + 1, f + 2, f + 3) == 4, "unexpected summary: %s", out.c_str());
    for (int i = 0; i < 4; i++) {
        double wl = 2e-6 * nnz / hi[i], wh = 2e-6 * nnz / lo[i];
        CHECK(f[i] >= wl * (1 - 1e-5) - 1 && f[i] <= wh * (1 + 1e-5) + 1, "%s MFLOP/s: %g, expected %g", names[i], f[i], wl);
    }
    c.nontrivial();
}

void run(pbt::Case & c)
{
    switch (c.draw(6)) {
        case 0: bits(c); break;
        case 1: blocks(c); break;
        case 2: strings_files(c); break;
        case 3: statistics(c); break;
        case 4: compare(c); break;
        default: vectors(c); break;
    }
}

pbt::Reg reg(TAG, run);

} // namespace
