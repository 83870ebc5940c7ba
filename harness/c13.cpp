// C13: damaged files are refused.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"

#include "bits.h"
#include "io.h"
#include "mmtext.h"
#include "memuse.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

uint64_t raw(VT v) { uint64_t b = 0; memcpy(&b, &v, sizeof(v)); return b; }
typedef std::tuple<uint64_t, uint64_t, uint64_t> Key;

// Accepted: entries inside the dimensions
template <class COO> void inside(COO & A)
{
    CHECK(!(A.rows < 0) && !(A.columns < 0) && !(A.nnz < 0), "accepted with negative sizes");
    for (IT i = 0; i < A.nnz; i++)
        CHECK(!(A.get_row_index(i) < 0) && A.get_row_index(i) < A.rows && !(A.get_column_index(i) < 0) && A.get_column_index(i) < A.columns,
              "accepted, but entry %lu of the matrix, at (%lu,%lu), is outside %lux%lu", (unsigned long) i, (unsigned long) A.get_row_index(i),
              (unsigned long) A.get_column_index(i), (unsigned long) A.rows, (unsigned long) A.columns);
}

template <class F> int guarded(uint64_t bytes, F f)
{
    static bool once = [] { FILE * n = fopen("/dev/null", "w"); if (n) stderr = n; return true; }();
    (void) once;
    int fd = dup(0);
    close(fd);
    memuse::begin();
    int rc = f();
    uint64_t used = memuse::end();
    int fd2 = dup(0);
    close(fd2);
    CHECK(fd == fd2, "a file is still open");
    CHECK(used <= 64 * bytes + (1 << 16), "%lu bytes of memory were allocated for a file of %lu", (unsigned long) used, (unsigned long) bytes);
    return rc;
}

// ---------------------------------------------------------------- MatrixMarket

struct Ref { bool ok = false, sym = false, skew = false; long rows = 0, cols = 0, nnz = 0; std::vector<std::tuple<uint64_t, uint64_t, double>> e; };

// What is in the file, read independently
Ref reference(const std::string & s)
{
    Ref f;
    size_t p = 0;
    auto line = [&](std::string & l) -> bool {       // like fgets with the format's limit
        if (p >= s.size()) return false;
        size_t q = s.find('\n', p), n = q == std::string::npos ? s.size() - p : q + 1 - p;
        n = std::min<size_t>(n, 1024);
        l = s.substr(p, n);
        p += n;
        size_t z = l.find('\0');
        if (z != std::string::npos) l.resize(z);
        return true;
    };
    std::string l;
    if (!line(l)) return f;
    char a[5][1100];
    if (sscanf(l.c_str(), "%1050s %1050s %1050s %1050s %1050s", a[0], a[1], a[2], a[3], a[4]) != 5) return f;
    for (auto & t : a) for (char * q = t; *q; q++) *q = tolower(*q);
    if (strcmp(a[1], "matrix") || strcmp(a[2], "coordinate")) return f;
    bool pattern = !strcmp(a[3], "pattern");
    if (!pattern && strcmp(a[3], "real") && strcmp(a[3], "integer")) return f;
    if (!strcmp(a[4], "skew-symmetric")) f.sym = f.skew = true;
    else if (!strcmp(a[4], "symmetric")) f.sym = true;
    else if (strcmp(a[4], "general")) return f;
    do if (!line(l)) return f; while (l[0] == '%');
    long v[3];
    const char * q = l.c_str();
    bool blank = l.find_first_not_of(" \t\r\n\v\f") == std::string::npos;
    std::string rest;
    if (blank) { rest = s.substr(p); q = rest.c_str(); }
    for (int i = 0; i < 3; i++) {
        char * end;
        v[i] = strtol(q, &end, 10);
        if (end == q) return f;
        if (v[i] < 0 || v[i] == std::numeric_limits<long>::max()) return f;
        q = end;
    }
    if (!blank) q = s.c_str() + p; 
    f.rows = v[0]; f.cols = v[1]; f.nnz = v[2];
    for (long i = 0; i < f.nnz; i++) {
        char * end;
        double x = 1;
        auto whole = [&] { if (end == q || (*end && !isspace((unsigned char) *end))) return false; q = end; return true; };
        long r = strtol(q, &end, 10); if (!whole() || r < 1) return f;
        long c = strtol(q, &end, 10); if (!whole() || c < 1) return f;
        if (!pattern) {
            x = strtod(q, &end);
            if (end != q && *end && strchr("eEpPxX", *end)) { end++; if (*end == '+' || *end == '-') end++; }   // the C library lets these pass
            if (!whole()) return f;
        }
        f.e.push_back(std::make_tuple((uint64_t) r, (uint64_t) c, x));
    }
    f.ok = true;
    return f;
}

bool representable(double v)
{
    if (!std::is_integral<VT>::value) return true;
    return v > -2147483648.0 && v < 2147483647.0;
}

struct Tok { size_t at, n; };

template <class COO> void market(pbt::Case & c)
{
    mmtext::File f = mmtext::gen_file(c, true, std::is_integral<VT>::value, sizeof(VT) == 4, c.draw(4) ? 2147483647 : mmtext::max_dim<IT>(), c.draw(8) == 7 ? 600 : 60);
    std::string s = f.text;
    // Where things are
    std::vector<Tok> toks;                           // from the size line on
    size_t body = 0;
    {
        size_t p = 0;
        bool first = true;
        while (p < s.size()) {
            size_t q = s.find('\n', p);
            if (q == std::string::npos) q = s.size(); else q++;
            if (first || s[p] == '%') { first = false; p = q; continue; }
            body = p;
            break;
        }
        if (body == 0) body = s.size();
        for (size_t i = body; i < s.size();) {
            size_t j = s.find_first_not_of(" \t\r\n", i);
            if (j == std::string::npos) break;
            size_t k = s.find_first_of(" \t\r\n", j);
            if (k == std::string::npos) k = s.size();
            toks.push_back({j, k - j});
            i = k;
        }
    }
    unsigned per = f.field == "pattern" ? 2 : 3;
    size_t n = f.lines.size();
    if (toks.size() != 3 + per * n) pbt::engine_error("tokens");
    auto swap_tok = [&](size_t t, const std::string & with) { s.replace(toks[t].at, toks[t].n, with); };
    bool must = false;                              // be refused
    const char * how = "";
    static const char * junk[] = {"x", "abc", "--1", "-", "..", "_", "?", "*", "e5", "x1", "%", "\"1\"", "+", "1,5", "3abc", "1;", "2:3", "1..5", "1.5.5"};
    bool big = c.draw(12) == 11;                    // much larger than the buffers
    switch (c.draw(n ? 9 : 5)) {
        case 0: {                                   // any cut that loses a number
            how = "cut";
            size_t last = toks.back().at;
            size_t cut = c.draw(last + 1);
            must = true;
            s.resize(cut);
            break;
        }
        case 1: {
            how = "header";
            size_t eol = s.find_first_of("\r\n");
            std::string h = s.substr(0, eol);
            std::vector<std::string> w;
            size_t p = 0;
            while ((p = h.find_first_not_of(" \t", p)) != std::string::npos) { size_t q = h.find_first_of(" \t", p); if (q == std::string::npos) q = h.size(); w.push_back(h.substr(p, q - p)); p = q; }
            unsigned k = c.draw(5);
            static const char * bad[] = {"x", "%", "matrixx", "vector", "dense", "generals", "reals", "symetric", "0", "complexx", "%%Matrix"};
            if (c.draw(3)) { w[k] = bad[c.draw(11)]; if (big) w[k] += std::string(2000, 'y'); }
            else if (c.draw(2)) w.erase(w.begin() + k);
            else w.resize(k);
            std::string nh;
            for (auto & t : w) nh += (nh.empty() ? "" : " ") + t;
            s = nh + s.substr(eol);
            must = true;
            break;
        }
        case 2: {
            how = "size line";
            unsigned k = c.draw(3);
            switch (c.draw(n ? 5 : 2)) {
                case 0: swap_tok(k, c.pick<const char *>({"-1", "-2147483647", "-7", "-18446744073709551615", "-4294967297", "18446744073709551617", "9223372036854775808"})); must = true; break;
                case 1: {
                    const char * j = junk[c.draw(19)];
                    swap_tok(k, j);
                    must = k || *j != '%';              // a comment, and the next line may be a size line
                    break;
                }
                case 2: swap_tok(2, std::to_string(n + 1 + (c.draw(2) ? c.draw(2147483646 - n) : c.draw(4)))); must = true; break;   // entries are missing
                case 3: {                               // an entry does not fit
                    uint64_t mx = 0;
                    for (auto & l : f.lines) mx = std::max(mx, k == 1 ? l.c : l.r);
                    if (k == 2) k = 0;
                    swap_tok(k, std::to_string(c.draw(mx + 1)));
                    must = true;
                    break;
                }
                default: swap_tok(2, std::to_string(c.draw(n))); break;                        // fewer: accepted or not
            }
            break;
        }
        case 3: how = "empty, or nothing but white space"; s = c.pick<const char *>({"", "\n", " ", "\n\n\n", "%%MatrixMarket", "%", "%\n%\n"}); must = true; break;
        case 4: {                                       // anything
            how = "any";
            pbt::Rng g(c.seed());
            unsigned k = 1 + c.draw(4);
            for (unsigned i = 0; i < k; i++) {
                size_t at = g.below(s.size() + 1), len = std::min<size_t>(s.size() - at, g.below(1 + (g.chance(20) ? 400 : 6)));
                static const char * bits_[] = {"\n", " ", "-", "0", "1", "9999999999999999999999", "%", "\r", "\t", "e", ".", "nan", "inf", "1e999", "0x1p3",
                                              "-18446744073709551615", "4294967297", "2147483648", "2147483647", "symmetric", "pattern", "general", "\v", "-1 -1 -1\n"};
                switch (g.below(7)) {
                    case 0: s.erase(at, len); break;
                    case 1: for (size_t j = 0; j < len; j++) s[at + j] = (char) g.next(); break;
                    case 2: s.insert(at, bits_[g.below(24)]); break;
                    case 3: s.insert(at, s.substr(g.below(s.size() + 1), g.below(60))); break;
                    case 4: if (len) s[at] ^= 1 << g.below(8); break;
                    case 5: s.insert(at, std::string(1 + g.below(big ? 3000 : 4), (char) (g.chance(50) ? 32 + g.below(90) : g.next()))); break;
                    default: s.resize(at); break;
                }
            }
            break;
        }
        case 5: {
            how = "malformed number";
            size_t t = c.draw(per * n);
            if (t % per < 2 && c.draw(4) == 3) swap_tok(3 + t, c.pick<const char *>({"1.5", "1.", "1e0", "0x1", "1.0"}));
            else swap_tok(3 + t, big ? "x" + std::string(3000, '9') : junk[c.draw(19)]);
            must = true;
            break;
        }
        case 6: case 7: {
            how = "index out of range";
            unsigned k = c.draw(2);
            size_t t = 3 + per * c.draw(n) + k;
            uint64_t d = k ? f.cols : f.rows;
            switch (c.draw(6)) {
                case 0: swap_tok(t, "0"); break;
                case 1: swap_tok(t, std::to_string(d + 1)); break;
                case 2: swap_tok(t, std::to_string(d + 1 + c.draw(1ull << 33))); break;
                case 3: swap_tok(t, std::to_string(((d >> 32) + 1 + c.draw(4)) * (1ull << 32) + c.draw(3))); break;
                case 4: swap_tok(t, "-" + std::to_string(c.draw(3) ? 1 + c.draw(1000) : ~(uint64_t) c.draw(d))); break;
                default: swap_tok(t, big ? "1" + std::string(500, '0') : "99999999999999999999999"); break;
            }
            must = true;
            break;
        }
        default: {
            how = "a number is missing";
            size_t t = 3 + c.draw(per * n);
            swap_tok(t, "");
            must = true;
            break;
        }
    }
    c.label(std::string("MatrixMarket: ") + how);
    std::string shown = s.substr(0, 300);
    for (auto & ch : shown) if (ch == '\n') ch = '|'; else if (ch < 32 || ch > 126) ch = '?';
    c.desc("%s%s: %s", how, must ? " (must be refused)" : "", shown.c_str());
    c.nontrivial();
    io::write_file("d.mtx", s);
    Obj<COO> A(c.pick<int>({0xa5, 0, 0xff}));
    bool gen = c.draw(2);
    int rc = guarded(s.size(), [&] { return gen ? read_COO(A.get(), "d.mtx") : read_mm_COO(A.get(), "d.mtx"); });
    unlink("d.mtx");
    CHECK(rc <= 0, "returned %d", rc);
    CHECK(!(must && rc == 0), "accepted");
    if (rc < 0) return;
    inside(*A);
    Ref ref = reference(s);
    CHECK(ref.ok, "accepted, but the file does not hold a matrix");
    {
        CHECK((long) A->rows == ref.rows && (long) A->columns == ref.cols, "%lux%lu, the file says %ldx%ld", (unsigned long) A->rows,
              (unsigned long) A->columns, ref.rows, ref.cols);
        std::vector<Key> have, want;
        bool values = true;
        for (auto & e : ref.e) if (!representable(std::get<2>(e)) || std::isnan(std::get<2>(e))) values = false;
        for (auto & e : ref.e) {
            uint64_t r = std::get<0>(e) - 1, cc = std::get<1>(e) - 1;
            double v = std::get<2>(e);
            want.push_back(Key(r, cc, values ? raw((VT) v) : 0));
            if (ref.sym && r != cc) want.push_back(Key(cc, r, values ? raw((VT) (ref.skew ? -v : v)) : 0));
        }
        for (IT i = 0; i < A->nnz; i++) have.push_back(Key((uint64_t) A->get_row_index(i), (uint64_t) A->get_column_index(i), values ? raw(A->get_value(i)) : 0));
        if (ref.sym) { std::sort(have.begin(), have.end()); std::sort(want.begin(), want.end()); }
        CHECK(have == want, "accepted with other entries than those in the file");
    }
    c.label("MatrixMarket: accepted");
    release(*A);
}

// More entries than the index type can count, at the limit and below
template <class COO> void counts(pbt::Case & c)
{
    const uint64_t lim = std::numeric_limits<IT>::max();
    bool sym = c.draw(2);
    unsigned side = c.draw(4);
    uint64_t rows = sym ? lim : c.pick<uint64_t>({lim, 7, lim - 1}), cols = sym ? rows : c.pick<uint64_t>({lim, 100, 1}), diag = sym ? c.draw(3) : 0;
    uint64_t total = lim + c.draw(4) - 2, off = 0;          // lim-2 .. lim+1
    if (side == 1) total = c.draw(50);                       // dimensions instead
    if (side == 1) { rows = lim + 1 + c.draw(c.draw(2) ? 3 : 70000); if (sym || c.draw(2)) cols = rows; total = std::min<uint64_t>(total, 40); }
    if (side == 2 && !sym) total = 65536 + c.draw(20);
    if (sym) { off = (total - std::min(total, diag)) / 2; diag = total - 2 * off; }
    uint64_t lines = sym ? off + diag : total;
    std::string s = std::string("%%MatrixMarket matrix coordinate pattern ") + (sym ? "symmetric" : "general") + "\n" + std::to_string(rows) + " " + std::to_string(cols) + " " + std::to_string(lines) + "\n";
    for (uint64_t i = 0; i < lines; i++) {
        uint64_t r = sym ? (i < diag ? i : 1 + i % (rows - 1)) : i % rows, cc = sym ? (i < diag ? i : 0) : i % cols;
        s += std::to_string(r + 1) + " " + std::to_string(cc + 1) + "\n";
    }
    bool fits = rows <= lim && cols <= lim && total <= lim;
    c.label(fits ? "counts: at or below the limit" : "counts: beyond the index type");
    c.desc("%s, %lux%lu, %lu lines, %lu entries", sym ? "symmetric" : "general", (unsigned long) rows, (unsigned long) cols, (unsigned long) lines, (unsigned long) total);
    c.nontrivial();
    io::write_file("d.mtx", s);
    Obj<COO> A(c.pick<int>({0xa5, 0, 0xff}));
    int rc = guarded(s.size(), [&] { return read_mm_COO(A.get(), "d.mtx"); });
    unlink("d.mtx");
    CHECK(rc <= 0, "returned %d", rc);
    CHECK(!(!fits && rc == 0), "accepted, but the index type cannot count its rows, columns or entries");
    CHECK(!(fits && rc < 0), "refused, but it fits the index type");
    if (rc < 0) return;
    CHECK(A->rows == rows && A->columns == cols && A->nnz == total, "%lux%lu with %lu entries", (unsigned long) A->rows, (unsigned long) A->columns, (unsigned long) A->nnz);
    inside(*A);
    release(*A);
}

// ---------------------------------------------------------------- .bin

std::string layout(const bits::Mat<VT> & m)
{
    std::string s;
    io::append<IT>(s, (IT) m.rows);
    io::append<IT>(s, (IT) m.cols);
    io::append<IT>(s, (IT) m.e.size());
    for (auto & e : m.e) io::append<IT>(s, (IT) e.r);
    for (auto & e : m.e) io::append<IT>(s, (IT) e.c);
    for (auto & e : m.e) io::append<VT>(s, e.v);
    return s;
}

template <class X> void put(std::string & s, size_t at, X v) { if (at + sizeof(X) <= s.size()) memcpy(&s[at], &v, sizeof(X)); }
template <class X> X get(const std::string & s, size_t at) { X v; memcpy(&v, &s[at], sizeof(X)); return v; }

IT beyond(pbt::Case & c, uint64_t dim)      // an index that is not below dim
{
    uint64_t lim = std::numeric_limits<IT>::max();
    switch (c.draw(4)) {
        case 0: return (IT) dim;
        case 1: return (IT) std::min<uint64_t>(lim, dim + 1 + c.draw(1000));
        case 2: return (IT) lim;
        default: return (IT) -1;             // largest, or negative
    }
}

template <class M> int read_csr(M & A, const char * n) { return read_bin_CSR(A.get(), n); }

void bin(pbt::Case & c)
{
    unsigned target = c.draw(4);             // Coo2, Coo3, Csr, Csr2
    bool csr = target > 1;
    bits::Mat<VT> m = bits::gen_mat<VT>(c, false, std::min<uint64_t>(csr ? 3000 : ~0ull, std::numeric_limits<IT>::max()), c.draw(8) == 7 ? 1500 : 100, csr);
    std::string s = layout(m);
    size_t n = m.e.size();
    bool must = false;
    const char * how = "";
    if (csr && n == 0 && s.size() < 3 * sizeof(IT)) pbt::engine_error("size");
    unsigned kind = c.draw(n ? 7 : 4);
    if (csr && kind == 1) kind = 6;              // any rows in any order are not a CSR matrix
    switch (kind) {
        case 0: how = "cut"; s.resize(c.draw(4) ? c.draw(s.size()) : s.size() - 1 - c.draw(std::min<size_t>(s.size(), 20))); must = true; break;
        case 1:
            how = "any";
            {
                pbt::Rng g(c.seed());
                for (unsigned i = 0, k = 1 + c.draw(5); i < k && !s.empty(); i++) {
                    size_t at = g.chance(50) ? g.below(std::min<size_t>(s.size(), 3 * sizeof(IT))) : g.below(s.size());
                    switch (g.below(5)) {
                        case 0: s[at] = (char) g.next(); break;
                        case 1: s[at] ^= 1 << g.below(8); break;
                        case 2: s.insert(at, std::string(1 + g.below(20), (char) g.next())); break;
                        case 3: s.erase(at, 1 + g.below(20)); break;
                        default: put<IT>(s, at, g.chance(50) ? (IT) -1 : (IT) g.next()); break;
                    }
                }
            }
            break;
        case 2: how = "too short a header"; s = std::string(c.draw(3 * sizeof(IT)), (char) c.draw(256)); must = true; break;
        case 6:
            how = "impossible size";                 // negative, or more than there can be
            {
                bool neg = std::numeric_limits<IT>::is_signed;
                unsigned k = c.draw(3);
                if (!neg && sizeof(IT) == 8 && csr) k = c.draw(2) * 2;
                else if (!neg) k = 2;
                put<IT>(s, sizeof(IT) * k, neg ? (IT) (c.draw(2) ? std::numeric_limits<IT>::min() : -1 - (IT) c.draw(9))
                                               : (IT) (std::numeric_limits<IT>::max() - c.draw(2) * (std::numeric_limits<IT>::max() / 9)));
                must = neg || k != 2 || (uint64_t) get<IT>(s, 2 * sizeof(IT)) > n;
            }
            break;
        case 3: {                                    // more entries than there are
            how = "number of entries";
            IT v = (IT) (n + 1 + c.draw(5));
            switch (c.draw(5)) { case 0: v = (IT) -1; break; case 1: v = std::numeric_limits<IT>::max(); break; case 2: v = (IT) (std::numeric_limits<IT>::max() / (2 * sizeof(IT) + sizeof(VT)) + c.draw(3));
                                 if ((uint64_t) v <= n) v = (IT) (n + 1); break; }
            put<IT>(s, 2 * sizeof(IT), v);
            must = true;
            break;
        }
        case 4: how = "index out of range"; {
            unsigned k = c.draw(2);
            put<IT>(s, sizeof(IT) * (3 + k * n + c.draw(n)), beyond(c, k ? m.cols : m.rows));
            must = true;
            break;
        }
        default: how = "dimension too small"; {
            unsigned k = c.draw(2);
            uint64_t mx = 0;
            for (auto & e : m.e) mx = std::max(mx, k ? e.c : e.r);
            put<IT>(s, sizeof(IT) * k, (IT) c.draw(mx + 1));
            must = true;
            break;
        }
    }
    c.label(std::string(csr ? "CSR from .bin: " : ".bin: ") + how);
    c.desc("%s%s, %lu bytes; ", how, must ? " (must be refused)" : "", (unsigned long) s.size());
    c.nontrivial();
    io::write_file("d.bin", s);
    int fill = c.pick<int>({0xa5, 0, 0xff});
    bool gen = c.draw(2);
    int rc;
    auto coo = [&](auto & A) {
        rc = guarded(s.size(), [&] { return gen ? read_COO(A.get(), "d.bin") : read_bin_COO(A.get(), "d.bin"); });
        CHECK(rc <= 0, "returned %d", rc);
        CHECK(!(must && rc == 0), "accepted");
        if (rc < 0) return;
        inside(*A);
        uint64_t k = (uint64_t) A->nnz;
        CHECK(s.size() >= 3 * sizeof(IT) && get<IT>(s, 0) == A->rows && get<IT>(s, sizeof(IT)) == A->columns && get<IT>(s, 2 * sizeof(IT)) == A->nnz,
              "accepted with other sizes than the file's");
        size_t at = 3 * sizeof(IT);
        CHECK(s.size() >= at + k * (2 * sizeof(IT) + sizeof(VT)), "accepted with more entries than the file holds");
        for (IT i = 0; i < A->nnz; i++)
            CHECK(get<IT>(s, at + i * sizeof(IT)) == A->get_row_index(i) && get<IT>(s, at + (k + i) * sizeof(IT)) == A->get_column_index(i) &&
                  raw(get<VT>(s, at + 2 * k * sizeof(IT) + i * sizeof(VT))) == raw(A->get_value(i)), "entry %lu is not in the file", (unsigned long) i);
        c.label(".bin: accepted");
        release(*A);
    };
    if (target == 0) { Obj<Coo2<VT, IT>> A(fill); coo(A); }
    else if (target == 1) { Obj<Coo3<VT, IT>> A(fill); coo(A); }
    else {
        Obj<Csr<VT, IT>> A(fill);
        Obj<Csr2<VT, IT>> B(fill);
        rc = guarded(s.size() + 8 * m.rows, [&] { return target == 2 ? read_csr(A, "d.bin") : read_csr(B, "d.bin"); });
        CHECK(rc < 0, must ? "accepted" : "?");
    }
    unlink("d.bin");
}

// ---------------------------------------------------------------- three files

void three(pbt::Case & c)
{
    uint64_t lim = std::numeric_limits<IT>::max();
    bits::Mat<VT> m = bits::gen_mat<VT>(c, false, lim, c.draw(8) == 7 ? 1500 : 100);
    std::string s[3];
    for (auto & e : m.e) { io::append<IT>(s[0], (IT) e.r); io::append<IT>(s[1], (IT) e.c); io::append<VT>(s[2], e.v); }
    size_t n = m.e.size();
    static const char * names[] = {"d.rows", "d.cols", "d.vals"};
    unsigned k = c.draw(3);
    bool must = true, missing = false;
    const char * how = "";
    switch (c.draw(n ? 5 : 2)) {
        case 0: how = "missing file"; missing = true; break;
        case 1: how = "too long"; s[k] += std::string(1 + c.draw(c.draw(2) ? 3 * sizeof(IT) : 5000), (char) c.draw(2)); break;
        case 2: how = "cut"; s[k].resize(c.draw(s[k].size())); break;
        case 3: how = "index out of range"; if (k == 2) k = 0; put<IT>(s[k], sizeof(IT) * c.draw(n), c.draw(2) ? (IT) lim : (IT) -1); break;
        default: how = "any"; must = false; {
            pbt::Rng g(c.seed());
            for (unsigned i = 0, q = 1 + c.draw(5); i < q; i++) {
                std::string & t = s[g.below(3)];
                size_t at = g.below(t.size() + 1);
                switch (g.below(4)) {
                    case 0: if (at < t.size()) t[at] ^= 1 << g.below(8); break;
                    case 1: t.resize(at); break;
                    case 2: t.insert(at, std::string(1 + g.below(20), (char) g.next())); break;
                    default: put<IT>(t, at, g.chance(50) ? (IT) -1 : (IT) g.next()); break;
                }
            }
        }
    }
    c.label(std::string("three files: ") + how);
    c.desc("%s of file %u%s, %lu %lu %lu bytes; ", how, k, must ? " (must be refused)" : "", (unsigned long) s[0].size(), (unsigned long) s[1].size(), (unsigned long) s[2].size());
    c.nontrivial();
    for (int i = 0; i < 3; i++) io::write_file(names[i], s[i]);
    if (missing) unlink(names[k]);
    int fill = c.pick<int>({0xa5, 0, 0xff});
    auto coo = [&](auto & A) {
        int rc = guarded(s[0].size() + s[1].size() + s[2].size(), [&] { return read_bin_COO(A.get(), names[0], names[1], names[2]); });
        CHECK(rc <= 0, "returned %d", rc);
        CHECK(!(must && rc == 0), "accepted");
        if (rc < 0) return;
        inside(*A);
        uint64_t q = (uint64_t) A->nnz;
        CHECK(s[0].size() == q * sizeof(IT) && s[1].size() == q * sizeof(IT) && s[2].size() == q * sizeof(VT), "accepted with another number of entries than the files hold");
        for (IT i = 0; i < A->nnz; i++)
            CHECK(get<IT>(s[0], i * sizeof(IT)) == A->get_row_index(i) && get<IT>(s[1], i * sizeof(IT)) == A->get_column_index(i) &&
                  raw(get<VT>(s[2], i * sizeof(VT))) == raw(A->get_value(i)), "entry %lu is not in the files", (unsigned long) i);
        c.label("three files: accepted");
        release(*A);
    };
    switch (c.draw(3)) {
        case 0: { Obj<Coo2<VT, IT>> A(fill); coo(A); break; }
        case 1: { Obj<Coo3<VT, IT>> A(fill); coo(A); break; }
        default: { Obj<Coo<VT, IT, IT>> A(fill); coo(A); break; }
    }
    for (auto f : names) unlink(f);
}

// ---------------------------------------------------------------- no file

void absent(pbt::Case & c)
{
    static const char * bad[] = {"missing", "no/such/directory/m", ".", "unreadable"};
    const char * b = bad[c.draw(4)];
    std::string name = b, ext = c.pick<const char *>({".bin", ".mtx"});
    bool dir = !strcmp(b, ".");
    if (dir) { name = "dir" + ext; mkdir(name.c_str(), 0700); }
    else name += ext;
    c.label("no such file");
    c.desc("%s; ", name.c_str());
    c.nontrivial();
    int rc;
    unsigned target = c.draw(4);
    Obj<Coo2<VT, IT>> A(0xa5);
    Obj<Coo3<VT, IT>> B(0xa5);
    Obj<Csr<VT, IT>> C(0xa5);
    Obj<Csr2<VT, IT>> D(0xa5);
    rc = guarded(0, [&] {
        if (target == 0) return read_COO(A.get(), name.c_str());
        if (target == 1) return read_COO(B.get(), name.c_str());
        if (target == 2) return read_bin_CSR(C.get(), name.c_str());
        return read_bin_CSR(D.get(), name.c_str());
    });
    CHECK(rc < 0, "accepted");
    if (dir) rmdir(name.c_str());
}

void run(pbt::Case & c)
{
    if (sizeof(IT) == 2 && c.draw(40) == 39) {
        if (c.draw(2)) counts<Coo2<VT, IT>>(c); else counts<Coo3<VT, IT>>(c);
        return;
    }
    switch (c.draw(12)) {
        case 0: case 1: case 2: case 3: market<Coo2<VT, IT>>(c); break;
        case 4: case 5: case 6: market<Coo3<VT, IT>>(c); break;
        case 7: case 8: bin(c); break;
        case 9: case 10: three(c); break;
        default: absent(c); break;
    }
}

pbt::Reg reg(TAG, run);

} // namespace
