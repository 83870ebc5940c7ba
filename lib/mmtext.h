// Text of MatrixMarket files, with what they mean
#ifndef MMTEXT_H
#define MMTEXT_H

#include "gen.h"

#include <cfloat>
#include <functional>

namespace mmtext {

struct Entry { uint64_t r, c; double v; };          // zero-based

struct File {
    std::string text;
    std::string format = "coordinate", field = "real", sym = "general";
    uint64_t rows = 1, cols = 1;
    std::vector<Entry> lines;      // as in the file
    bool supported = true;
    std::vector<Entry> entries() const    // of the matrix
    {
        std::vector<Entry> e;
        for (auto & l : lines) {
            e.push_back(l);
            if (sym != "general" && l.r != l.c) e.push_back({l.c, l.r, sym == "skew-symmetric" ? -l.v : l.v});
        }
        return e;
    }
};

inline std::string recase(const std::string & s, unsigned how, pbt::Rng & g)
{
    std::string t = s;
    for (auto & ch : t)
        if (ch >= 'a' && ch <= 'z' && (how == 1 || (how == 2 && g.chance(50)))) ch -= 32;
    if (how == 3 && !t.empty() && t[0] >= 'a' && t[0] <= 'z') t[0] -= 32;
    return t;
}

// A number in one of the ways people write them; `v` becomes its value
inline std::string number(uint64_t k, bool integer, bool single, double & v)
{
    char b[400];
    pbt::Rng g(k);
    uint64_t w = g.below(integer ? 4 : 11);
    if (integer || w < 3) {
        long m = w == 0 ? g.range(-9, 9) : w == 1 ? g.range(-1000000, 1000000) : w == 2 ? g.range(0, 100) : g.range(-2000000000, 2000000000);
        snprintf(b, sizeof(b), "%ld", m);
    } else {
        double d = g.range(-1000000000, 1000000000) / 1048576.0;
        if (w == 3) snprintf(b, sizeof(b), "%.17g", d * 3.3e-9);
        if (w == 4) snprintf(b, sizeof(b), "%.6f", d);
        if (w == 5) snprintf(b, sizeof(b), "%.10e", d * (single ? 1e20 : 1e200));
        if (w == 6) snprintf(b, sizeof(b), "%.3E", d * (single ? 1e-30 : 1e-290));
        if (w == 7) snprintf(b, sizeof(b), "+%g", fabs(d));
        if (w == 8) snprintf(b, sizeof(b), "%ld.", (long) d);
        if (w == 9) snprintf(b, sizeof(b), "-.%lu", (unsigned long) g.below(10000));
        if (w == 10) snprintf(b, sizeof(b), "%ld.%040lu", (long) d, (unsigned long) g.below(1000000));
    }
    v = strtod(b, nullptr);
    return b;
}

// The largest dimension that can be read
template <class IT> uint64_t max_dim() { return std::min<uint64_t>(std::numeric_limits<IT>::max(), 9223372036854775806ull); }

// supported: 0 any kind, 1 only kinds the library reads
inline File gen_file(pbt::Case & c, bool only_supported, bool integers, bool single, uint64_t max_dim, uint64_t max_lines)
{
    File f;
    unsigned kind = c.draw(only_supported ? 8 : 11);
    static const char * fields[] = {"real", "integer", "pattern"};
    static const char * syms[] = {"general", "symmetric", "skew-symmetric"};
    f.field = integers ? fields[1 + c.draw(2)] : fields[c.draw(3)];
    f.sym = kind < 4 ? "general" : kind < 6 ? "symmetric" : kind < 8 ? "skew-symmetric" : syms[c.draw(3)];
    if (f.field == "pattern" && f.sym == "skew-symmetric") {
        if (only_supported || kind < 8) f.sym = "symmetric"; else f.supported = false;
    }
    if (kind == 8) {
        f.field = "complex"; f.supported = false;
        if (c.draw(3) == 0) f.sym = "hermitian";
    }
    if (kind == 9) { f.sym = "hermitian"; f.supported = false; }
    if (kind == 10) { f.format = "array"; f.supported = false; if (f.field == "pattern") f.field = "real"; }
    uint64_t n;
    switch (c.draw(6)) {
        case 0: n = c.draw(3); break;
        case 1: case 2: n = c.draw(12); break;
        case 3: n = c.draw(100); break;
        default: n = c.draw(max_lines + 1); break;
    }
    auto dim = [&]() -> uint64_t {
        switch (c.draw(6)) {
            case 0: return 1 + c.draw(4);
            case 1: case 2: return 1 + c.draw(std::min<uint64_t>(50, max_dim));
            case 3: return max_dim - c.draw(2);
            default: return 1 + c.draw(max_dim);
        }
    };
    f.rows = dim();
    f.cols = f.sym != "general" ? f.rows : c.draw(4) == 0 ? f.rows : dim();
    bool square_broken = false;
    if (!only_supported && f.supported && f.sym != "general" && c.draw(8) == 7) {
        f.cols = f.rows == max_dim ? f.rows - 1 : f.rows + 1 + c.draw(std::min<uint64_t>(3, max_dim - f.rows));
        f.supported = false; square_broken = true;
    }
    if (f.format == "array") { f.rows = 1 + f.rows % 8; f.cols = f.sym != "general" ? f.rows : 1 + f.cols % 8; n = f.rows * f.cols; }
    if (f.format != "array" && c.draw(60) == 59) {       // no rows, or no columns
        unsigned k = f.sym != "general" || square_broken ? 2 : c.draw(3);
        if (k != 1) f.rows = 0;
        if (k != 0) f.cols = 0;
        if (square_broken) f.rows = 1;
        n = 0;
    }
    if (f.sym == "skew-symmetric" && f.rows == 1) n = 0;
    pbt::Rng g(c.seed());
    bool small = n <= 12;
    auto rnd = [&](uint64_t m) { return small ? c.draw(m) : g.below(m); };
    // Style
    unsigned casing = c.draw(4), ncomments = c.draw(5), style = c.draw(6);
    const char * eol = style == 5 ? "\r\n" : "\n";
    auto gap = [&]() -> std::string {
        if (style == 1) return "\t";
        if (style == 2) return std::string(1 + g.below(6), ' ');
        if (style == 3) return g.chance(50) ? " \t " : "  ";
        return " ";
    };
    auto lead = [&]() -> std::string { return style == 2 || style == 3 ? std::string(g.below(4), ' ') : ""; };
    auto blank = [&] { if (style == 3 || style == 4) for (uint64_t i = g.below(3); i > 0; i--) f.text += eol; };
    f.text = "%%MatrixMarket" + gap() + recase("matrix", casing, g) + gap() + recase(f.format, casing, g) + gap() +
             recase(f.field, casing, g) + gap() + recase(f.sym, casing, g) + (style == 2 ? "  " : "") + eol;
    for (unsigned i = 0; i < ncomments; i++) {
        unsigned len = g.below(5) == 0 ? 900 + g.below(120) : g.below(60);
        f.text += "%";
        static const char pool[] = " abc123%-.,4 5 6\t";
        for (unsigned j = 0; j < len; j++) f.text += pool[g.below(sizeof(pool) - 1)];
        f.text += eol;
    }
    blank();
    char b[100];
    if (f.format == "array") snprintf(b, sizeof(b), "%lu %lu", (unsigned long) f.rows, (unsigned long) f.cols);
    else snprintf(b, sizeof(b), "%lu%s%lu%s%lu", (unsigned long) f.rows, gap().c_str(), (unsigned long) f.cols, gap().c_str(), (unsigned long) n);
    f.text += lead() + b + eol;
    bool dup = c.draw(4) == 0;
    for (uint64_t i = 0; i < n; i++) {
        Entry e{rnd(f.rows), rnd(f.cols), 1.0};
        if (dup && i > 0 && g.chance(30)) { e.r = f.lines[0].r; e.c = f.lines[0].c; }
        if (!square_broken && f.sym != "general") {
            if (g.chance(20) && f.sym == "symmetric") e.c = e.r;
            if (e.r < e.c) std::swap(e.r, e.c);                       // lower triangle
            if (f.sym == "skew-symmetric" && e.r == e.c) { if (e.r) e.c = e.r - 1; else e.r = 1; }
        }
        std::string num;
        if (f.field == "real" || f.field == "complex") num = number(rnd(1u << 30), false, single, e.v);
        else if (f.field == "integer") num = number(rnd(1u << 30), true, single, e.v);
        snprintf(b, sizeof(b), "%lu%s%lu", (unsigned long) e.r + 1, gap().c_str(), (unsigned long) e.c + 1);
        std::string line = f.format == "array" ? num : b + (num.empty() ? "" : gap() + num);
        if (f.field == "complex") line += gap() + "0.5";
        f.text += lead() + line + (style == 2 ? " " : "") + eol;
        blank();
        f.lines.push_back(e);
    }
    if (style == 4 && c.draw(2)) while (!f.text.empty() && f.text.back() == '\n') f.text.pop_back();
    c.desc("%s %s %s %lux%lu, %lu lines, style %u; ", f.format.c_str(), f.field.c_str(), f.sym.c_str(), (unsigned long) f.rows,
           (unsigned long) f.cols, (unsigned long) n, style);
    if (f.text.size() < 400) {
        std::string t = f.text;
        for (auto & ch : t) if (ch == '\n') ch = '|';
        c.desc("%s ", t.c_str());
    }
    c.label(f.format + " " + f.field + " " + f.sym + (square_broken ? " not square" : ""));
    return f;
}

} // namespace mmtext

#endif
