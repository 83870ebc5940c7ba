// C09: MatrixMarket round trip.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"

#include "bits.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef typename std::conditional<sizeof(IT) == 8, uint32_t, uint64_t>::type IT2;   // another width

// Reads the file like any other program would
void independent(const std::string & s, const bits::Mat<VT> & m)
{
    std::vector<std::string> lines;
    size_t p = 0;
    CHECK(!s.empty() && s.back() == '\n', "the file does not end with a line end");
    while (p < s.size()) {
        size_t q = s.find('\n', p);
        lines.push_back(s.substr(p, q - p));
        p = q + 1;
    }
    auto tokens = [](const std::string & l) {
        std::vector<std::string> t;
        size_t i = 0;
        while (i < l.size()) {
            size_t j = l.find_first_of(" \t\r", i);
            if (j == std::string::npos) j = l.size();
            if (j > i) t.push_back(l.substr(i, j - i));
            i = j + 1;
        }
        return t;
    };
    auto lower = [](std::string t) { for (auto & ch : t) if (ch >= 'A' && ch <= 'Z') ch += 32; return t; };
    auto num = [](const std::string & t) -> uint64_t {
        CHECK(!t.empty() && t.find_first_not_of("0123456789") == std::string::npos, "'%s' is not a number", t.c_str());
        return strtoull(t.c_str(), nullptr, 10);
    };
    auto h = tokens(lines[0]);
    CHECK(h.size() == 5 && h[0] == "%%MatrixMarket" && lower(h[1]) == "matrix" && lower(h[2]) == "coordinate" && lower(h[3]) == "real" &&
          lower(h[4]) == "general", "first line '%s'", lines[0].c_str());
    size_t k = 1;
    while (k < lines.size() && (lines[k].empty() || lines[k][0] == '%')) k++;
    CHECK(k < lines.size(), "no line with the size");
    auto d = tokens(lines[k]);
    CHECK(d.size() == 3 && num(d[0]) == m.rows && num(d[1]) == m.cols && num(d[2]) == m.e.size(), "size line '%s'", lines[k].c_str());
    k++;
    for (size_t i = 0; i < m.e.size(); i++, k++) {
        CHECK(k < lines.size(), "lines are missing");
        auto t = tokens(lines[k]);
        CHECK(t.size() == 3, "line '%s'", lines[k].c_str());
        CHECK(num(t[0]) == m.e[i].r + 1 && num(t[1]) == m.e[i].c + 1, "line '%s', expected entry (%lu,%lu)", lines[k].c_str(),
              (unsigned long) m.e[i].r, (unsigned long) m.e[i].c);
        char * end;
        double v = strtod(t[2].c_str(), &end);
        CHECK(*end == 0, "'%s' is not a number", t[2].c_str());
        CHECK(bits::same<VT>((VT) v, m.e[i].v), "'%s' stands for %.17g", t[2].c_str(), (double) m.e[i].v);
    }
    for (; k < lines.size(); k++) CHECK(tokens(lines[k]).empty(), "more lines than entries");
}

template <class W, class R, class R2> void trip(pbt::Case & c, const bits::Mat<VT> & m)
{
    Obj<W> A(0x5a);
    bits::fill(*A, m);
    static const char * names[] = {"r.mtx", "r", "a file.mtx", "r.bin.mtx"};
    const char * name = names[c.draw(4)];
    bool junk = c.draw(2);                      // a file by that name exists and is longer
    if (junk) io::write_file(name, std::string(200000, '7'));
    int rc = write_mm_COO(A.get(), name);
    CHECK(rc == 0, "write_mm_COO failed (%d)", rc);
    bits::expect(*A, m, "the matrix after writing it");
    release(*A);
    std::string s = io::read_file(name);
    independent(s, m);
    auto rd = [&](auto & B, const char * what) {
        int rc = strlen(name) > 4 && c.draw(2) ? read_COO(B.get(), name) : read_mm_COO(B.get(), name);
        const uint64_t lim = std::numeric_limits<decltype(B->rows)>::max();
        if (m.rows > lim || m.cols > lim) { CHECK(rc < 0, "%s: read, although the index type cannot count rows and columns", what); return; }
        CHECK(rc == 0, "%s: refused what was written (%d)", what, rc);
        bits::expect(*B, m, what);
        release(*B);
    };
    Obj<R> B(c.pick<int>({0xa5, 0, 0xff}));
    rd(B, "read back");
    if (c.draw(2)) { Obj<R2> C(0xa5); rd(C, "read back with another index width"); }
    unlink(name);
}

void run(pbt::Case & c)
{
    uint64_t max_dim = std::min<uint64_t>(std::numeric_limits<IT>::max(), 9223372036854775806ull);
    if (max_dim > 2147483647 && c.draw(2)) max_dim = 2147483647;
    bits::Mat<VT> m = bits::gen_mat<VT>(c, true, max_dim, c.draw(8) == 7 ? 4000 : 600, false, max_dim > 70000 ? 400 : 0);
    if (!m.e.empty()) c.nontrivial();
    switch (c.draw(4)) {
        case 0: trip<Coo2<VT, IT>, Coo2<VT, IT>, Coo2<VT, IT2>>(c, m); break;
        case 1: trip<Coo2<VT, IT>, Coo3<VT, IT>, Coo3<VT, IT2>>(c, m); break;
        case 2: trip<Coo3<VT, IT>, Coo2<VT, IT>, Coo3<VT, IT2>>(c, m); break;
        default: trip<Coo3<VT, IT>, Coo3<VT, IT>, Coo2<VT, IT2>>(c, m); break;
    }
}

pbt::Reg reg(TAG, run);

} // namespace
