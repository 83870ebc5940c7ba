// C08: a MatrixMarket file is read as its header says.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"

#include "mmtext.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

template <class COO> void compare(COO & A, const mmtext::File & f)
{
    auto want = f.entries();
    CHECK((uint64_t) A.rows == f.rows && (uint64_t) A.columns == f.cols, "read as %lux%lu, the file says %lux%lu",
          (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) f.rows, (unsigned long) f.cols);
    CHECK((uint64_t) A.nonzeros() == want.size(), "read %lu entries, expected %lu", (unsigned long) A.nonzeros(), (unsigned long) want.size());
    typedef std::vector<std::pair<std::pair<uint64_t, uint64_t>, double>> V;
    V a, b;
    for (size_t i = 0; i < want.size(); i++) {
        a.push_back({{(uint64_t) A.get_row_index((IT) i), (uint64_t) A.get_column_index((IT) i)}, (double) A.get_value((IT) i)});
        b.push_back({{want[i].r, want[i].c}, (double) (VT) want[i].v});
    }
    // Where mirrored entries go is not specified
    if (f.sym != "general") { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
    for (size_t i = 0; i < want.size(); i++)
        CHECK(a[i] == b[i], "entry %lu is (%lu,%lu,%.17g), expected (%lu,%lu,%.17g)", (unsigned long) i, (unsigned long) a[i].first.first,
              (unsigned long) a[i].first.second, a[i].second, (unsigned long) b[i].first.first, (unsigned long) b[i].first.second, b[i].second);
}

template <template <typename, typename> class COO> void names(pbt::Case & c, const mmtext::File & f)
{
    // The ending alone decides
    Obj<COO<VT, IT>> A(0xa5);
    static const char * good[] = {"m.mtx", "m.bin.mtx", ".mtx", "mtx.mtx", "a.bin/m.mtx", "m.mtx.mtx", "m bin.mtx"};
    static const char * bad[] = {"m.mtx2", "m.MTX", "mtx", "m.mtx.", "m", "bin", "m.mt", "m.mtx.txt", "m.Bin", ".mtx/m"};
    static const char * bins[] = {"m.bin", "m.mtx.bin", ".bin", "a.mtx/m.bin"};
    mkdir("a.bin", 0700); mkdir("a.mtx", 0700);
    unsigned k = c.draw(3);
    if (k == 0) {
        const char * n = good[c.draw(7)];
        io::write_file(n, f.text);
        int rc = read_COO(A.get(), n);
        CHECK(rc == 0, "%s: refused (%d)", n, rc);
        compare(*A, f);
        unlink(n);
    } else if (k == 1) {
        const char * n = bad[c.draw(10)];
        if (strchr(n, '/')) mkdir(".mtx", 0700);
        io::write_file(n, f.text);
        int rc = read_COO(A.get(), n);
        CHECK(rc < 0, "%s: read although the ending is unknown", n);
        unlink(n);
        rmdir(".mtx");
        return;
    } else {
        const char * n = bins[c.draw(4)];
        // the same matrix as .bin
        std::string s;
        mmtext::File g = f;
        g.sym = "general";
        io::append<IT>(s, (IT) f.rows); io::append<IT>(s, (IT) f.cols); io::append<IT>(s, (IT) f.lines.size());
        for (auto & e : f.lines) io::append<IT>(s, (IT) e.r);
        for (auto & e : f.lines) io::append<IT>(s, (IT) e.c);
        for (auto & e : f.lines) io::append<VT>(s, (VT) e.v);
        io::write_file(n, s);
        int rc = read_COO(A.get(), n);
        CHECK(rc == 0, "%s: refused (%d)", n, rc);
        compare(*A, g);
        unlink(n);
    }
    release(*A);
}

// The index type can count rows, columns and entries (an entry off the diagonal is two when one triangle is stored)
bool fits(const mmtext::File & f)
{
    uint64_t n = f.lines.size(), lim = std::numeric_limits<IT>::max();
    if (f.sym != "general") for (auto & e : f.lines) n += e.r != e.c;
    return f.rows <= lim && f.cols <= lim && n <= lim;
}

template <template <typename, typename> class COO> void layout(pbt::Case & c, const mmtext::File & f, bool generic)
{
    Obj<COO<VT, IT>> A(c.pick<int>({0xa5, 0, 0xff}));
    io::write_file("f.mtx", f.text);
    int rc = generic ? read_COO(A.get(), "f.mtx") : read_mm_COO(A.get(), "f.mtx");
    unlink("f.mtx");
    if (!fits(f)) {
        c.label("too large for the index type");
        CHECK(rc < 0, "read although the index type cannot count rows, columns or entries");
    } else if (f.supported) {
        CHECK(rc == 0, "a well-formed file was refused (%d)", rc);
        compare(*A, f);
        release(*A);
    } else CHECK(rc < 0, "%s %s %s%s: not supported, but read (%d)", f.format.c_str(), f.field.c_str(), f.sym.c_str(),
                 f.rows != f.cols ? " not square" : "", rc);
}

void run(pbt::Case & c)
{
    const bool integers = std::is_integral<VT>::value;
    unsigned what = c.draw(8);
    uint64_t md = mmtext::max_dim<IT>();
    if (md >= 2147483647) { if (c.draw(4)) md = 2147483647; }
    else if (what != 7 && c.draw(4) == 3) md = c.draw(2) ? md + 3 : 2147483647;
    uint64_t ml = c.draw(10) == 9 ? 5000 : 400;
    if (what == 7) ml = std::min(ml, mmtext::max_dim<IT>() / 2);
    mmtext::File f = mmtext::gen_file(c, what == 7, integers, sizeof(VT) == 4, md, ml);
    bool triplets = c.draw(2);
    if (!f.supported || !f.lines.empty()) c.nontrivial();
    if (what == 7) { c.label("names"); if (triplets) names<Coo2>(c, f); else names<Coo3>(c, f); return; }
    if (triplets) layout<Coo2>(c, f, what & 1); else layout<Coo3>(c, f, what & 1);
}

pbt::Reg reg(TAG, run);

} // namespace
