// C11: three binary files, and plain arrays.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"

#include "bits.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

void expect_bytes(const char * name, const std::string & want)
{
    std::string got = io::read_file(name);
    CHECK(got.size() == want.size(), "%s has %lu bytes, expected %lu", name, (unsigned long) got.size(), (unsigned long) want.size());
    size_t d = io::differs(got, want);
    CHECK(d == want.size(), "byte %lu of %s differs", (unsigned long) d, name);
}

template <class W> void write(const bits::Mat<VT> & m, const char * r, const char * cl, const char * v, int fill)
{
    Obj<W> A(fill);
    bits::fill(*A, m);
    int rc = write_bin_COO(A.get(), r, cl, v);
    CHECK(rc == 0, "write_bin_COO failed (%d)", rc);
    bits::expect(*A, m, "the matrix after writing it");
    release(*A);
}

template <class R> void readback(const bits::Mat<VT> & m, const char * r, const char * cl, const char * v, int fill)
{
    bits::Mat<VT> w = m;
    w.rows = w.cols = 1;
    for (auto & e : m.e) { w.rows = std::max(w.rows, e.r + 1); w.cols = std::max(w.cols, e.c + 1); }
    Obj<R> B(fill);
    int rc = read_bin_COO(B.get(), r, cl, v);
    CHECK(rc == 0, "refused (%d)", rc);
    bits::expect(*B, w, "matrix read");
    release(*B);
}

struct Odd { char c[3]; };
struct Pair { uint64_t a; unsigned char b[8]; };

template <class T> void array(pbt::Case & c)
{
    size_t n = 0;
    switch (c.draw(4)) {
        case 0: n = c.draw(4); break;
        case 1: n = c.draw(100); break;
        case 2: n = c.draw(c.draw(30) == 29 ? 300000 : 5000); break;
        default: n = (4096 << c.draw(5)) / sizeof(T) + c.draw(5) - 2; break;    // around buffer sizes
    }
    c.desc("array of %lu elements of %lu bytes; ", (unsigned long) n, (unsigned long) sizeof(T));
    c.label("array");
    if (n) c.nontrivial();
    pbt::Rng g(c.seed());
    unsigned mask = c.draw(2) ? 255 : 1;
    std::string b(n * sizeof(T), 0);
    for (auto & ch : b) ch = (char) (g.next() & mask);
    if (c.draw(2)) io::write_file("arr", std::string(300000, 'j'));
    if (c.draw(4)) {
        T * p = (T *) malloc(n * sizeof(T) + 1);
        memcpy((void *) p, b.data(), b.size());
        int rc = write_bin_array("arr", p, n);
        CHECK(rc == 0, "write_bin_array failed (%d)", rc);
        CHECK(memcmp(p, b.data(), b.size()) == 0, "the array changed while it was written");
        free(p);
        expect_bytes("arr", b);
    } else io::write_file("arr", b);
    T * q = (T *) 0x10;
    size_t num = c.pick<size_t>({77, 0, ~(size_t) 0});
    int rc = read_bin_array("arr", &q, &num);
    CHECK(rc == 0, "read_bin_array failed (%d)", rc);
    CHECK(num == n, "%lu elements read, expected %lu", (unsigned long) num, (unsigned long) n);
    CHECK(b.empty() || memcmp(q, b.data(), b.size()) == 0, "the array read differs");
    free(q);
    unlink("arr");
}

void run(pbt::Case & c)
{
    if (c.draw(4) == 3) {
        switch (c.draw(8)) {
            case 0: array<IT>(c); break;
            case 1: array<VT>(c); break;
            case 2: array<char>(c); break;
            case 3: array<uint16_t>(c); break;
            case 4: array<double>(c); break;
            case 5: array<Odd>(c); break;
            case 6: array<Pair>(c); break;
            default: array<uint64_t>(c); break;
        }
        return;
    }
    uint64_t lim = std::numeric_limits<IT>::max();
    bits::Mat<VT> m = bits::gen_mat<VT>(c, false, lim, c.draw(8) == 7 ? 5000 : 500, false, lim > 70000 ? 400 : 0);
    if (c.draw(4) == 3) for (auto & e : m.e) { if (e.r % 3 == 0) e.r = lim - 1 - e.r % 7; if (e.c % 3 == 0) e.c = lim - 1 - e.c % 5; }
    m.rows = m.cols = 1;        // what is written does not depend on the dimensions
    for (auto & e : m.e) { m.rows = std::max(m.rows, e.r + 1); m.cols = std::max(m.cols, e.c + 1); }
    if (c.draw(3) == 2) { m.rows = std::min(lim, m.rows + 5); m.cols = std::min(lim, m.cols + 100); }
    if (!m.e.empty()) c.nontrivial();
    static const char * rn[] = {"rows", "m.bin", "r"}, * cn[] = {"cols", "m.mtx", "c"}, * vn[] = {"vals", "m.vals", "v"};
    unsigned k = c.draw(3);
    const char * r = rn[k], * cl = cn[k], * v = vn[k];
    if (c.draw(2)) { io::write_file(r, std::string(50000, 'z')); io::write_file(cl, std::string(50001, 'z')); io::write_file(v, std::string(90000, 'z')); }
    int fill = c.pick<int>({0xa5, 0, 0xff});
    std::string sr, sc, sv;
    for (auto & e : m.e) { io::append<IT>(sr, (IT) e.r); io::append<IT>(sc, (IT) e.c); io::append<VT>(sv, e.v); }
    switch (c.draw(4)) {
        case 0: io::write_file(r, sr); io::write_file(cl, sc); io::write_file(v, sv); break;
        case 1: write<Coo2<VT, IT>>(m, r, cl, v, fill); break;
        default: write<Coo3<VT, IT>>(m, r, cl, v, fill); break;
    }
    expect_bytes(r, sr); expect_bytes(cl, sc); expect_bytes(v, sv);
    switch (c.draw(3)) {
        case 0: readback<Coo2<VT, IT>>(m, r, cl, v, fill); break;
        case 1: readback<Coo3<VT, IT>>(m, r, cl, v, fill); break;
        default: readback<Coo<VT, IT, IT>>(m, r, cl, v, fill); break;
    }
    unlink(r); unlink(cl); unlink(v);
}

pbt::Reg reg(TAG, run);

} // namespace
