// C14: failed writes are reported.
#include <cerrno>
#include <csignal>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>
#include <sys/resource.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"

#include "bits.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;

// Files cannot grow beyond `bytes` while this is alive
struct Limit {
    rlimit old;
    int what;
    Limit(int w, uint64_t v) : what(w)
    {
        getrlimit(what, &old);
        rlimit l = old;
        l.rlim_cur = std::min<rlim_t>(v, old.rlim_max);
        if (setrlimit(what, &l) != 0) pbt::engine_error("setrlimit");
    }
    ~Limit() { setrlimit(what, &old); }
};

int lowest_fd() { int fd = dup(0); close(fd); return fd; }

typedef std::function<int(const char * const *)> Writer;

// Calls f with every file name; the names decide what can go wrong
void examine(pbt::Case & c, unsigned nfiles, const Writer & f)
{
    static const char * names[] = {"w0", "w1", "w2"};
    // What a complete file holds
    const char * use[3] = {names[0], names[1], names[2]};
    for (auto n : names) unlink(n);
    int fd = lowest_fd();
    int rc = f(use);
    CHECK(rc == 0, "failed (%d) although nothing was in the way", rc);
    std::string full[3];
    size_t most = 0;
    for (unsigned i = 0; i < nfiles; i++) { full[i] = io::read_file(names[i]); most = std::max(most, full[i].size()); }
    if (c.draw(2)) for (auto n : names) unlink(n);

    unsigned how = c.draw(10);
    unsigned k = c.draw(nfiles);
    auto complete = [&] {
        for (unsigned i = 0; i < nfiles; i++) if (io::read_file(names[i]) != full[i]) return false;
        return true;
    };
    if (how < 6) {
        uint64_t at = 0;
        size_t sz = c.draw(2) ? most : full[k].size();
        switch (c.draw(6)) {
            case 0: at = c.draw(sz + 1); break;
            case 1: at = sz - std::min<uint64_t>(sz, 1 + c.draw(12)); break;
            case 2: at = sz + c.draw(3); break;
            case 3: at = std::min<uint64_t>(sz + 1, 4096 * c.draw(sz / 4096 + 1) + c.draw(3)); if (at) at--; break;
            case 4: at = sz / 4096 * 4096 + c.draw(sz % 4096 + 1); break;            // within the last buffer
            default: at = c.draw(64); break;
        }
        bool fits = true;
        for (unsigned i = 0; i < nfiles; i++) if (full[i].size() > at) fits = false;
        c.desc("full after %lu of %lu bytes; ", (unsigned long) at, (unsigned long) most);
        c.label(fits ? "everything fits" : at == 0 ? "full from the beginning" : "becomes full");
        if (!fits) c.nontrivial();
        { Limit l(RLIMIT_FSIZE, at); rc = f(use); }
        if (fits) CHECK(rc == 0, "reported failure (%d) although everything was written", rc);
        else CHECK(rc < 0, "returned %d although only %lu of %lu bytes fit", rc, (unsigned long) at, (unsigned long) most);
        if (rc == 0) CHECK(complete(), "returned 0, but the file is not complete");
    } else if (how == 6) {
        use[k] = "/dev/full";
        c.desc("device full; ");
        c.label("device full");
        rc = f(use);
        if (full[k].empty()) CHECK(rc == 0, "reported failure (%d) with nothing to write", rc);
        else { c.nontrivial(); CHECK(rc < 0, "returned %d on a full device", rc); }
    } else if (how == 7 || how == 8) {
        static const std::string lng(300, 'n');
        const char * bad[] = {"no/such/dir/w", "", "dir", "w0/w", lng.c_str()};
        unsigned b = c.draw(5);
        mkdir("dir", 0700);
        if (b == 3) io::write_file("w0", "x");
        use[k] = bad[b];
        if (b == 3 && k != 0) use[0] = "w9";
        c.desc("cannot create '%.20s' (file %u); ", bad[b], k);
        c.label("cannot be created");
        c.nontrivial();
        rc = f(use);
        CHECK(rc < 0, "returned %d although a file could not be created", rc);
        rmdir("dir");
        unlink("w9");
    } else {
        unsigned left = c.draw(nfiles);                 // file descriptors
        c.desc("only %u more files can be open; ", left);
        c.label("no more open files");
        c.nontrivial();
        { Limit l(RLIMIT_NOFILE, fd + left); rc = f(use); }
        CHECK(rc < 0, "returned %d although not all files could be opened", rc);
    }
    CHECK(lowest_fd() == fd, "a file is still open");
    for (auto n : names) unlink(n);
}

template <class COO> void matrices(pbt::Case & c, const bits::Mat<VT> & m, unsigned what)
{
    Obj<COO> A(0x5a);
    bits::fill(*A, m);
    switch (what) {
        case 0: c.desc("write_mm_COO; "); c.label("write_mm_COO"); examine(c, 1, [&](const char * const * n) { return write_mm_COO(A.get(), n[0]); }); break;
        case 1: c.desc("write_bin_COO; "); c.label("write_bin_COO"); examine(c, 1, [&](const char * const * n) { return write_bin_COO(*A, n[0]); }); break;
        default: c.desc("write_bin_COO, three files; "); c.label("write_bin_COO, three files"); examine(c, 3, [&](const char * const * n) { return write_bin_COO(A.get(), n[0], n[1], n[2]); }); break;
    }
    bits::expect(*A, m, "the matrix after writing it");
    release(*A);
}

template <class T> void array(pbt::Case & c)
{
    size_t n = c.draw(3) ? c.draw(200) : c.draw(20000);
    c.desc("write_bin_array, %lu elements of %lu bytes; ", (unsigned long) n, (unsigned long) sizeof(T));
    c.label("write_bin_array");
    pbt::Rng g(c.seed());
    T * p = (T *) malloc(n * sizeof(T) + 1);
    for (size_t i = 0; i < n * sizeof(T); i++) ((char *) p)[i] = (char) g.next();
    examine(c, 1, [&](const char * const * f) { return write_bin_array(f[0], p, n); });
    free(p);
}

void run(pbt::Case & c)
{
    static bool once = [] {
        signal(SIGXFSZ, SIG_IGN);
        FILE * n = fopen("/dev/null", "w");
        if (n) stderr = n;
        return true;
    }();
    (void) once;
    unsigned what = c.draw(5);
    if (what == 4) {
        switch (c.draw(4)) { case 0: array<char>(c); break; case 1: array<IT>(c); break; case 2: array<VT>(c); break; default: array<double>(c); break; }
        return;
    }
    bits::Mat<VT> m = bits::gen_mat<VT>(c, what == 0, std::min<uint64_t>(std::numeric_limits<IT>::max(), 2147483647), c.draw(4) == 3 ? 3000 : 200);
    if (what == 3) {
        c.desc("write_bin_blocked; ");
        c.label("write_bin_blocked");
        Obj<Coo3<VT, IT>> A(0x5a);
        bits::fill(*A, m);
        A->blockrows = A->blockcols = 1;
        A->nnzblocks = !m.e.empty();
        for (size_t i = 0; i < m.e.size(); i++) A->elements[i].block = 0;
        examine(c, 1, [&](const char * const * n) { return write_bin_blocked(*A, n[0]); });
        release(*A);
        return;
    }
    if (c.draw(2)) matrices<Coo2<VT, IT>>(c, m, what); else matrices<Coo3<VT, IT>>(c, m, what);
}

pbt::Reg reg(TAG, run);

} // namespace
