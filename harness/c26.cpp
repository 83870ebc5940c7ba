// C26: damaged blocked files are refused.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include "common.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "generic/gsb.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

#include "blk.h"
#include "io.h"
#include "memuse.h"

#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#endif

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;

const int MEMORY_EXIT = 79;

struct Rec { IT b, r, c; VT v; };
const size_t HEAD = 6 * sizeof(IT), REC = 3 * sizeof(IT) + sizeof(VT);

template <class X> void put(std::string & s, size_t at, X v) { if (at + sizeof(X) <= s.size()) memcpy(&s[at], &v, sizeof(X)); }
template <class X> X get(const std::string & s, size_t at) { X v; memcpy(&v, &s[at], sizeof(X)); return v; }

Rec record(const std::string & s, size_t i)
{
    size_t at = HEAD + i * REC;
    return {get<IT>(s, at), get<IT>(s, at + sizeof(IT)), get<IT>(s, at + 2 * sizeof(IT)), get<VT>(s, at + 3 * sizeof(IT))};
}

// What the file says, read independently: false if it is no matrix cut like this
bool reference(const std::string & s, const Blocking & b, Mat & m, uint64_t & blocks)
{
    if (s.size() < HEAD) return false;
    uint64_t h[6];
    for (int i = 0; i < 6; i++) { IT v = get<IT>(s, i * sizeof(IT)); if (v < 0) return false; h[i] = (uint64_t) v; }
    if (h[0] != b.ro.back() || h[1] != b.co.back() || h[3] != b.rs.size() || h[4] != b.cs.size()) return false;
    if (h[2] > (s.size() - HEAD) / REC) return false;
    m = Mat();
    m.rows = h[0]; m.cols = h[1];
    std::map<uint64_t, int> seen;
    for (uint64_t i = 0; i < h[2]; i++) {
        Rec e = record(s, i);
        if (e.r < 0 || e.c < 0 || e.b < 0 || (uint64_t) e.r >= m.rows || (uint64_t) e.c >= m.cols) return false;
        if ((uint64_t) e.b != b.row_block(e.r) * b.cs.size() + b.col_block(e.c)) return false;
        seen[e.b] = 1;
        m.e.push_back({(uint64_t) e.r, (uint64_t) e.c, (double) e.v});
    }
    blocks = seen.size();
    return blocks == h[5];
}

bool plain(double v)     // sums stay exact
{
    if (std::is_integral<VT>::value) return std::fabs(v) <= 10000;
    if (sizeof(VT) == 4) return std::fabs(v) <= 16 && v * 4 == std::floor(v * 4);
    return std::fabs(v) <= 16384 && v * 1048576 == std::floor(v * 1048576);
}

// Reads the file; true if it was accepted
template <class M> bool reads(pbt::Case & c, const std::string & s, const Blocking & b, const char * file, int fill, const Mat * ref, uint64_t blocks, bool exact)
{
    std::vector<double> x, y0, want;
    if (exact) { x = gen_vec<VT>(c, ref->cols); y0 = gen_vec<VT>(c, ref->rows, true); want = product(*ref, x, y0); }
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) pbt::engine_error("fork");
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (int q : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) if (q == SIGABRT) signal(q, SIG_DFL);
#if __has_feature(address_sanitizer)
        __sanitizer_set_death_callback([] { _exit(MEMORY_EXIT); });
#endif
        FILE * n = fopen("/dev/null", "w");
        if (n) stderr = n;
        IT * ro = offsets_new<IT>(b.rs), * co = b.same ? ro : offsets_new<IT>(b.cs);
        Obj<M> A(fill);
        int fd = dup(0);
        close(fd);
        memuse::begin();
        int rc = read_bin_blocked(A.get(), file, ro, (IT) b.rs.size(), co, (IT) b.cs.size());
        uint64_t used = memuse::end(), tallest = 0, recs = s.size() / REC + 1;
        for (auto r : b.rs) tallest = std::max(tallest, r);
        int fd2 = dup(0);
        close(fd2);
        CHECK(rc <= 0, "returned %d", rc);
        CHECK(fd == fd2, "a file is still open");
        CHECK(used <= 64 * s.size() + (1 << 24) + 64 * (b.rs.size() + 1) + recs * (tallest + 1) * 32, "%lu bytes of memory were allocated for a file of %lu",
              (unsigned long) used, (unsigned long) s.size());
        if (rc < 0) _exit(3);
        CHECK(ref, "accepted, but the file does not hold a matrix with these blocks");
        CHECK((uint64_t) A->rows == ref->rows && (uint64_t) A->columns == ref->cols && (uint64_t) A->nonzeros() == ref->e.size() && (uint64_t) A->nnzblocks == blocks,
              "accepted as %lux%lu with %lu non-zeros in %lu blocks", (unsigned long) A->rows, (unsigned long) A->columns,
              (unsigned long) A->nonzeros(), (unsigned long) A->nnzblocks);
        omp_set_num_threads(2);
        if (exact) {
            Vec<VT> vx(x), vy(y0);
            A->spmv(vx.p, vy.p);
            vy.expect(want, "accepted, but it is not the matrix in the file");
        } else {
            std::vector<double> ones(ref->cols, 1.0), zeros(ref->rows, 0.0);
            Vec<VT> vx(ones), vy(zeros);
            A->spmv(vx.p, vy.p);
            vy.check_guards("spmv");
        }
        release(*A);
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0) ;
    if (WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if (e == 0) return true;
        if (e == pbt::FAIL_EXIT) _exit(pbt::FAIL_EXIT);       // reported by the child
        if (e == MEMORY_EXIT) pbt::fail("memory outside the arrays was touched, or far too much was asked for (%s)", "AddressSanitizer");
        return false;                                         // refused
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return false;
    pbt::fail("the program was killed by signal %d", WTERMSIG(st));
}

IT wild(pbt::Case & c, pbt::Rng & g, uint64_t dim)
{
    uint64_t lim = (uint64_t) std::numeric_limits<IT>::max();
    switch (c.draw(6)) {
        case 0: return (IT) dim;
        case 1: return (IT) std::min<uint64_t>(lim, dim + 1 + g.below(1000));
        case 2: return (IT) lim;
        case 3: return (IT) -1;                       // largest, or negative
        case 4: return (IT) (lim - g.below(100));
        default: return (IT) g.next();
    }
}

void run(pbt::Case & c)
{
    Opt o;
    o.max_nnz = 1200;
    o.big = 200;
    o.max_dim = 400;
    Mat m = gen_mat<VT>(c, o);
    BlkOpt bo;
    bo.max_size = std::min<uint64_t>(small_indices<SIT>(), 1u << 20);
    bo.max_blocks = 1u << 16;
    bo.max_row_elems = 1u << 16;
    bo.constant = false;
    Blocking b = gen_blocking(c, m, bo);
    if (c.draw(4) == 3) {                              // a dense block
        pbt::Rng g(c.seed());
        Opt vo;
        uint64_t br = g.below(b.rs.size()), bc = g.below(b.cs.size());
        if ((double) b.rs[br] * b.cs[bc] <= 2000)
            for (uint64_t i = 0; i < b.rs[br]; i++) for (uint64_t j = 0; j < b.cs[bc]; j++)
                if (g.chance(90)) m.e.push_back({b.ro[br] + i, b.co[bc] + j, gen_value<VT>(g.next(), vo)});
    }
    uint64_t nblocks = group(m, b).size();
    auto key = [&](const Ent & e) { return std::make_tuple(b.row_block(e.r), b.col_block(e.c), e.r, e.c); };
    std::stable_sort(m.e.begin(), m.e.end(), [&](const Ent & p, const Ent & q) { return key(p) < key(q); });
    size_t n = m.e.size();
    std::string s;
    for (uint64_t h : {m.rows, m.cols, (uint64_t) n, (uint64_t) b.rs.size(), (uint64_t) b.cs.size(), nblocks}) io::append<IT>(s, (IT) h);
    for (auto & e : m.e) {
        io::append<IT>(s, (IT) (b.row_block(e.r) * b.cs.size() + b.col_block(e.c)));
        io::append<IT>(s, (IT) e.r); io::append<IT>(s, (IT) e.c); io::append<VT>(s, (VT) e.v);
    }
    bool must = false, touched = false;
    const char * how = "";
    pbt::Rng g(c.seed());
    auto some = [&]() -> size_t {                      // a record: often at the border of a block
        switch (c.draw(4)) {
            case 0: return 0;
            case 1: return n - 1;
            case 2: {
                size_t i = g.below(n);
                while (i + 1 < n && record(s, i).b == record(s, i + 1).b) i++;
                return i + 1 < n && c.draw(2) ? i + 1 : i;
            }
            default: return g.below(n);
        }
    };
    switch (c.draw(n ? 10 : 4)) {
        case 0:
            how = "cut"; must = true;
            switch (n ? c.draw(5) : 0) {
                case 0: s.resize(c.draw(s.size())); break;
                case 1: s.resize(s.size() - 1 - c.draw(REC - 1)); break;       // inside the last entry
                case 2: s.resize(s.size() - REC); break;                       // the last entry
                case 3: s.resize(HEAD + g.below(n) * REC); break;              // whole entries
                default: {                                                     // whole blocks
                    size_t i = some();
                    while (i > 0 && record(s, i).b == record(s, i - 1).b) i--;
                    s.resize(HEAD + i * REC);
                }
            }
            break;
        case 1: {
            how = "header";
            unsigned k = c.draw(6);
            IT old = get<IT>(s, k * sizeof(IT)), v = c.draw(2) ? (IT) (old + 1 - 2 * (IT) c.draw(2)) : wild(c, g, (uint64_t) old + 1);
            put<IT>(s, k * sizeof(IT), v);
            must = v != old && !(k == 2 && v >= 0 && (uint64_t) v < n);
            break;
        }
        case 2: how = "too long"; s += std::string(1 + c.draw(3 * REC), (char) c.draw(256)); break;
        case 3: how = "no such file"; must = true; break;
        case 4: case 5: {
            how = "block number";
            size_t i = some();
            IT old = record(s, i).b, v;
            switch (c.draw(4)) {
                case 0: v = (IT) (old + 1); break;
                case 1: v = (IT) (old - 1); break;
                case 2: v = record(s, g.below(n)).b; break;
                default: v = wild(c, g, b.rs.size() * b.cs.size()); break;
            }
            put<IT>(s, HEAD + i * REC, v);
            must = v != old;
            break;
        }
        case 6: case 7: {
            how = "index";
            size_t i = some();
            unsigned k = c.draw(2);
            Rec e = record(s, i);
            uint64_t lo = k ? b.co[b.col_block(e.c)] : b.ro[b.row_block(e.r)], hi = k ? b.co[b.col_block(e.c) + 1] : b.ro[b.row_block(e.r) + 1];
            IT v;
            switch (c.draw(4)) {
                case 0: v = (IT) hi; break;
                case 1: v = (IT) (lo - 1); break;
                case 2: v = (IT) (lo + g.below(hi - lo)); break;              // another one inside
                default: v = wild(c, g, k ? m.cols : m.rows); break;
            }
            must = v < 0 || (uint64_t) v < lo || (uint64_t) v >= hi;
            put<IT>(s, HEAD + i * REC + (1 + k) * sizeof(IT), v);
            break;
        }
        case 8: {
            how = "order of the entries";
            size_t i = some(), j = c.draw(2) ? some() : std::min(n - 1, i + 1);
            std::string a = s.substr(HEAD + i * REC, REC), d = s.substr(HEAD + j * REC, REC);
            s.replace(HEAD + i * REC, REC, d);
            s.replace(HEAD + j * REC, REC, a);
            break;
        }
        default: {
            how = "any";
            touched = true;
            for (unsigned i = 0, k = 1 + c.draw(4); i < k && !s.empty(); i++) {
                size_t at = g.chance(30) ? g.below(std::min(s.size(), HEAD)) : g.below(s.size());
                switch (g.below(5)) {
                    case 0: s[at] ^= 1 << g.below(8); break;
                    case 1: s.insert(at, std::string(1 + g.below(20), (char) g.next())); break;
                    case 2: s.erase(at, 1 + g.below(20)); break;
                    case 3: { size_t i = g.below(n); if (HEAD + (i + 1) * REC <= s.size()) s.erase(HEAD + i * REC, REC); break; }
                    default: { size_t i = g.below(n); if (HEAD + (i + 1) * REC <= s.size()) s.insert(HEAD + i * REC, s.substr(HEAD + i * REC, REC)); break; }
                }
            }
            break;
        }
    }
    static const char * kinds[] = {"CSBR", "CSBR(2)", "CGBR"};
    unsigned kind = c.draw(3);
    c.label(std::string(kinds[kind]) + ": " + how);
    c.desc("%s, %s%s, %lu bytes; ", kinds[kind], how, must ? " (must be refused)" : "", (unsigned long) s.size());
    c.nontrivial();
    const char * file = "d.block";
    if (strcmp(how, "no such file")) io::write_file(file, s);
    Mat ref;
    uint64_t blocks = 0;
    bool valid = strcmp(how, "no such file") && reference(s, b, ref, blocks), exact = valid;
    if (valid && must) pbt::engine_error("must be refused, but valid");
    if (valid && touched) for (auto & e : ref.e) if (!plain(e.v)) exact = false;
    int fill = c.pick<int>({0xa5, 0x00, 0xff, 0x01});
    bool ok = kind == 0 ? reads<Csbr<VT, IT>>(c, s, b, file, fill, valid ? &ref : NULL, blocks, exact)
            : kind == 1 ? reads<Csbr2<VT, IT>>(c, s, b, file, fill, valid ? &ref : NULL, blocks, exact)
                        : reads<Cgbr<VT, IT, SIT>>(c, s, b, file, fill, valid ? &ref : NULL, blocks, exact);
    if (ok) c.label(std::string(kinds[kind]) + ": accepted");
    unlink(file);
}

pbt::Reg reg(TAG, run);

} // namespace
