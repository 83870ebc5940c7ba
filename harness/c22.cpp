// C22: what matrices print about themselves.
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"

#include "blk.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;
typedef unsigned long UL;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

// Lines without white space at their ends
std::vector<std::string> lines(const std::string & s)
{
    std::vector<std::string> v;
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) {
        size_t a = l.find_first_not_of(" \t"), b = l.find_last_not_of(" \t\r");
        if (a != std::string::npos) v.push_back(l.substr(a, b - a + 1));
    }
    return v;
}

std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char * f, ...)
{
    char b[500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

void has(const std::vector<std::string> & l, const std::string & want, const std::string & all)
{
    CHECK(std::find(l.begin(), l.end(), want) != l.end(), "\"%s\" not among: %s", want.c_str(), all.c_str());
}

void percent(const std::vector<std::string> & l, const char * what, double a, double b, const std::string & all)
{
    std::string suffix = std::string("% ") + what;
    for (auto & s : l) {
        if (s.size() <= suffix.size() || s.substr(s.size() - suffix.size()) != suffix) continue;
        double got = strtod(s.c_str(), 0), want = 100.0 * a / b;
        CHECK(std::fabs(got - want) <= 0.00006 + 2e-6 * want, "%s: printed %s, expected %.5f", what, s.c_str(), want);
        return;
    }
    CHECK(false, "no percentage of %s in: %s", what, all.c_str());
}

void check_common(const std::string & s, const Mat & m, const Blocking & b, const Blocks & g)
{
    auto l = lines(s);
    has(l, fmt("%lu rows x %lu columns", (UL) m.rows, (UL) m.cols), s);
    has(l, fmt("%lu block-rows x %lu block-columns", (UL) b.rs.size(), (UL) b.cs.size()), s);
    has(l, fmt("%lu non-zeros in %lu blocks", (UL) m.e.size(), (UL) g.size()), s);
    percent(l, "non-zeros", (double) m.e.size(), (double) m.rows * (double) m.cols, s);
    percent(l, "non-zero blocks", (double) g.size(), (double) b.rs.size() * (double) b.cs.size(), s);
}

struct Kinds {
    uint64_t blocks[MATRIX_TYPE_NUM] = {}, nnz[MATRIX_TYPE_NUM] = {};
};

template <class M> void check_kinds(pbt::Case & c, M & A, const Kinds & k, const Mat & m, const Blocking & b, const Blocks & g, int balanced)
{
    for (int rep = 0; rep < 2; rep++) {
        std::string s = io::capture([&] { print_info(*A); });
        check_common(s, m, b, g);
        auto l = lines(s);
        has(l, fmt("Blocks : %lu COO, %lu CSR, %lu CSR (parallel), %lu dense", (UL) k.blocks[BLOCK_COO], (UL) k.blocks[BLOCK_CSR], (UL) k.blocks[BLOCK_CSR_PAR],
                   (UL) k.blocks[BLOCK_DENSE]), s);
        has(l, fmt("Non-Zeros : %lu COO, %lu CSR, %lu CSR (parallel), %lu dense", (UL) k.nnz[BLOCK_COO], (UL) k.nnz[BLOCK_CSR], (UL) k.nnz[BLOCK_CSR_PAR],
                   (UL) k.nnz[BLOCK_DENSE]), s);
        bool bal = std::find(l.begin(), l.end(), "Balanced block-rows") != l.end(), unb = std::find(l.begin(), l.end(), "Unbalanced block-rows") != l.end();
        CHECK(bal != unb && bal == A->balanced, "marked as %sbalanced, prints: %s", A->balanced ? "" : "un", s.c_str());
        if (rep == 0 && balanced >= 0) CHECK(bal == (bool) balanced, "%sbalanced, prints: %s", balanced ? "" : "un", s.c_str());
        if (c.draw(2)) break;
        A->balanced = !A->balanced;
    }
    static const char * names[] = {"blocks: coo", "blocks: csr", "blocks: dense", "", "blocks: csr (parallel)", ""};
    for (int i = 0; i < MATRIX_TYPE_NUM; i++) if (k.blocks[i]) c.label(names[i]);
}

// Chooses kinds at random and remembers
struct AnyFactory : public BlockFactory<VT, IT> {
    pbt::Rng g;
    unsigned kinds;
    Kinds k;
    double spent = 0;
    AnyFactory(uint64_t seed, unsigned n) : g(seed), kinds(n) {}
    MatrixType create(BlockBase<VT, IT> ** target, Element<VT, IT> * array, IT rows, IT columns, IT nnz)
    {
        unsigned w = kinds < 5 ? kinds : g.below(5);
        double cost = w == 2 || w == 3 ? (double) rows * columns : w == 1 || w == 4 ? (double) rows : 0;
        if (cost > 300000 || (spent += cost) > 2e7) w = 0;       // all blocks together must fit into memory
        MatrixType t;
        switch (w) {
            case 1: *target = new BlockCsrSerial<VT, IT, SIT>(array, rows, columns, nnz); t = BLOCK_CSR; break;
            case 4: *target = new BlockCsrParallel<VT, IT, SIT>(array, rows, columns, nnz); t = BLOCK_CSR_PAR; break;
            case 2: *target = new DenseSerial<VT, IT>(array, rows, columns, nnz); t = BLOCK_DENSE; break;
            case 3: *target = new DenseParallel<VT, IT>(array, rows, columns, nnz); t = BLOCK_DENSE; break;
            default: *target = new Coo<VT, IT, SIT>(array, nnz); t = BLOCK_COO; break;
        }
        k.blocks[t]++;
        k.nnz[t] += (uint64_t) nnz;
        return t;
    }
};

// The kind of a block made by the library (there is no run-time type information: compare virtual tables)
int kind_of(BlockBase<VT, IT> * b)
{
    static std::vector<std::pair<void *, int>> known;
    if (known.empty()) {
        Element<VT, IT> e;
        e.row = e.col = e.block = 0; e.val = 1;
        auto note = [&](BlockBase<VT, IT> * p, int k) { known.push_back({*(void **) p, k}); };
        note(new Coo<VT, IT, SIT>(&e, 1), BLOCK_COO);
        note(new BlockCsrSerial<VT, IT, SIT>(&e, 1, 1, 1), BLOCK_CSR);
        note(new BlockCsrParallel<VT, IT, SIT>(&e, 1, 1, 1), BLOCK_CSR_PAR);
        note(new DenseSerial<VT, IT>(&e, 1, 1, 1), BLOCK_DENSE);
        note(new DenseParallel<VT, IT>(&e, 1, 1, 1), BLOCK_DENSE);
    }
    for (auto & k : known) if (k.first == *(void **) b) return k.second;
    return -1;
}

void densify(pbt::Case & c, Mat & m, const Blocking & b, uint64_t max_extra)
{
    unsigned k = c.draw(4);
    if (k == 0) return;
    pbt::Rng g(c.seed());
    Opt o;
    uint64_t extra = 0;
    for (unsigned n = 0; n < k * 3; n++) {
        uint64_t br = g.below(b.rs.size()), bc = g.below(b.cs.size());
        unsigned pct = g.below(4) == 0 ? 100 : 3 + g.below(97);
        double area = (double) b.rs[br] * b.cs[bc];
        if (area * pct / 100 > 8000 || extra > max_extra) continue;
        for (uint64_t i = 0; i < b.rs[br]; i++)
            for (uint64_t j = 0; j < b.cs[bc]; j++)
                if (g.chance(pct)) { m.e.push_back({b.ro[br] + i, b.co[bc] + j, gen_value<VT>(g.next(), o)}); extra++; }
    }
    if (extra) c.desc("+%lu entries in dense blocks; ", (UL) extra);
}

void blocked(pbt::Case & c)
{
    Opt o;
    o.max_nnz = 4000;
    const bool tiny = sizeof(SIT) == 1;
    o.max_dim = tiny ? 1500 : 3000;
    if (!tiny) o.huge_dim = 70000;
    o.big = 150;
    Mat m = gen_mat<VT>(c, o);
    unsigned f = c.draw(6);
    BlkOpt bo;
    bo.max_row_elems = 1u << 18;
    if (f >= 2) bo.max_size = small_indices<SIT>();
    Blocking b = gen_blocking(c, m, bo);
    densify(c, m, b, 5000);
    if (c.draw(3) == 2 && b.rs.size() > 1) {              // near the limit of a balanced matrix
        m.e.clear();
        uint64_t n = b.rs.size(), per = 1 + c.draw(4), big = 2 * per + c.draw(3) - 1;
        if (n * per < 3000) {
            pbt::Rng g(c.seed());
            auto some = [&]() { uint64_t r = g.below(n); while (b.rs[r] == 0) r = (r + 1) % n; return r; };
            uint64_t hot = some();
            uint64_t total = n * per;
            for (uint64_t i = 0; i < total; i++) {
                uint64_t r = i < big ? hot : some();
                m.e.push_back({b.ro[r] + g.below(b.rs[r]), g.below(m.cols), 1});
            }
            c.desc("%lu of %lu entries in block-row %lu; ", (UL) big, (UL) total, (UL) hot);
        }
    }
    Blocks g = group(m, b);
    if (g.size() > 1) c.nontrivial();
    Obj<Coo3<VT, IT>> S(0x5a);
    fill(S.get(), m);
    static const char * names[] = {"CSBR", "CSBR(2)", "CGBR", "CGBR", "CGBR(2)", "CGBR(2) with other block kinds"};
    c.label(names[f]);
    c.desc("%s; ", names[f]);
    auto build = [&](auto * A) {
        if (b.constant) { Coo_to_Blocked(A, S.get(), (IT) b.brs, (IT) b.bcs); return; }
        IT * ro = offsets_new<IT>(b.rs), * co = b.same ? ro : offsets_new<IT>(b.cs);
        Coo_to_Blocked(A, S.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size());
    };
    int fb = c.pick<int>({0xa5, 0xff, 0x00, 0x01});
    if (f == 0) {
        Obj<Csbr<VT, IT>> A(fb);
        build(A.get());
        check_common(io::capture([&] { print_info(*A); }), m, b, g);
        release(*A);
    } else if (f == 1) {
        Obj<Csbr2<VT, IT>> A(fb);
        build(A.get());
        check_common(io::capture([&] { print_info(*A); }), m, b, g);
        release(*A);
    } else if (f <= 3) {
        Obj<Cgbr<VT, IT, SIT>> A(fb);
        build(A.get());
        Kinds k;
        CHECK((uint64_t) A->nnzblocks == g.size(), "%lu blocks, expected %lu", (UL) A->nnzblocks, (UL) g.size());
        uint64_t i = 0;
        std::vector<uint64_t> stored(b.rs.size(), 0), entries(b.rs.size(), 0);
        uint64_t all_stored = 0;
        for (auto & q : g) {
            MatrixType t = A->blocks[i++].type;
            k.blocks[t]++;
            k.nnz[t] += q.second.size();
            uint64_t st = t == BLOCK_DENSE ? b.rs[q.first.first] * b.cs[q.first.second] : q.second.size();
            stored[q.first.first] += st;
            entries[q.first.first] += q.second.size();
            all_stored += st;
        }
        uint64_t ms = *std::max_element(stored.begin(), stored.end()), me = *std::max_element(entries.begin(), entries.end()), n = b.rs.size();
        // Dense blocks also store zeros; say nothing where it depends on whether those count
        bool v1 = ms * n <= 2 * m.e.size(), v2 = ms * n <= 2 * all_stored, v3 = me * n <= 2 * m.e.size();
        int bal = v1 == v2 && v2 == v3 ? v1 : -1;
        if (bal >= 0) c.label(bal ? "balanced" : "unbalanced");
        check_kinds(c, A, k, m, b, g, bal);
        release(*A);
    } else if (f == 4) {
        Obj<Cgbr2<VT, IT, SIT>> A(fb);
        build(A.get());
        Kinds k;
        CHECK((uint64_t) A->nnzblocks == g.size(), "%lu blocks, expected %lu", (UL) A->nnzblocks, (UL) g.size());
        uint64_t i = 0;
        bool all_known = true;
        for (auto & q : g) {
            int t = kind_of(A->blocks[i++]);
            if (t < 0) { all_known = false; break; }
            k.blocks[t]++;
            k.nnz[t] += q.second.size();
        }
        if (!all_known) {
            uint64_t nb = 0, nn = 0;
            for (int t = 0; t < MATRIX_TYPE_NUM; t++) { k.blocks[t] = A->type_block_count[t]; k.nnz[t] = A->type_nnz_count[t]; nb += k.blocks[t]; nn += k.nnz[t]; }
            CHECK(nb == g.size() && nn == m.e.size(), "kinds of blocks do not add up");
            c.label("unknown kinds of blocks");
        }
        check_kinds(c, A, k, m, b, g, -1);
        release(*A);
    } else {
        AnyFactory fac(c.seed(), c.draw(7));
        b.constant = false;
        IT * ro = offsets_new<IT>(b.rs), * co = b.same ? ro : offsets_new<IT>(b.cs);
        Obj<Cgbr2<VT, IT, SIT>> A(fb);
        Coo_to_Cgbr(A.get(), S.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size(), fac);
        check_kinds(c, A, fac.k, m, b, g, -1);
        release(*A);
    }
    release(*S);
}

std::string num(VT v) { std::ostringstream o; o << v; return o.str(); }

template <class COO> void show_coo(const Mat & m)
{
    Obj<COO> A(0x5a);
    fill(A.get(), m);
    std::string s = io::capture([&] { show(*A); });
    auto l = lines(s);
    if (m.e.size() > 20) {
        CHECK(l.size() == 1 && l[0].find("(") == std::string::npos, "%lu entries, listing: %s", (UL) m.e.size(), s.c_str());
    } else {
        CHECK(l.size() == m.e.size(), "%lu entries, listing: %s", (UL) m.e.size(), s.c_str());
        for (size_t i = 0; i < l.size(); i++) {
            std::string want = fmt("(%lu, %lu, ", (UL) m.e[i].r, (UL) m.e[i].c) + num((VT) m.e[i].v) + ")";
            CHECK(l[i] == want, "entry %lu is %s, listed as %s", (UL) i, want.c_str(), l[i].c_str());
        }
    }
    release(*A);
}

void unblocked(pbt::Case & c)
{
    Opt o;
    o.max_nnz = c.draw(2) ? 25 : 2000;
    o.max_dim = c.draw(2) ? 25 : 3000;
    o.huge_dim = c.draw(4) == 3 ? 70000 : 0;
    o.big = 250;
    Mat m = gen_mat<VT>(c, o);
    if (m.e.size()) c.nontrivial();
    Obj<Coo2<VT, IT>> S(0x5a);
    fill(S.get(), m);
    std::string want = fmt("CSR matrix : %lu rows, %lu non-zeros", (UL) m.rows, (UL) m.e.size());
    switch (c.draw(6)) {
        case 0: {
            c.label("CSR");
            Obj<Csr<VT, IT>> A(0x5a);
            Coo_to_Csr(A.get(), S.get());
            std::string s = io::capture([&] { print_info(*A); });
            has(lines(s), want, s);
            s = io::capture([&] { show(*A); });
            auto l = lines(s);
            if (m.rows > 20) CHECK(l.size() == 1 && l[0].find(":") == std::string::npos, "%lu rows, listing: %s", (UL) m.rows, s.c_str());
            else {
                CHECK(l.size() == m.rows, "%lu rows, listing: %s", (UL) m.rows, s.c_str());
                std::vector<Ent> e = m.e;
                for (uint64_t r = 0; r < m.rows; r++) {
                    std::vector<std::string> items, got;
                    for (auto & x : e) if (x.r == r) items.push_back(fmt("(%lu,", (UL) x.c) + num((VT) x.v) + ")");
                    std::istringstream in(l[r]);
                    std::string t;
                    in >> t;
                    CHECK(t == fmt("%lu:", (UL) r), "row %lu listed as: %s", (UL) r, l[r].c_str());
                    while (in >> t) got.push_back(t);
                    std::sort(items.begin(), items.end());
                    std::sort(got.begin(), got.end());
                    CHECK(got == items, "row %lu listed as: %s", (UL) r, l[r].c_str());
                }
            }
            release(*A);
            break;
        }
        case 1: {
            c.label("CSR(2)");
            Obj<Csr2<VT, IT>> A(0x5a);
            Coo_to_Csr(A.get(), S.get());
            std::string s = io::capture([&] { print_info(*A); });
            has(lines(s), want, s);
            release(*A);
            break;
        }
        case 2: {
            c.label("wide rows");
            uint64_t w = 1 + c.draw(c.draw(2) ? 40 : 3000);
            Obj<Cswr<VT, IT, uint32_t>> A(0x5a);
            Coo_to_Cswr(A.get(), S.get(), (IT) w);
            std::string s = io::capture([&] { print_info(*A); });
            has(lines(s), fmt("Cswr matrix : %lu rows in %lu groups of %lu, %lu non-zeros", (UL) m.rows, (UL) ((m.rows + w - 1) / w), (UL) w, (UL) m.e.size()), s);
            release(*A);
            break;
        }
        case 3: c.label("triplets"); show_coo<Coo2<VT, IT>>(m); break;
        case 4: c.label("elements"); show_coo<Coo3<VT, IT>>(m); break;
        default: c.label("three arrays"); show_coo<Coo<VT, IT, IT>>(m); break;
    }
    release(*S);
}

void run(pbt::Case & c)
{
    omp_set_num_threads(c.pick<int>({1, 2, 4, 3, 8}));
    if (c.draw(4)) blocked(c); else unblocked(c);
}

pbt::Reg reg(TAG, run);

} // namespace
