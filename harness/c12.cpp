// C12: blocked files.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"

#include "blk.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;

const int THREADS[] = {1, 2, 3, 4, 8, 5, 2, 4, 8, 24};

void fill(Coo3<VT, IT> * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

// The documented layout
std::string layout(const Mat & m, const Blocking & b, std::vector<Ent> e, const Blocks & g)
{
    std::string s;
    for (uint64_t h : {m.rows, m.cols, (uint64_t) m.e.size(), (uint64_t) b.rs.size(), (uint64_t) b.cs.size(), (uint64_t) g.size()}) io::append<IT>(s, (IT) h);
    for (auto & x : e) {
        io::append<IT>(s, (IT) (b.row_block(x.r) * b.cs.size() + b.col_block(x.c)));
        io::append<IT>(s, (IT) x.r); io::append<IT>(s, (IT) x.c); io::append<VT>(s, (VT) x.v);
    }
    return s;
}

template <class M> void compare_kinds(M &, M &) {}
void compare_kinds(Cgbr<VT, IT, SIT> & A, Cgbr<VT, IT, SIT> & B)
{
    for (int i = 0; i < MATRIX_TYPE_NUM; i++)
        CHECK(A.type_block_count[i] == B.type_block_count[i] && A.type_nnz_count[i] == B.type_nnz_count[i],
              "kind %d: %lu blocks with %lu non-zeros, in memory %lu and %lu", i, (unsigned long) A.type_block_count[i],
              (unsigned long) A.type_nnz_count[i], (unsigned long) B.type_block_count[i], (unsigned long) B.type_nnz_count[i]);
    CHECK(A.balanced == B.balanced, "marked as %sbalanced, not so in memory", A.balanced ? "" : "not ");
}

// What a matrix built in memory looks like; matrices read are compared with it
template <class M, class Build> void examine(pbt::Case & c, const Mat & m, const Blocking & b, const Blocks & g, const char * file, const char * name, Build build)
{
    c.label(name);
    c.desc("%s; ", name);
    Obj<Coo3<VT, IT>> S(0x5a);
    fill(S.get(), m);
    Obj<M> B(0x5a), A(c.pick<int>({0xa5, 0x00, 0xff, 0x01}));
    build(B.get(), S.get(), offsets_new<IT>(b.rs), offsets_new<IT>(b.cs));
    release(*S);
    IT * ro = offsets_new<IT>(b.rs), * co = b.same ? ro : offsets_new<IT>(b.cs);
    int rc = read_bin_blocked(A.get(), file, ro, (IT) b.rs.size(), co, (IT) b.cs.size());
    CHECK(rc == 0, "%s: refused (%d)", name, rc);
    CHECK((uint64_t) A->rows == m.rows && (uint64_t) A->columns == m.cols, "%s: wrong dimensions", name);
    CHECK((uint64_t) A->nonzeros() == m.e.size() && A->nonzeros() == B->nonzeros(), "%s: %lu non-zeros, expected %lu", name, (unsigned long) A->nonzeros(),
          (unsigned long) m.e.size());
    CHECK((uint64_t) A->blockrows == b.rs.size() && (uint64_t) A->blockcols == b.cs.size(), "%s: wrong number of block rows or columns", name);
    CHECK((uint64_t) A->nnzblocks == g.size() && A->nnzblocks == B->nnzblocks, "%s: %lu blocks, expected %lu", name, (unsigned long) A->nnzblocks,
          (unsigned long) g.size());
    compare_kinds(*A, *B);
    std::string pa = io::capture([&] { print_info(*A); }), pb = io::capture([&] { print_info(*B); });
    CHECK(pa == pb, "%s: prints other information than the matrix built in memory: %s", name, pa.c_str());
    bool early = c.draw(2);
    if (early) release(*B);
    std::vector<double> x = gen_vec<VT>(c, m.cols), y0 = gen_vec<VT>(c, m.rows, true), want = product(m, x, y0);
    for (unsigned k = 0, n = 1 + c.draw(3); k < n; k++) {
        if (c.draw(3) == 2) omp_set_num_threads(THREADS[c.draw(10)]);
        Vec<VT> vx(x), vy(y0);
        A->spmv(vx.p, vy.p);
        vy.expect(want, name);
    }
    release(*A);
    if (!early) {
        Vec<VT> vx(x), vy(y0);
        B->spmv(vx.p, vy.p);
        vy.expect(want, "the matrix built in memory");
        release(*B);
    }
}

void run(pbt::Case & c)
{
    Opt o;
    o.max_nnz = 3000;
    o.big = 120;
    const bool tiny = sizeof(SIT) == 1;
    o.max_dim = tiny ? 1500 : 3000;
    if (!tiny) o.huge_dim = 70000;
    omp_set_num_threads(THREADS[c.draw(10)]);
    Mat m = gen_mat<VT>(c, o);
    BlkOpt bo;
    bo.max_size = std::min<uint64_t>(small_indices<SIT>(), 1u << 20);
    bo.max_blocks = 1u << 20;
    bo.max_row_elems = 1u << 18;
    bo.constant = false;
    Blocking b;
    if (tiny || !gen_last_block<VT, IT>(c, 60, m, b)) b = gen_blocking(c, m, bo);
    // dense blocks now and then
    if (c.draw(3) == 2) {
        pbt::Rng g(c.seed());
        Opt vo;
        for (int n = 0; n < 3; n++) {
            uint64_t br = g.below(b.rs.size()), bc = g.below(b.cs.size());
            if ((double) b.rs[br] * b.cs[bc] > 2000) continue;
            for (uint64_t i = 0; i < b.rs[br]; i++) for (uint64_t j = 0; j < b.cs[bc]; j++)
                if (g.chance(90)) m.e.push_back({b.ro[br] + i, b.co[bc] + j, gen_value<VT>(g.next(), vo)});
        }
        c.desc("%lu entries with dense blocks; ", (unsigned long) m.e.size());
    }
    Blocks g = group(m, b);
    if (g.size() > 1) c.nontrivial();
    c.label(g.size() == 0 ? "no blocks" : g.size() == 1 ? "one non-empty block" : "several non-empty blocks");
    const char * file = "m.block";
    std::vector<Ent> sorted = m.e;
    auto key = [&](const Ent & e) { return std::make_tuple(b.row_block(e.r), b.col_block(e.c), e.r, e.c); };
    {
        std::vector<std::pair<decltype(key(m.e[0])), size_t>> ks;
        for (size_t i = 0; i < m.e.size(); i++) ks.push_back({key(m.e[i]), i});
        std::stable_sort(ks.begin(), ks.end());
        for (size_t i = 0; i < ks.size(); i++) sorted[i] = m.e[ks[i].second];
    }
    if (c.draw(3)) {
        Obj<Coo3<VT, IT>> A(0x5a);
        fill(A.get(), m);
        IT * ro = offsets_new<IT>(b.rs), * co = offsets_new<IT>(b.cs);
        A->blockrows = (IT) b.rs.size();
        A->blockcols = (IT) b.cs.size();
        calculate_block_id(A->elements, A->nnz, ro, A->blockrows, co, A->blockcols);
        sort_elements_blocks(A->elements, A->nnz);
        A->nnzblocks = count_blocks(A->elements, A->nnz);
        if (c.draw(2)) io::write_file(file, std::string(200000, 'z'));
        int rc = write_bin_blocked(*A, file);
        CHECK(rc == 0, "write_bin_blocked failed (%d)", rc);
        delete [] ro; delete [] co;
        release(*A);
        std::string want = layout(m, b, sorted, g), got = io::read_file(file);
        CHECK(got.size() == want.size(), "the file has %lu bytes, expected %lu", (unsigned long) got.size(), (unsigned long) want.size());
        // The order of repeated entries is not specified
        if (!has_dups(m)) { size_t d = io::differs(got, want); CHECK(d == want.size(), "byte %lu of the file differs", (unsigned long) d); }
    } else io::write_file(file, layout(m, b, sorted, g));

    IT nbr = (IT) b.rs.size(), nbc = (IT) b.cs.size();
    switch (c.draw(3)) {
        case 0: examine<Csbr<VT, IT>>(c, m, b, g, file, "CSBR", [&](auto * A, auto * S, IT * ro, IT * co) { Coo_to_Csbr(A, S, ro, nbr, co, nbc); }); break;
        case 1: examine<Csbr2<VT, IT>>(c, m, b, g, file, "CSBR(2)", [&](auto * A, auto * S, IT * ro, IT * co) { Coo_to_Csbr(A, S, ro, nbr, co, nbc); }); break;
        default: examine<Cgbr<VT, IT, SIT>>(c, m, b, g, file, "CGBR", [&](auto * A, auto * S, IT * ro, IT * co) { Coo_to_Cgbr(A, S, ro, nbr, co, nbc); }); break;
    }
    unlink(file);
}

pbt::Reg reg(TAG, run);

} // namespace
