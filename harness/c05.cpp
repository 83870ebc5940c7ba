// C05: a block-row partition covers every non-empty block once and in order.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <omp.h>

#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csbr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"

#include "blk.h"
#include "io.h"

using namespace gen;

namespace {

typedef PVT VT;
typedef PIT IT;
typedef PSIT SIT;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

template <class M>
void examine(pbt::Case & c, M & A, const Mat & m, const Blocking & b, int workers, bool counts_exact)
{
    Blocks g = group(m, b);
    const uint64_t half = m.e.size() / (2 * (uint64_t) workers);    // half an even share
    std::vector<std::vector<std::pair<uint64_t, const std::vector<Ent> *>>> rows(b.rs.size());
    for (auto & k : g) rows[k.first.first].push_back({k.first.second, &k.second});
    uint64_t first = 0, cuts = 0;
    std::string dump = io::capture([&] { partition_dump(A->partition, (IT) b.rs.size()); });
    std::string expect_dump;
    for (uint64_t br = 0; br < b.rs.size(); br++) {
        const auto & ch = A->partition[br].chunks;
        uint64_t end = first + rows[br].size();
        CHECK(ch.size() >= 2, "block-row %lu has no chunk", (unsigned long) br);
        CHECK(A->partition[br].nchunks() == ch.size() - 1, "block-row %lu: wrong number of chunks", (unsigned long) br);
        CHECK(ch[0] == first, "block-row %lu: first chunk starts at block %lu, expected %lu", (unsigned long) br, (unsigned long) ch[0], (unsigned long) first);
        CHECK(ch.back() == end, "block-row %lu: last chunk ends at block %lu, expected %lu", (unsigned long) br, (unsigned long) ch.back(), (unsigned long) end);
        std::vector<uint64_t> stored;
        for (uint64_t k = first; k < end; k++) {
            uint64_t n = A->block_nonzeros((IT) k), real = rows[br][k - first].second->size();
            uint64_t area = b.rs[br] * b.cs[rows[br][k - first].first];
            if (counts_exact) CHECK(n == real, "block %lu reports %lu non-zeros, has %lu", (unsigned long) k, (unsigned long) n, (unsigned long) real);
            else CHECK(n == real || n == area, "block %lu reports %lu stored values, has %lu (%lu dense)", (unsigned long) k, (unsigned long) n, (unsigned long) real, (unsigned long) area);
            stored.push_back(n);
        }
        char buf[64];
        snprintf(buf, sizeof(buf), "%lu,%lu:\t", (unsigned long) br, (unsigned long) ch.size() - 1);
        expect_dump += buf;
        for (size_t i = 1; i < ch.size(); i++) {
            CHECK(ch[i] >= ch[i - 1] && ch[i] <= end, "block-row %lu: chunk %lu goes backwards (%lu to %lu)", (unsigned long) br,
                  (unsigned long) i - 1, (unsigned long) ch[i - 1], (unsigned long) ch[i]);
            snprintf(buf, sizeof(buf), "%lu ", (unsigned long) (ch[i] - ch[i - 1]));
            expect_dump += buf;
            uint64_t s = ch[i - 1] - first, e = ch[i] - first, inner = 0;
            for (uint64_t k = s + 1; k + 1 < e; k++) inner += stored[k];
            CHECK(inner <= half, "block-row %lu, chunk %lu is not split: %lu values between its first and last block, "
                  "half an even share is %lu", (unsigned long) br, (unsigned long) i - 1, (unsigned long) inner, (unsigned long) half);
            if (i + 1 < ch.size()) {                      // an interior cut
                cuts++;
                uint64_t sum = 0;
                for (uint64_t k = s; k <= e && k < stored.size(); k++) sum += stored[k];
                CHECK(sum > half, "block-row %lu is cut at block %lu after %lu values, half an even share is %lu",
                      (unsigned long) br, (unsigned long) ch[i], (unsigned long) sum, (unsigned long) half);
            }
        }
        expect_dump += "\n";
        first = end;
    }
    // White space is not part of the format
    auto squeeze = [](const std::string & s) {
        std::string t;
        for (char ch : s) {
            if (ch == '\t' || ch == ' ') { if (!t.empty() && t.back() != ' ') t += ' '; }
            else { if (ch == '\n' && !t.empty() && t.back() == ' ') t.pop_back(); t += ch; }
        }
        return t;
    };
    CHECK(squeeze(dump) == squeeze(expect_dump), "partition_dump does not show the partition");
    if (cuts) { c.nontrivial(); c.label("with cuts"); }
}

void run(pbt::Case & c)
{
    unsigned fmt = c.draw(4);          // Csbr from triplets, from elements, Cgbr, Cgbr2
    static const char * names[] = {"csbr from triplets", "csbr", "cgbr", "cgbr(2)"};
    Opt o;
    o.max_nnz = 4000;
    o.big = 150;
    o.max_dim = 2500;
    int workers = c.pick<int>({1, 2, 4, 3, 8, 16, 7, 64, 200, 33});
    Mat m = gen_mat<VT>(c, o);
    BlkOpt bo;
    bo.max_blocks = fmt == 0 ? 1u << 18 : 1u << 22;
    bo.max_size = small_indices<SIT>();
    Blocking b = gen_blocking(c, m, bo);
    bool again = workers > 8 || c.draw(4) == 3;    // a new partition of a built matrix
    c.label(names[fmt]);
    c.label("threads " + std::to_string(workers));
    c.desc("%s, threads=%d; ", names[fmt], workers);
    omp_set_num_threads(again ? 2 : workers);
    int fillb = c.pick<int>({0x00, 0xff, 0x01, 0xa5});
    std::vector<double> x = gen_vec<VT>(c, m.cols), y0 = gen_vec<VT>(c, m.rows, true), want = product(m, x, y0);

    auto check = [&](auto & A, bool exact) {
        if (again) {
            bool place = c.draw(2);
            if (!place) partition_destroy(A.get());
            omp_set_num_threads(workers);
            if (!place) partition_init(A.get());
            for (IT br = 0; place && br < A->blockrows; br++)
                partition_blockrow(A.get(), A->partition + br, A->blockrow_ptr[br], A->blockrow_ptr[br + 1]);
            c.label(place ? "partitioned anew in place" : "partitioned anew");
        }
        examine(c, A, m, b, workers, exact);
        omp_set_num_threads(std::min(workers, 8));
        A->balanced = false;
        Vec<VT> vx(x), vy(y0);
        A->spmv(vx.p, vy.p);
        vy.expect(want, names[fmt]);
        release(*A);
    };
    auto offs = [&](IT *& ro, IT *& co) { ro = offsets_new<IT>(b.rs); co = b.same ? ro : offsets_new<IT>(b.cs); };
    IT *ro, *co;
    if (fmt == 0) {
        Obj<Coo2<VT, IT>> B(fillb); fill(B.get(), m);
        Obj<Csbr<VT, IT>> A(fillb);
        if (b.constant) Coo_to_Csbr(A.get(), B.get(), (IT) b.brs, (IT) b.bcs);
        else { offs(ro, co); Coo_to_Csbr(A.get(), B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size()); }
        release(*B);
        check(A, true);
    } else {
        Obj<Coo3<VT, IT>> B(fillb); fill(B.get(), m);
        if (fmt == 1) {
            Obj<Csbr<VT, IT>> A(fillb);
            if (b.constant) Coo_to_Csbr(A.get(), B.get(), (IT) b.brs, (IT) b.bcs);
            else { offs(ro, co); Coo_to_Csbr(A.get(), B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size()); }
            release(*B);
            check(A, true);
        } else if (fmt == 2) {
            Obj<Cgbr<VT, IT, SIT>> A(fillb);
            if (b.constant) Coo_to_Cgbr(A.get(), B.get(), (IT) b.brs, (IT) b.bcs);
            else { offs(ro, co); Coo_to_Cgbr(A.get(), B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size()); }
            release(*B);
            check(A, false);
        } else {
            Obj<Cgbr2<VT, IT, SIT>> A(fillb);
            if (b.constant) Coo_to_Cgbr(A.get(), B.get(), (IT) b.brs, (IT) b.bcs);
            else { offs(ro, co); Coo_to_Cgbr(A.get(), B.get(), ro, (IT) b.rs.size(), co, (IT) b.cs.size()); }
            release(*B);
            check(A, false);
        }
    }
}

pbt::Reg reg(TAG, run);

} // namespace
