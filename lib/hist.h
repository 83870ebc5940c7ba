// Histories of building, using, changing and releasing several matrices, for C06 and C20.
// Include after the library's headers and with VT, IT and SIT defined.
#ifndef HIST_H
#define HIST_H

#include "blk.h"
#include "io.h"

#include <functional>
#include <memory>
#include <tuple>

namespace hist {

using namespace gen;

typedef std::function<void(const VT *, VT *)> Mult;

template <class COO> void fill(COO * A, const Mat & m)
{
    allocate(A, (IT) m.e.size());
    A->rows = (IT) m.rows;
    A->columns = (IT) m.cols;
    for (size_t i = 0; i < m.e.size(); i++)
        set_point(A, (IT) i, (IT) m.e[i].r, (IT) m.e[i].c, (VT) m.e[i].v);
}

typedef std::vector<std::tuple<uint64_t, uint64_t, double>> Bag;
inline Bag bag(const Mat & m)
{
    Bag b;
    for (auto & e : m.e) b.push_back({e.r, e.c, e.v});
    std::sort(b.begin(), b.end());
    return b;
}

struct Source {
    int kind;                      // 2 triplets, 3 elements, 1 three arrays
    Mat m;
    bool spent = false;            // a format that changes its source was built from it
    std::unique_ptr<Obj<Coo2<VT, IT>>> c2;
    std::unique_ptr<Obj<Coo3<VT, IT>>> c3;
    std::unique_ptr<Coo<VT, IT, IT>> c1;

    template <class F> void with(F f)
    {
        if (kind == 2) f(**c2); else if (kind == 3) f(**c3); else f(*c1);
    }
    void check(const char * when)
    {
        if (spent) return;
        with([&](auto & A) {
            CHECK(A.rows == m.rows && A.columns == m.cols && A.nonzeros() == m.e.size(), "source changed its size %s", when);
            Bag b;
            for (size_t i = 0; i < m.e.size(); i++) b.push_back({A.get_row_index(i), A.get_column_index(i), (double) A.get_value(i)});
            std::sort(b.begin(), b.end());
            CHECK(b == bag(m), "source does not hold its entries any more %s", when);
        });
    }
    void free() { with([](auto & A) { release(A); }); c1.reset(); }
};

struct Built {
    std::string name;
    Mat m;
    Mult mult, serial;
    std::function<uint64_t()> nnz;
    std::function<void()> rel, print, mark;
};

struct History {
    pbt::Case & c;
    bool files;                    // read and write files, print
    int fillb;
    std::vector<std::unique_ptr<Source>> src;
    std::vector<std::unique_ptr<Built>> mat;
    std::map<std::string, int> used;
    unsigned nfiles = 0;

    History(pbt::Case & c_, bool files_) : c(c_), files(files_), fillb(c_.pick<int>({0x00, 0xff, 0x01, 0xa5})) {}

    Mat matrix()
    {
        Opt o;
        o.max_dim = c.draw(5) == 4 ? 2000 : 300;
        o.max_nnz = c.draw(5) == 4 ? 3000 : 700;
        o.big = 600;
        o.big_nnz = 80000;
        return gen_mat<VT>(c, o);
    }

    void add_source(const Mat & m, int kind)
    {
        std::unique_ptr<Source> s(new Source);
        s->kind = kind;
        s->m = m;
        if (kind == 2) { s->c2.reset(new Obj<Coo2<VT, IT>>(fillb)); fill(s->c2->get(), m); }
        if (kind == 3) { s->c3.reset(new Obj<Coo3<VT, IT>>(fillb)); fill(s->c3->get(), m); }
        if (kind == 1) { s->c1.reset(new Coo<VT, IT, IT>()); fill(s->c1.get(), m); }
        src.push_back(std::move(s));
    }

    template <class M> Built * finish(std::shared_ptr<Obj<M>> A, const Mat & m, const std::string & name)
    {
        Built * b = new Built;
        b->name = name;
        b->m = m;
        b->mult = [A](const VT * x, VT * y) { (*A)->spmv(x, y); };
        b->nnz = [A] { return (uint64_t) (*A)->nonzeros(); };
        b->rel = [A] { release(**A); };
        can_mark(b, A, 0);
        has_serial(b, A, 0);
        return b;
    }
    template <class M> auto has_serial(Built * b, std::shared_ptr<Obj<M>> A, int)
        -> decltype((*A)->spmv_serial((const VT *) nullptr, (VT *) nullptr), void())
    {
        b->serial = [A](const VT * x, VT * y) { (*A)->spmv_serial(x, y); };
    }
    template <class M> void has_serial(Built *, std::shared_ptr<Obj<M>>, long) {}
    // Whether a matrix is marked balanced is for the user to change
    template <class M> auto can_mark(Built * b, std::shared_ptr<Obj<M>> A, int) -> decltype((*A)->balanced = true, void())
    {
        b->mark = [A] { (*A)->balanced = !(*A)->balanced; };
    }
    template <class M> void can_mark(Built *, std::shared_ptr<Obj<M>>, long) {}
    template <class M> Built * finish_print(std::shared_ptr<Obj<M>> A, const Mat & m, const std::string & name)
    {
        Built * b = finish(A, m, name);
        b->print = [A] { print_info(**A); };
        return b;
    }
    template <class M> std::shared_ptr<Obj<M>> obj() { return std::shared_ptr<Obj<M>>(new Obj<M>(fillb)); }

    // Formats that take any of the two layouts and only reorder it
    template <template <typename, typename> class COO> Built * unblocked(COO<VT, IT> * B, const Mat & m, unsigned f)
    {
        switch (f) {
            case 0: { auto A = obj<Csr<VT, IT>>(); Coo_to_Csr(A->get(), B); return finish_print(A, m, "CSR"); }
            case 1: { auto A = obj<Csr2<VT, IT>>(); Coo_to_Csr(A->get(), B); return finish_print(A, m, "CSR(2)"); }
            case 2: {
                auto A = obj<CompRowCsr<VT, IT>>();
                Coo_to_CrCsr(A->get(), B);
                Built * b = new Built;
                b->name = "compressed-row CSR";
                b->m = m;
                b->mult = [A](const VT * x, VT * y) { spmv(A->get(), x, y); };
                b->nnz = [A] { return (uint64_t) (*A)->nonzeros(); };
                b->rel = [A] { release(**A); };
                return b;
            }
            case 3: { auto A = obj<Cswr<VT, IT, uint16_t>>(); Coo_to_Cswr(A->get(), B, (IT) c.pick<int>({32, 1, 7, 300, 4000}));
                      return finish_print(A, m, "wide rows"); }
            default: {
                if (m.rows * m.cols > 400000) return nullptr;
                auto A = obj<BlockDense<VT, IT>>();
                Coo_to_Dense(A->get(), B);
                Built * b = new Built;
                b->name = "dense";
                b->m = m;
                b->mult = [A](const VT * x, VT * y) { (*A)->spmv(x, y); };
                b->rel = [A] { release(**A); };
                return b;
            }
        }
    }

    template <class M, class COO> void blocked(M * A, COO * B, const Blocking & b)
    {
        if (b.constant) { Coo_to_Blocked(A, B, (IT) b.brs, (IT) b.bcs); return; }
        IT * ro = offsets_new<IT>(b.rs);
        IT * co = b.same ? ro : offsets_new<IT>(b.cs);
        Coo_to_Blocked(A, B, ro, (IT) b.rs.size(), co, (IT) b.cs.size());
    }

    void build()
    {
        std::vector<Source *> ok;
        for (auto & s : src) if (!s->spent && s->kind != 1) ok.push_back(s.get());
        if (ok.empty() || mat.size() >= 6) return;
        Source & s = *ok[c.draw(ok.size())];
        unsigned f = c.draw(12);
        Built * b = nullptr;
        if (f < 5) {
            b = s.kind == 2 ? unblocked(s.c2->get(), s.m, f) : unblocked(s.c3->get(), s.m, f);
        } else if (f < 7 && s.kind == 3 && s.m.rows * s.m.cols <= 400000) {
            DenseSerial<VT, IT> * D = f == 5 ? new DenseSerial<VT, IT>((*s.c3)->elements, (IT) s.m.rows, (IT) s.m.cols, (IT) s.m.e.size())
                                             : new DenseParallel<VT, IT>((*s.c3)->elements, (IT) s.m.rows, (IT) s.m.cols, (IT) s.m.e.size());
            b = new Built;
            b->name = "dense block";
            b->m = s.m;
            b->mult = [D](const VT * x, VT * y) { D->spmv(x, y); };
            b->nnz = [D] { return (uint64_t) D->nonzeros(); };
            b->rel = [D] { delete (BlockBase<VT, IT> *) D; };
        } else {
            BlkOpt bo;
            bo.max_blocks = 1u << 18;
            bo.max_row_elems = 1u << 17;
            bo.max_size = 1ull << std::min<int>(20, std::numeric_limits<SIT>::digits);
            Blocking bl = gen_blocking(c, s.m, bo);
            if (s.kind == 2) {
                auto A = obj<Csbr<VT, IT>>();
                blocked(A->get(), s.c2->get(), bl);
                b = finish_print(A, s.m, "CSBR from triplets");
                s.spent = true;
            } else switch (f % 4) {
                case 0: { auto A = obj<Csbr<VT, IT>>(); blocked(A->get(), s.c3->get(), bl); b = finish_print(A, s.m, "CSBR"); break; }
                case 1: { auto A = obj<Csbr2<VT, IT>>(); blocked(A->get(), s.c3->get(), bl); b = finish_print(A, s.m, "CSBR(2)"); break; }
                case 2: { auto A = obj<Cgbr<VT, IT, SIT>>(); blocked(A->get(), s.c3->get(), bl); b = finish_print(A, s.m, "CGBR"); s.spent = true; break; }
                default: { auto A = obj<Cgbr2<VT, IT, SIT>>(); blocked(A->get(), s.c3->get(), bl); b = finish_print(A, s.m, "CGBR(2)"); s.spent = true; break; }
            }
        }
        if (!b) return;
        c.desc("build %s; ", b->name.c_str());
        used[b->name]++;
        c.label("build " + b->name);
        mat.emplace_back(b);
        s.check(("after building " + b->name).c_str());
    }

    void multiply(Built & b, const char * when)
    {
        std::vector<double> x = gen_vec<VT>(c, b.m.cols), y0 = gen_vec<VT>(c, b.m.rows, true);
        Vec<VT> vx(x), vy(y0);
        if (b.serial && c.draw(4) == 3) b.serial(vx.p, vy.p);
        else b.mult(vx.p, vy.p);
        vy.expect(product(b.m, x, y0), (b.name + when).c_str());
        vx.expect(x, "x changed");
        if (b.nnz) CHECK(b.nnz() == b.m.e.size(), "%s%s: %lu non-zeros, built from %lu", b.name.c_str(), when,
                         (unsigned long) b.nnz(), (unsigned long) b.m.e.size());
    }

    void copy()
    {
        std::vector<Source *> ok;
        for (auto & s : src) if (!s->spent) ok.push_back(s.get());
        if (ok.empty() || src.size() >= 4) return;
        Source & s = *ok[c.draw(ok.size())];
        std::unique_ptr<Source> d(new Source);
        d->m = s.m;
        d->kind = c.pick<int>({2, 3, 1});
        auto conv = [&](auto * A) {
            if (s.kind == 2) {
                if (c.draw(2)) Coo_to_Coo(A, s.c2->get());
                else Coo_to_Coo(A, (*s.c2)->triplets, (IT) s.m.rows, (IT) s.m.cols, (IT) s.m.e.size());
            } else if (s.kind == 3) {
                if (c.draw(2)) Coo_to_Coo(A, s.c3->get());
                else Coo_to_Coo(A, (*s.c3)->elements, (IT) s.m.rows, (IT) s.m.cols, (IT) s.m.e.size());
            } else Coo_to_Coo(A, s.c1->val, s.c1->I, s.c1->J, s.c1->rows, s.c1->columns, s.c1->nnz);
        };
        if (d->kind == 2) { d->c2.reset(new Obj<Coo2<VT, IT>>(fillb)); conv(d->c2->get()); }
        if (d->kind == 3) { d->c3.reset(new Obj<Coo3<VT, IT>>(fillb)); conv(d->c3->get()); }
        if (d->kind == 1) { d->c1.reset(new Coo<VT, IT, IT>()); conv(d->c1.get()); }
        c.desc("copy; ");
        c.label("copy");
        d->check("after copying");
        s.check("after being copied");
        src.push_back(std::move(d));
    }

    void modify()
    {
        if (src.empty()) return;
        Source & s = *src[c.draw(src.size())];
        pbt::Rng g(c.seed());
        Opt o;
        for (auto & e : s.m.e) { e.r = g.below(s.m.rows); e.c = g.below(s.m.cols); e.v = gen_value<VT>(g.next(), o); }
        s.with([&](auto & A) {
            for (size_t i = 0; i < s.m.e.size(); i++) set_point(&A, (IT) i, (IT) s.m.e[i].r, (IT) s.m.e[i].c, (VT) s.m.e[i].v);
        });
        s.spent = false;
        c.desc("change a source; ");
        c.label("change a source");
    }

    // Files
    void through_file()
    {
        std::vector<Source *> ok;
        for (auto & s : src) if (!s->spent && s->kind != 1) ok.push_back(s.get());
        if (ok.empty() || src.size() >= 4 || mat.size() >= 6) return;
        Source & s = *ok[c.draw(ok.size())];
        unsigned how = c.draw(6);
        char name[64], n2[64], n3[64];
        snprintf(name, 64, "f%u.%s", nfiles, how == 0 ? "mtx" : "bin");
        snprintf(n2, 64, "f%u.c", nfiles);
        snprintf(n3, 64, "f%u.v", nfiles++);
        c.desc("file %u; ", how);
        if (how == 3 || how == 4) sort_as_rows(s);
        std::unique_ptr<Source> d(new Source);
        d->m = s.m;
        d->kind = c.pick<int>({2, 3, 1});
        if (how == 5 && s.kind != 3) how = 1;
        auto write = [&](auto & A) {
            if (how == 0) return write_mm_COO(&A, name);
            if (how == 2) return write_bin_COO(&A, name, n2, n3);
            return write_bin_COO(A, name);
        };
        if (how == 5) return blocked_file(s, name);
        int rc = s.kind == 2 ? write(**s.c2) : write(**s.c3);
        CHECK(rc == 0, "writing a file failed");
        s.check("after being written");
        auto done = [&](int rc, const char * what) { CHECK(rc == 0, "reading %s failed (%d)", what, rc); c.label(std::string("read ") + what); };
        if (how == 3) {
            auto A = obj<Csr<VT, IT>>();
            done(read_bin_CSR(A->get(), name), "CSR");
            mat.emplace_back(finish_print(A, s.m, "CSR read from a file"));
        } else if (how == 4) {
            auto A = obj<Csr2<VT, IT>>();
            done(read_bin_CSR(A->get(), name), "CSR(2)");
            mat.emplace_back(finish_print(A, s.m, "CSR(2) read from a file"));
        } else {
            // Three files do not hold dimensions; (1,1) if there are no entries
            if (how == 2) {
                uint64_t r = 0, q = 0;
                for (auto & e : s.m.e) { r = std::max(r, e.r); q = std::max(q, e.c); }
                d->m.rows = r + 1;
                d->m.cols = q + 1;
            }
            auto get = [&](auto * A) { done(how == 2 ? read_bin_COO(A, name, n2, n3) : read_COO(A, name), how == 0 ? "mtx" : how == 2 ? "3 files" : "bin"); };
            if (d->kind == 1) {
                // Three arrays can only be read from three files
                d->c1.reset(new Coo<VT, IT, IT>());
                if (how == 2) done(read_bin_COO(d->c1.get(), name, n2, n3), "3 files");
                else d->kind = 2;
            }
            if (d->kind == 2) { d->c1.reset(); d->c2.reset(new Obj<Coo2<VT, IT>>(fillb)); get(d->c2->get()); }
            if (d->kind == 3) { d->c3.reset(new Obj<Coo3<VT, IT>>(fillb)); get(d->c3->get()); }
            d->check("after reading it");
            src.push_back(std::move(d));
        }
        unlink(name); unlink(n2); unlink(n3);
    }

    void sort_as_rows(Source & s)
    {
        if (s.kind == 2) sort_triplets((*s.c2)->triplets, (IT) s.m.e.size());
        else sort_triplets((*s.c3)->elements, (IT) s.m.e.size());
    }

    void blocked_file(Source & s, const char * name)
    {
        BlkOpt bo;
        bo.max_blocks = 1u << 16;
        bo.max_row_elems = 1u << 16;
        bo.max_size = 1ull << std::min<int>(20, std::numeric_limits<SIT>::digits);
        bo.constant = false;
        Blocking bl = gen_blocking(c, s.m, bo);
        IT * ro = offsets_new<IT>(bl.rs), * co = bl.same ? ro : offsets_new<IT>(bl.cs);
        auto & B = **s.c3;
        B.blockrows = (IT) bl.rs.size();
        B.blockcols = (IT) bl.cs.size();
        calculate_block_id(B.elements, B.nnz, ro, B.blockrows, co, B.blockcols);
        sort_elements_blocks(B.elements, B.nnz);
        B.nnzblocks = count_blocks(B.elements, B.nnz);
        CHECK(write_bin_blocked(B, name) == 0, "writing a blocked file failed");
        s.check("after being written");
        unsigned f = c.draw(3);
        Built * b;
        auto rd = [&](auto & A) { read_bin_blocked(A->get(), name, ro, (IT) bl.rs.size(), co, (IT) bl.cs.size()); };
        if (f == 0) { auto A = obj<Csbr<VT, IT>>(); rd(A); b = finish_print(A, s.m, "CSBR read from a file"); }
        else if (f == 1) { auto A = obj<Csbr2<VT, IT>>(); rd(A); b = finish_print(A, s.m, "CSBR(2) read from a file"); }
        else { auto A = obj<Cgbr<VT, IT, SIT>>(); rd(A); b = finish_print(A, s.m, "CGBR read from a file"); }
        c.label("read " + b->name);
        c.desc("%s; ", b->name.c_str());
        mat.emplace_back(b);
        unlink(name);
    }

    void step()
    {
        switch (c.draw(files ? 17 : 14)) {
            case 0: if (src.size() < 4) add_source(matrix(), c.pick<int>({2, 3, 3, 1})); break;
            case 1: case 2: case 3: case 4: case 5: build(); break;
            case 6: case 7: if (!mat.empty()) multiply(*mat[c.draw(mat.size())], ""); break;
            case 8: modify(); break;
            case 9:
                if (!src.empty() && c.draw(2)) {
                    size_t i = c.draw(src.size());
                    src[i]->check("before it is released");
                    src[i]->free();
                    src.erase(src.begin() + i);
                    c.desc("release a source; ");
                }
                break;
            case 10:
                if (!mat.empty()) {
                    size_t i = c.draw(mat.size());
                    c.desc("release %s; ", mat[i]->name.c_str());
                    mat[i]->rel();
                    mat.erase(mat.begin() + i);
                }
                break;
            case 11: copy(); break;
            case 12: omp_set_num_threads(c.pick<int>({1, 2, 3, 4, 8})); break;
            case 13:
                if (!mat.empty()) {
                    Built & b = *mat[c.draw(mat.size())];
                    if (b.mark) { b.mark(); c.desc("mark %s; ", b.name.c_str()); c.label("change the balanced marking"); }
                }
                break;
            case 14: case 15: through_file(); break;
            case 16:
                if (!mat.empty()) {
                    Built & b = *mat[c.draw(mat.size())];
                    if (b.print) CHECK(!io::capture(b.print).empty(), "%s prints nothing", b.name.c_str());
                }
                break;
        }
    }

    void run(unsigned max_steps)
    {
        add_source(matrix(), c.pick<int>({3, 2}));
        unsigned n = 2 + c.draw(max_steps);
        for (unsigned i = 0; i < n; i++) step();
        // Everything that is alive still holds what it should
        for (auto & s : src) s->check("at the end");
        for (auto & b : mat) multiply(*b, " at the end");
        if (used.size() > 1) c.nontrivial();
        c.label(n < 8 ? "2-7 steps" : n < 16 ? "8-15 steps" : "16 or more steps");
        while (!src.empty() || !mat.empty()) {
            size_t i = c.draw(src.size() + mat.size());
            if (i < src.size()) { src[i]->check("before it is released"); src[i]->free(); src.erase(src.begin() + i); }
            else { i -= src.size(); multiply(*mat[i], " before it is released"); mat[i]->rel(); mat.erase(mat.begin() + i); }
        }
    }
};

} // namespace hist

#endif
