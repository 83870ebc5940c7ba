// C25: the bundled MatrixMarket routines, used directly.
#include <cfloat>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sys/resource.h>

#include "mm_io/mm_io.h"
#include "gen.h"
#include "io.h"

#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t in_use() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t in_use() { return 0; }
#endif

namespace {

// What a file says, with the indices of the file (from one)
struct File {
    char code[5];                   // letters of the type code
    int M, N;
    std::vector<int> I, J;
    std::vector<double> val;        // one or two for each entry, none if there is only a pattern
    unsigned per() const { return code[2] == 'C' ? 2 : code[2] == 'P' ? 0 : 1; }
};

void set(MM_typecode & t, const char * s) { memcpy(t, s, 4); }

const char * word(char k, int pos)
{
    switch (pos) {
        case 0: return k == 'M' ? "matrix" : nullptr;
        case 1: return k == 'C' ? "coordinate" : k == 'A' ? "array" : nullptr;
        case 2: return k == 'R' ? "real" : k == 'C' ? "complex" : k == 'P' ? "pattern" : k == 'I' ? "integer" : nullptr;
        default: return k == 'G' ? "general" : k == 'S' ? "symmetric" : k == 'H' ? "hermitian" : k == 'K' ? "skew-symmetric" : nullptr;
    }
}

bool valid(const char * t)
{
    if (t[1] == 'A' && t[2] == 'P') return false;
    if (t[2] == 'R' && t[3] == 'H') return false;
    if (t[2] == 'P' && (t[3] == 'H' || t[3] == 'K')) return false;
    return true;
}

double value(pbt::Rng & g)
{
    for (;;) {
        double v;
        switch (g.below(7)) {
            case 0: return (double) g.range(-9, 9);
            case 1: return g.range(-1000000, 1000000) / 1024.0;
            case 2: { uint64_t b = g.next(); memcpy(&v, &b, 8); break; }                          // any bits
            case 3: { uint64_t b = g.next() >> 12; memcpy(&v, &b, 8); if (g.below(2)) v = -v; break; }   // subnormal
            case 4: { const double s[] = {0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_TRUE_MIN, 1.0 / 3, 0.1, 9007199254740993.0, DBL_EPSILON + 1}; v = s[g.below(10)]; break; }
            default: v = g.range(-1000000000, 1000000000) * 1.234567890123e-7; break;
        }
        if (std::isfinite(v)) return v;
    }
}

int dim(pbt::Case & c)
{
    switch (c.draw(5)) {
        case 0: return 1 + c.draw(5);
        case 1: return 1 + c.draw(300);
        case 2: return INT_MAX - c.draw(2);
        default: return 1 + c.draw(INT_MAX);
    }
}

File gen_file(pbt::Case & c)
{
    static const char * codes[] = {"MCRG", "MCRS", "MCRK", "MCCG", "MCCS", "MCCK", "MCCH", "MCPG", "MCPS"};
    File f;
    memcpy(f.code, codes[c.draw(9)], 5);
    f.M = dim(c);
    f.N = c.draw(3) ? dim(c) : f.M;
    size_t n = c.draw(3) == 0 ? c.draw(4) : c.draw(8) == 7 ? c.draw(2000) : c.draw(60);
    pbt::Rng g(c.seed());
    for (size_t i = 0; i < n; i++) {
        f.I.push_back(1 + (int) g.below(f.M));
        f.J.push_back(1 + (int) g.below(f.N));
        for (unsigned k = 0; k < f.per(); k++) f.val.push_back(value(g));
    }
    c.desc("%s %dx%d, %lu entries; ", f.code, f.M, f.N, (unsigned long) n);
    c.label(std::string(f.code));
    if (n) c.nontrivial();
    return f;
}

std::vector<std::vector<std::string>> lines_of(const std::string & s)
{
    std::vector<std::vector<std::string>> r;
    size_t p = 0;
    while (p < s.size()) {
        size_t q = std::min(s.find('\n', p), s.size());
        std::vector<std::string> t;
        for (size_t i = p; i < q; ) {
            size_t j = i;
            while (j < q && !isspace((unsigned char) s[j])) j++;
            if (j > i) t.push_back(s.substr(i, j - i));
            i = j + 1;
        }
        r.push_back(t);
        p = q + 1;
    }
    return r;
}

std::string banner(const char * code)
{
    return std::string("%%MatrixMarket ") + word(code[0], 0) + " " + word(code[1], 1) + " " + word(code[2], 2) + " " + word(code[3], 3);
}

bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }

// The text against what it should say, read like any other program would
void independent(const std::string & s, const File & f)
{
    CHECK(!s.empty() && s.back() == '\n', "the file does not end with a line end");
    auto l = lines_of(s);
    CHECK(s.substr(0, s.find('\n')) == banner(f.code), "first line '%.60s'", s.c_str());
    CHECK(l.size() == f.I.size() + 2, "%lu lines for %lu entries", (unsigned long) l.size(), (unsigned long) f.I.size());
    auto num = [](const std::string & t) { char * e; long v = strtol(t.c_str(), &e, 10); CHECK(*e == 0 && !t.empty(), "'%s' is not a number", t.c_str()); return v; };
    CHECK(l[1].size() == 3 && num(l[1][0]) == f.M && num(l[1][1]) == f.N && num(l[1][2]) == (long) f.I.size(), "wrong line of sizes");
    for (size_t i = 0; i < f.I.size(); i++) {
        auto & t = l[i + 2];
        CHECK(t.size() == 2 + f.per(), "%lu numbers in a line", (unsigned long) t.size());
        CHECK(num(t[0]) == f.I[i] && num(t[1]) == f.J[i], "entry %lu is at (%s,%s), expected (%d,%d)", (unsigned long) i, t[0].c_str(), t[1].c_str(), f.I[i], f.J[i]);
        for (unsigned k = 0; k < f.per(); k++) {
            double w = f.val[i * f.per() + k], v = strtod(t[2 + k].c_str(), nullptr);
            CHECK(same(v, w), "entry %lu reads %s, expected %.17g", (unsigned long) i, t[2 + k].c_str(), w);
        }
    }
}

void expect(const File & f, int M, int N, int nz, const int * I, const int * J, const double * val, int base, const char * what)
{
    CHECK(M == f.M && N == f.N && nz == (int) f.I.size(), "%s: sizes %d %d %d", what, M, N, nz);
    for (int i = 0; i < nz; i++) {
        CHECK(I[i] == f.I[i] - base && J[i] == f.J[i] - base, "%s: entry %d is at (%d,%d), expected (%d,%d)", what, i, I[i], J[i], f.I[i] - base, f.J[i] - base);
        for (unsigned k = 0; k < f.per(); k++)
            CHECK(same(val[i * f.per() + k], f.val[i * f.per() + k]), "%s: value %d is %.17g, expected %.17g", what, i, val[i * f.per() + k], f.val[i * f.per() + k]);
    }
}

int lowest_fd() { int fd = dup(0); close(fd); return fd; }

// Runs f; afterwards no file may be open and no memory in use that was not before
void clean(const char * what, const std::function<void()> & f)
{
    int fd = lowest_fd();
    size_t mem = in_use();
    f();
    size_t now = in_use();
    CHECK(lowest_fd() == fd, "%s: a file is still open", what);
    CHECK(now <= mem, "%s: %lu bytes were not given back", what, (unsigned long) (now - mem));
}

int write_file(const File & f, const char * name)
{
    MM_typecode t;
    set(t, f.code);
    File g = f;
    char nm[400];
    snprintf(nm, sizeof(nm), "%s", name);
    int rc = 0;
    clean("mm_write_mtx_crd", [&] { rc = mm_write_mtx_crd(nm, g.M, g.N, (int) g.I.size(), g.I.data(), g.J.data(), g.val.data(), t); });
    CHECK(g.I == f.I && g.J == f.J && (f.val.empty() || memcmp(f.val.data(), g.val.data(), 8 * f.val.size()) == 0), "the arrays written were changed");
    return rc;
}

// All ways to read a file of coordinates. Returns false if refused.
bool read_all(const char * name, const File & f, int M, int N, int nz, int * I, int * J, double * val, MM_typecode & t)
{
    CHECK(memcmp(t, f.code, 4) == 0, "type code '%.4s', expected '%s'", t, f.code);
    expect(f, M, N, nz, I, J, val, 0, name);
    return true;
}

void whole(const char * name, const File & f, bool from_stdin)
{
    clean("mm_read_mtx_crd", [&] {
        int M = -1, N = -1, nz = -1, * I = nullptr, * J = nullptr;
        double * val = nullptr;
        MM_typecode t;
        char nm[50];
        snprintf(nm, sizeof(nm), "%s", from_stdin ? "stdin" : name);
        int rc = mm_read_mtx_crd(nm, &M, &N, &nz, &I, &J, &val, &t);
        CHECK(rc == 0, "mm_read_mtx_crd refused a valid file (%d)", rc);
        read_all("mm_read_mtx_crd", f, M, N, nz, I, J, val, t);
        if (f.per() == 0) CHECK(val == nullptr, "values for a pattern");
        free(I); free(J); free(val);
    });
}

void piecewise(const char * name, const File & f, bool entries)
{
    clean("reading in steps", [&] {
        FILE * h = fopen(name, "r");
        if (!h) pbt::engine_error("cannot read scratch file");
        MM_typecode t;
        int M = -1, N = -1, nz = -1;
        int rc = mm_read_banner(h, &t);
        CHECK(rc == 0 && memcmp(t, f.code, 4) == 0, "mm_read_banner: %d, '%.4s' instead of '%s'", rc, t, f.code);
        CHECK(mm_is_valid(t), "a valid type code is not called valid");
        rc = mm_read_mtx_crd_size(h, &M, &N, &nz);
        CHECK(rc == 0 && M == f.M && N == f.N && nz == (int) f.I.size(), "mm_read_mtx_crd_size: %d, %d %d %d", rc, M, N, nz);
        std::vector<int> I(nz), J(nz);
        std::vector<double> val(2 * nz + 2, 77.0);
        if (entries) {
            for (int i = 0; i < nz; i++) {
                double re = 77, im = 78;
                rc = mm_read_mtx_crd_entry(h, &I[i], &J[i], &re, &im, t);
                CHECK(rc == 0, "mm_read_mtx_crd_entry: %d at entry %d", rc, i);
                if (f.per() < 2) CHECK(im == 78, "an imaginary part was set");
                if (f.per() < 1) CHECK(re == 77, "a value was set");
                if (f.per() > 0) val[i * f.per()] = re;
                if (f.per() > 1) val[i * 2 + 1] = im;
            }
            int a, b;
            double re, im;
            CHECK(mm_read_mtx_crd_entry(h, &a, &b, &re, &im, t) != 0, "mm_read_mtx_crd_entry read beyond the end");
        } else {
            rc = mm_read_mtx_crd_data(h, M, N, nz, I.data(), J.data(), val.data(), t);
            CHECK(rc == 0, "mm_read_mtx_crd_data: %d", rc);
            CHECK(val[f.per() * nz] == 77.0, "values beyond the last entry were set");
        }
        expect(f, M, N, nz, I.data(), J.data(), val.data(), 0, entries ? "mm_read_mtx_crd_entry" : "mm_read_mtx_crd_data");
        fclose(h);
    });
}

void unsymmetric(const char * name, const File & f)
{
    clean("mm_read_unsymmetric_sparse", [&] {
        int M = -1, N = -1, nz = -1, * I = nullptr, * J = nullptr, rc = 0;
        double * val = nullptr;
        rc = mm_read_unsymmetric_sparse(name, &M, &N, &nz, &val, &I, &J);
        CHECK(rc == 0, "mm_read_unsymmetric_sparse refused a valid file (%d)", rc);
        expect(f, M, N, nz, I, J, val, 1, "mm_read_unsymmetric_sparse");
        free(I); free(J); free(val);
    });
}

void refused(const char * name, const char * why)
{
    clean("mm_read_mtx_crd, refusing", [&] {
        int M, N, nz, * I = nullptr, * J = nullptr;
        double * val = nullptr;
        MM_typecode t;
        char nm[400];
        snprintf(nm, sizeof(nm), "%s", name);
        int rc = mm_read_mtx_crd(nm, &M, &N, &nz, &I, &J, &val, &t);
        CHECK(rc != 0, "mm_read_mtx_crd accepted a file with %s", why);
    });
}

void refused_unsymmetric(const char * name, const char * why)
{
    clean("mm_read_unsymmetric_sparse, refusing", [&] {
        int M, N, nz, * I = nullptr, * J = nullptr, rc = 0;
        double * val = nullptr;
        rc = mm_read_unsymmetric_sparse(name, &M, &N, &nz, &val, &I, &J);
        CHECK(rc != 0, "mm_read_unsymmetric_sparse accepted a file with %s", why);
    });
}

void trip(pbt::Case & c)
{
    File f = gen_file(c);
    bool out = c.draw(6) == 5, in = c.draw(6) == 5;
    static const char * names[] = {"m", "z", "stdout.mtx", "stdin.mtx", "A", "./m"};
    const char * m = names[c.draw(6)];
    if (c.draw(2)) io::write_file(m, std::string(100000, '7'));
    int rc = 0;
    std::string s;
    if (out) { s = io::capture([&] { rc = write_file(f, "stdout"); }); io::write_file(m, s); }
    else { rc = write_file(f, m); s = io::read_file(m); }
    CHECK(rc == 0, "mm_write_mtx_crd failed (%d)", rc);
    independent(s, f);
    if (in) {
        if (!freopen(m, "r", stdin)) pbt::engine_error("freopen");
        static char buf[4096];
        setvbuf(stdin, buf, _IOFBF, sizeof(buf));       // no memory of its own
        whole(m, f, true);
        if (!freopen("/dev/null", "r", stdin)) pbt::engine_error("freopen");
    } else whole(m, f, false);
    piecewise(m, f, c.draw(2));
    if (!strcmp(f.code, "MCRG")) unsymmetric(m, f);
    else if (f.code[2] != 'R') refused_unsymmetric(m, "values that are not real");
    unlink(m);
}

// Banner and sizes, one by one
void header(pbt::Case & c)
{
    static const char letters[4][6] = {"MM x", "CAC ", "RCPI ", "GSHK "};
    char code[5] = {0};
    for (int i = 0; i < 4; i++) code[i] = letters[i][c.draw(strlen(letters[i]))];
    if (c.draw(12) == 11) code[c.draw(4)] = (char) c.draw(128);
    MM_typecode t;
    set(t, code);
    bool known = true;
    for (int i = 0; i < 4; i++) if (!word(code[i], i)) known = false;
    for (auto & ch : code) if (ch && (ch < 32 || ch > 126)) ch = '?';
    c.desc("type code '%s'; ", code);
    c.label(known ? "known type code" : "unknown type code");
    c.nontrivial();
    FILE * w = fopen("m", "w");
    if (!w) pbt::engine_error("fopen");
    fprintf(w, "%s", "");
    clean("mm_typecode_to_str", [&] {
        char * s = mm_typecode_to_str(t);
        if (known) CHECK(s && banner(code) == std::string("%%MatrixMarket ") + s, "'%s' for the type code '%s'", s ? s : "(null)", code);
        else CHECK(s == nullptr, "'%s' for the type code '%s'", s, code);
        if (s) { char * d = mm_strdup(s); CHECK(d != s && !strcmp(d, s), "mm_strdup"); free(d); }
        free(s);
    });
    if (known && !(code[2] == 'I' && code[3] == 'H'))
        CHECK(!!mm_is_valid(t) == valid(code), "mm_is_valid is %d for '%s'", mm_is_valid(t), code);
    if (code[0] != 'M') CHECK(!mm_is_valid(t), "mm_is_valid is true for '%s'", code);
    int rc = mm_write_banner(w, t);
    if (!known) CHECK(rc != 0, "mm_write_banner accepted the type code '%s'", code);
    else CHECK(rc == 0, "mm_write_banner failed (%d)", rc);
    if (known) {
        bool array = code[1] == 'A';
        int a = c.draw(4) ? dim(c) : c.draw(2), b = c.draw(4) ? dim(c) : c.draw(2), n = c.draw(2) ? c.draw(50) : dim(c);
        for (unsigned i = c.draw(3); i > 0; i--) fprintf(w, "%% 3 4 5 %*s\n", (int) c.draw(1000), "x");
        for (unsigned i = c.draw(4) == 3 ? 1 + c.draw(2) : 0; i > 0; i--) fprintf(w, "\n");
        long at = ftell(w);
        rc = array ? mm_write_mtx_array_size(w, a, b) : mm_write_mtx_crd_size(w, a, b, n);
        CHECK(rc == 0, "writing the sizes failed (%d)", rc);
        fclose(w);
        char want[100];
        if (array) snprintf(want, sizeof(want), "%d %d\n", a, b); else snprintf(want, sizeof(want), "%d %d %d\n", a, b, n);
        std::string s = io::read_file("m");
        CHECK(s.substr(0, s.find('\n')) == banner(code), "first line '%.60s'", s.c_str());
        CHECK(s.substr(at) == want, "sizes '%s'", s.substr(at).c_str());
        bool broken = c.draw(3) == 2;
        if (broken) {
            // One of the numbers is missing or no number
            std::string line(want);
            unsigned k = c.draw(array ? 2 : 3), i = 0;
            std::string now;
            auto tokens = lines_of(line)[0];
            for (auto & tk : tokens) {
                if (i++ == k) { if (c.draw(2)) continue; now += (c.pick<const char *>({"x", "--3", "?9", "e5", "2147483648", "4294967297", "-4294967297", "18446744073709551617", "99999999999999999999"})); }
                else now += tk;
                now += " ";
            }
            if (c.draw(2)) now += "\nx y\n";
            if (c.draw(4) == 3) now = c.pick<const char *>({"", "% 3 4 5\n", "\n", " \n\n", "%"});
            c.desc("sizes '%s'; ", now.substr(0, 40).c_str());
            s = s.substr(0, at) + now;
            io::write_file("m", s);
        }
        FILE * r = fopen("m", "r");
        MM_typecode u;
        rc = mm_read_banner(r, &u);
        CHECK(rc == 0 && memcmp(t, u, 4) == 0, "mm_read_banner: %d, '%.4s' instead of '%s'", rc, u, code);
        int A = -1, B = -1, K = -1;
        rc = array ? mm_read_mtx_array_size(r, &A, &B) : mm_read_mtx_crd_size(r, &A, &B, &K);
        if (broken) CHECK(rc != 0, "sizes read from a line without them");
        else CHECK(rc == 0 && A == a && B == b && (array || K == n), "sizes read: %d, %d %d %d", rc, A, B, K);
        fclose(r);
    } else fclose(w);
    // A stream that cannot be written to
    FILE * r = fopen("m", "r");
    if (known) CHECK(mm_write_banner(r, t) != 0, "mm_write_banner reported success");
    CHECK(mm_write_mtx_array_size(r, 3, 4) != 0, "mm_write_mtx_array_size reported success");
    CHECK(mm_write_mtx_crd_size(r, 3, 4, 5) != 0, "mm_write_mtx_crd_size reported success");
    fclose(r);
    unlink("m");
}

struct Limit {
    rlimit old;
    int what;
    Limit(int w, uint64_t v) : what(w)
    {
        getrlimit(what, &old);
        rlimit l = old;
        l.rlim_cur = std::min<rlim_t>(v, old.rlim_max);
        if (setrlimit(what, &l) != 0) pbt::engine_error("setrlimit");
    }
    ~Limit() { setrlimit(what, &old); }
};

void failing_write(pbt::Case & c)
{
    File f = gen_file(c);
    int rc = write_file(f, "m");
    CHECK(rc == 0, "mm_write_mtx_crd failed (%d)", rc);
    std::string full = io::read_file("m");
    if (c.draw(2)) unlink("m");
    switch (c.draw(5)) {
        case 0: {
            c.label("cannot be created");
            mkdir("d", 0700);
            const char * bad[] = {"no/such/m", "", "d"};
            const char * b = bad[c.draw(3)];
            CHECK(write_file(f, b) != 0, "success although '%s' cannot be created", b);
            rmdir("d");
            break;
        }
        case 1: c.label("device full"); CHECK(write_file(f, "/dev/full") != 0, "success on a full device"); break;
        case 2: {
            static const char * codes[] = {"MCIG", "MCIS", "MC?G", "MCXK", "MCR ", "MCC?", "M?RG", "MCPX"};
            memcpy(f.code, codes[c.draw(8)], 5);
            c.label("unsupported values");
            CHECK(write_file(f, "m") != 0, "success with the type code '%s'", f.code);
            break;
        }
        default: {
            uint64_t at = c.draw(3) ? c.draw(full.size() + 1) : full.size() - std::min<uint64_t>(full.size(), c.draw(3)) + c.draw(3);
            c.desc("full after %lu of %lu bytes; ", (unsigned long) at, (unsigned long) full.size());
            c.label(at >= full.size() ? "everything fits" : "becomes full");
            { Limit l(RLIMIT_FSIZE, at); rc = write_file(f, "m"); }
            if (at >= full.size()) CHECK(rc == 0 && io::read_file("m") == full, "failed (%d) although everything fits", rc);
            else CHECK(rc != 0, "success although only %lu of %lu bytes fit", (unsigned long) at, (unsigned long) full.size());
        }
    }
    unlink("m");
}

void damaged(pbt::Case & c)
{
    File f = gen_file(c);
    int rc = write_file(f, "m");
    CHECK(rc == 0, "mm_write_mtx_crd failed (%d)", rc);
    std::string s = io::read_file("m");
    size_t h = s.find('\n') + 1;                 // after the header
    std::vector<std::pair<size_t, size_t>> tok;  // numbers: sizes, then entries
    for (size_t i = h; i < s.size(); ) {
        size_t j = i;
        while (j < s.size() && !isspace((unsigned char) s[j])) j++;
        if (j > i) tok.push_back({i, j - i});
        i = j + 1;
    }
    const char * why = "";
    bool also_unsymmetric = true;
    switch (c.draw(7)) {
        case 0: case 1: s.resize(c.draw(tok.back().first + 1)); why = "an end too early"; break;
        case 2: case 3: {
            auto p = tok[c.draw(2) ? c.draw(tok.size()) : c.draw(3)];
            s.replace(p.first, p.second, c.pick<const char *>({"x", "--3", "?9", "e5", "/"}));
            why = "something that is not a number";
            break;
        }
        case 4: {
            long n = (long) f.I.size();
            long k = c.draw(2) ? n + 1 + c.draw(50) : -1 - (long) c.draw(5000);
            s.replace(tok[2].first, tok[2].second, std::to_string(k));
            why = k < 0 ? "a negative number of entries" : "fewer entries than it says";
            break;
        }
        case 5: {
            static const char * headers[] = {"%%MatrixMarket matrix coordinate integer general", "%%MatrixMarket matrix coordinate integer symmetric",
                "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix array complex general",
                "%%MatrixMarket matrix coordinate pattern hermitian", "%%MatrixMarket matrix coordinate pattern skew-symmetric",
                "%%MatrixMarket matrix array pattern general", "%%MatrixMarket vector coordinate real general",
                "%MatrixMarket matrix coordinate real general", "%%MatrixMarket matrix coordinate real", "%%MatrixMarket matrix coordinate real upper",
                "%%MatrixMarket matrix coordinate double general", "%%MatrixMarket matrix sparse real general", "", "1 2 3",
                "%%MatrixMarket matrix coordinate real hermitian"};
            unsigned k = c.draw(16);
            s = std::string(headers[k]) + s.substr(h - 1);
            also_unsymmetric = k != 15;
            why = "a header it cannot follow";
            c.desc("header '%s'; ", headers[k]);
            break;
        }
        default:
            why = "no contents";
            unlink("m");
            if (c.draw(2)) { refused("m", "no file"); refused_unsymmetric("m", "no file"); }
            mkdir("m", 0700);
            refused("m", "a directory");
            refused_unsymmetric("m", "a directory");
            rmdir("m");
            s = "";
    }
    c.desc("%s; ", why);
    c.label(why);
    io::write_file("m", s);
    refused("m", why);
    if (also_unsymmetric) refused_unsymmetric("m", why);
    if (c.draw(4) == 3) {                        // values of another kind cannot be read
        io::write_file("v", "1 1 1 1\n1 1 1 1\n");
        FILE * r = fopen("v", "r");
        int I[1], J[1];
        double v[2];
        MM_typecode t;
        set(t, c.pick<const char *>({"MCIG", "MCIS", "MC G", "MC?K"}));
        CHECK(mm_read_mtx_crd_entry(r, I, J, v, v + 1, t) != 0, "mm_read_mtx_crd_entry read values of an unsupported kind");
        CHECK(mm_read_mtx_crd_data(r, 1, 1, 1, I, J, v, t) != 0, "mm_read_mtx_crd_data read values of an unsupported kind");
        fclose(r);
        unlink("v");
    }
    // In steps
    bool at_once = c.draw(2);
    clean("reading a damaged file in steps", [&] {
        FILE * r = fopen("m", "r");
        MM_typecode t;
        int M, N, nz = 0;
        if (mm_read_banner(r, &t) == 0 && memcmp(t, f.code, 4) == 0 && mm_read_mtx_crd_size(r, &M, &N, &nz) == 0 && nz >= 0) {
            std::vector<int> I(nz), J(nz);
            std::vector<double> val(2 * nz);
            if (at_once) CHECK(mm_read_mtx_crd_data(r, M, N, nz, I.data(), J.data(), val.data(), t) != 0, "mm_read_mtx_crd_data accepted a file with %s", why);
            else {
                int i = 0;
                double re, im;
                while (i < nz && mm_read_mtx_crd_entry(r, &I[0], &J[0], &re, &im, t) == 0) i++;
                CHECK(i < nz, "mm_read_mtx_crd_entry accepted a file with %s", why);
            }
        }
        fclose(r);
    });
    unlink("m");
}

void run(pbt::Case & c)
{
    static bool once = [] {
        signal(SIGXFSZ, SIG_IGN);
        FILE * n = fopen("/dev/null", "w");
        if (n) { stderr = n; fprintf(n, "x"); fflush(n); }
        io::capture([] { printf("x"); });
        return true;
    }();
    (void) once;
    switch (c.draw(8)) {
        case 0: case 1: case 2: c.desc("round trip; "); trip(c); break;
        case 3: c.desc("header; "); header(c); break;
        case 4: c.desc("failing write; "); failing_write(c); break;
        default: c.desc("damaged; "); { std::string out = io::capture([&] { damaged(c); }); } break;
    }
}

pbt::Reg reg("mm_io", run);

} // namespace
