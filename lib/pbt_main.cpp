// Entry point shared by all C++ harnesses. See pbt.h.
#include "pbt.h"

#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>

#include <set>

namespace pbt {

Shared * shared = nullptr;

std::map<std::string, Runner> & runners()
{
    static std::map<std::string, Runner> r;
    return r;
}

Reg::Reg(const char * name, Runner r) { runners()[name] = r; }

void fail(const char * fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shared->msg, sizeof(shared->msg), fmt, ap);
    va_end(ap);
    shared->state = 2;
    _exit(FAIL_EXIT);
}

void engine_error(const char * msg)
{
    snprintf(shared->msg, sizeof(shared->msg), "%s", msg);
    shared->state = 4;
    _exit(78);
}

static Shared * map_shared(const char * file)
{
    int fd = open(file, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror(file); exit(78); }
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(78); }
    close(fd);
    return (Shared *) p;
}

static uint64_t str_hash(const char * s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char) *s) * 1099511628211ull;
    return h;
}

static void run_one(Case & c)
{
    shared->nch = 0;
    shared->desc[0] = 0;
    shared->msg[0] = 0;
    shared->state = 1;
    auto & r = runners();
    auto it = r.begin();
    std::advance(it, c.draw(r.size()));
    if (r.size() > 1) { c.desc("types=%s; ", it->first.c_str()); c.label("types " + it->first); }
    it->second(c);
    shared->state = 0;
}

} // namespace pbt

// ThreadSanitizer builds: the OpenMP runtime hands memory of finished tasks from one thread to another without
// telling the sanitizer. Reports about memory the runtime itself allocated (its pool for task descriptors) are
// about that, not about the program; everything else counts.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#include <dlfcn.h>
extern "C" int __tsan_get_report_data(void *, const char **, int *, int *, int *, int *, int *, int *, int *, void **, unsigned long);
extern "C" int __tsan_get_report_loc(void *, unsigned long, const char **, void **, unsigned long *, unsigned long *, int *,
                                     int *, int *, void **, unsigned long);
// Nothing below may enter the sanitizer again (function entries, intercepted functions): it holds its own locks here.
#define UNSEEN __attribute__((disable_sanitizer_instrumentation))
UNSEEN static bool contains(const char * s, const char * w)
{
    for (; *s; s++) {
        const volatile char *a = s, *b = w;
        while (*b && *a == *b) a++, b++;
        if (!*b) return true;
    }
    return false;
}
namespace __tsan {
class ReportDesc;
UNSEEN bool OnReport(const ReportDesc * rep, bool suppressed)
{
    if (suppressed) return true;
    const char * type = nullptr;
    void *addr, *trace[8];
    for (int i = 0; i < 8; i++) *(void * volatile *) (trace + i) = nullptr;
    unsigned long start, size;
    int tid, fd, sup;
    const char * desc;
    int count, stacks, mops, locs, mutexes, threads, uniq;
    void * sleep[1];
    __tsan_get_report_data((void *) rep, &desc, &count, &stacks, &mops, &locs, &mutexes, &threads, &uniq, sleep, 1);
    for (int i = 0; i < locs; i++) {
        __tsan_get_report_loc((void *) rep, i, &type, &addr, &start, &size, &tid, &fd, &sup, trace, 8);
        if (!type || !contains(type, "heap") || !trace[1]) continue;
        Dl_info info;
        if (dladdr(trace[1], &info) && info.dli_fname && contains(info.dli_fname, "libomp.so")) {
            pbt::shared->pad[0]++;
            return true;
        }
    }
    return false;
}
}
#endif
#endif

using namespace pbt;

static void json_str(FILE * f, const std::string & s)
{
    fputc('"', f);
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
        else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
// Says where a crash was (the sanitizers do so themselves)
static void crash(int sig)
{
    void * pcs[64];
    char line[] = "crash, called from:\n";
    if (write(2, line, sizeof(line) - 1) < 0) _exit(1);
    backtrace_symbols_fd(pcs, backtrace(pcs, 64), 2);
    char status[4096];
    int fd = open("/proc/self/status", O_RDONLY), n;
    if (fd >= 0) {
        if ((n = read(fd, status, sizeof(status))) > 0)
            if (char * p = (char *) memmem(status, n, "VmPeak", 6))
                if (write(2, p, std::min<long>(status + n - p, 120)) < 0) _exit(1);
        close(fd);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

static void report_crashes()
{
    void * pcs[4];
    backtrace(pcs, 4);                // loads what it needs
    static char stack[1 << 16];
    stack_t ss = {};
    ss.ss_sp = stack;
    ss.ss_size = sizeof(stack);
    sigaltstack(&ss, 0);
    struct sigaction sa = {};
    sa.sa_handler = crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESETHAND;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
}
#else
static void report_crashes() {}
#endif

// What a worker has seen
struct Tally {
    std::map<std::string, uint64_t> labels;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t done = 0, nontriv = 0;
    timespec t0;
    double maxsec;

    explicit Tally(double m) : maxsec(m) { clock_gettime(CLOCK_MONOTONIC, &t0); }

    void run(Case & c)
    {
        c.labels = &labels;
        run_one(c);
        done++;
        shared->cases = done;
        if (!c.nontriv) return;
        nontriv++;
        uint64_t h = 7;
        for (size_t i = 0; i < c.pos; i++) h = mix(h ^ shared->ch[i]);
        distinct.insert(h);
        if (samples.size() < 2 || (samples.size() < 4 && (done & 63) == 0)) samples.push_back(shared->desc);
    }

    bool late()
    {
        timespec t1;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        return (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > maxsec;
    }

    [[noreturn]] void finish(const char * file)
    {
        FILE * f = fopen(file, "w");
        if (!f) { perror(file); _exit(78); }
        fprintf(f, "{\"cases\":%lu,\"nontrivial\":%lu,\"labels\":{", (unsigned long) done, (unsigned long) nontriv);
        bool first = true;
        for (auto & l : labels) {
            if (!first) fputc(',', f);
            first = false;
            json_str(f, l.first);
            fprintf(f, ":%lu", (unsigned long) l.second);
        }
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < samples.size(); i++) { if (i) fputc(',', f); json_str(f, samples[i]); }
        fprintf(f, "],\"hashes\":[");
        first = true;
        for (auto h : distinct) { fprintf(f, first ? "\"%lx\"" : ",\"%lx\"", (unsigned long) h); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
        shared->state = 3;
        fflush(stdout);
        _exit(0);
    }
};

#ifdef PBT_FUZZ
// Coverage-guided: libFuzzer changes the bytes the draws are taken from. It starts with a corpus of ordinary cases.
extern "C" int LLVMFuzzerRunDriver(int * argc, char *** argv, int (*)(const uint8_t *, size_t));
static Tally * tally;
static uint64_t fuzz_count, fuzz_start, fuzz_stride;
static const char * fuzz_out;

static int fuzz_one(const uint8_t * data, size_t size)
{
    static const uint8_t none = 0;
    Case c;
    c.bytes = data ? data : &none;
    c.left = size;
    tally->run(c);
    shared->idx = fuzz_start + tally->done * fuzz_stride;
    if (tally->done >= fuzz_count || tally->late()) tally->finish(fuzz_out);
    return 0;
}

static int fuzz(uint64_t seed, const char * dir)
{
    mkdir("corpus", 0700);
    for (uint64_t k = 0; k < 200; k++) {
        if (tally->done >= fuzz_count || tally->late()) tally->finish(fuzz_out);
        std::string bytes;
        Case c;
        c.rng = mix(seed + mix(k + 1));
        c.record = &bytes;
        tally->run(c);
        shared->idx = fuzz_start + tally->done * fuzz_stride;
        char name[64];
        snprintf(name, sizeof(name), "corpus/%lu", (unsigned long) k);
        FILE * f = fopen(name, "wb");
        if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f) != 0) engine_error("cannot write the corpus");
    }
    std::string s = "-seed=" + std::to_string(1 + seed % 4000000000u), profile = seed & 1 ? "-use_value_profile=1" : "-use_value_profile=0";
    const char * a[] = {"fuzz", s.c_str(), profile.c_str(), "-verbosity=0", "-max_len=16384", "-len_control=0", "-rss_limit_mb=0", "-timeout=100000", "-detect_leaks=0", "-reload=0", "-error_exitcode=76",
                        "-handle_segv=0", "-handle_bus=0", "-handle_abrt=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0",
                        "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", "-artifact_prefix=crash-", dir, nullptr};
    int argc = sizeof(a) / sizeof(*a) - 1;
    char ** argv = const_cast<char **>(a);
    LLVMFuzzerRunDriver(&argc, &argv, fuzz_one);
    tally->finish(fuzz_out);
}
#endif

int main(int argc, char ** argv)
{
    report_crashes();
    if (argc >= 10 && strcmp(argv[1], "--worker") == 0) {
        // --worker property seed start stride count shared out maxsec
        uint64_t ph = str_hash(argv[2]);
        uint64_t seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10);
        uint64_t stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        shared = map_shared(argv[7]);
        Tally t(atof(argv[9]));
#ifdef PBT_FUZZ
        tally = &t;
        fuzz_count = count;
        shared->idx = fuzz_start = start;
        fuzz_stride = stride;
        fuzz_out = argv[8];
        return fuzz(mix(mix(seed ^ ph) + start), "corpus");
#endif
        for (uint64_t k = 0; k < count && !t.late(); k++) {
            uint64_t idx = start + k * stride;
            Case c;
            c.rng = mix(mix(seed ^ ph) + mix(idx * 0x9E3779B97F4A7C15ull + 1));
            c.variant = start;
            shared->idx = idx;
            t.run(c);
        }
        t.finish(argv[8]);
    }
    if (argc >= 4 && strcmp(argv[1], "--replay") == 0) {
        // --replay choices-file shared [repetitions]
        shared = map_shared(argv[3]);
        std::vector<uint64_t> ch;
        FILE * f = fopen(argv[2], "r");
        if (!f) { perror(argv[2]); return 78; }
        unsigned long v;
        while (fscanf(f, "%lu", &v) == 1) ch.push_back(v);
        fclose(f);
        int reps = argc > 4 ? atoi(argv[4]) : 1;
        for (int i = 0; i < reps; i++) {
            Case c;
            c.replay = true;
            c.in = &ch;
            run_one(c);
        }
        shared->state = 3;
        fflush(stdout);
        _exit(0);
    }
    fprintf(stderr, "usage: see run.py\n");
    return 78;
}
