// C22: a fault at every system call on the output file of real runs. A run
// that still reports success must have left the complete file.
#include "runmap.hh"
#include <dlfcn.h>
#include <errno.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>
using namespace vp; using namespace run;

enum { OPEN, WRITE, TRUNC, CLOSE, SYNC, KINDS };
static const char* KN[] = {"open", "write", "truncate", "close", "sync"};
namespace fault
{
    static std::string path; static bool on = false; static bool mine[1024];
    struct Plan { int kind = -1, nth = 0, err = 0, len = -1; bool stay = false; long budget = -1; } plan;
    static int seen[KINDS]; static long bytes = 0; static bool hit = false, open_ = false; static int* report = NULL;
    static bool fd(int f) { return on && f >= 0 && f < 1024 && mine[f]; }
    // 0: go on, otherwise the error to report
    static int ask(int kind) { int n = seen[kind]++; if (report) report[kind] = seen[kind]; if (kind == plan.kind && (n == plan.nth || (plan.stay && n > plan.nth))) { hit = true; if (report) report[KINDS] = 1; return plan.err; } return 0; }
    template <class F> static F real(const char* n) { static_assert(sizeof(F) == sizeof(void*), ""); return (F)dlsym(RTLD_NEXT, n); }
    static bool match(const char* p) { if (!on || !p) return false; std::string s = p; size_t q = path.rfind('/'); return s == path || s == path.substr(q + 1); }
    // length that may be written; -1 with errno
    static ssize_t size(size_t n)
    {
        int k = seen[WRITE]; int e = ask(WRITE);
        if (plan.budget >= 0) { if (bytes >= plan.budget && n) { if (report) report[KINDS] = 1; errno = ENOSPC; return -1; } if (bytes + (long)n > plan.budget) { if (report) report[KINDS] = 1; n = plan.budget - bytes; } bytes += n; return n; }
        if (plan.kind == WRITE && plan.len >= 0 && k == plan.nth) { if (n > 1) { ssize_t m = plan.len == 0 ? (ssize_t)n / 2 : plan.len; return std::min<ssize_t>(m, n - 1); } return n; }
        if (e) { errno = e; return -1; } return n;
    }
}
extern "C"
{
    static int opened(const char* p, int f, int flags) { if (f >= 0 && f < 1024) fault::mine[f] = fault::match(p) && (flags & (O_WRONLY | O_RDWR)); return f; }
    int open(const char* p, int flags, ...)
    { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); if (fault::match(p)) { int e = fault::ask(OPEN); if (e) { errno = e; return -1; } } return opened(p, fault::real<int (*)(const char*, int, ...)>("open")(p, flags, m), flags); }
    int open64(const char* p, int flags, ...)
    { va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); if (fault::match(p)) { int e = fault::ask(OPEN); if (e) { errno = e; return -1; } } return opened(p, fault::real<int (*)(const char*, int, ...)>("open64")(p, flags, m), flags); }
    ssize_t write(int f, const void* b, size_t n) { if (fault::fd(f)) { ssize_t m = fault::size(n); if (m < 0) return -1; n = m; } return fault::real<ssize_t (*)(int, const void*, size_t)>("write")(f, b, n); }
    ssize_t pwrite(int f, const void* b, size_t n, off_t o) { if (fault::fd(f)) { ssize_t m = fault::size(n); if (m < 0) return -1; n = m; } return fault::real<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite")(f, b, n, o); }
    ssize_t pwrite64(int f, const void* b, size_t n, off_t o) { if (fault::fd(f)) { ssize_t m = fault::size(n); if (m < 0) return -1; n = m; } return fault::real<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite64")(f, b, n, o); }
    int ftruncate(int f, off_t n) { if (fault::fd(f)) { int e = fault::ask(TRUNC); if (e) { errno = e; return -1; } } return fault::real<int (*)(int, off_t)>("ftruncate")(f, n); }
    int ftruncate64(int f, off_t n) { if (fault::fd(f)) { int e = fault::ask(TRUNC); if (e) { errno = e; return -1; } } return fault::real<int (*)(int, off_t)>("ftruncate64")(f, n); }
    int fsync(int f) { if (fault::fd(f)) { int e = fault::ask(SYNC); if (e) { errno = e; return -1; } } return fault::real<int (*)(int)>("fsync")(f); }
    // as on Linux the descriptor is gone even if close reports an error
    int close(int f) { int e = 0; if (fault::fd(f)) { e = fault::ask(CLOSE); fault::mine[f] = false; } int r = fault::real<int (*)(int)>("close")(f); if (e) { errno = e; return -1; } return r; }
}

static Cfg quiet() { Cfg c; c.dt = 5e3; c.end = 1.4e4; c.E = V(1e-3, 0, 0); return c; }
static Source beam(int n, const char* t = "electron", bool out = true) { Source s; s.n = n; s.type = t; s.e1 = 1000; s.output = out; return s; }
static std::vector<std::pair<std::string, Cfg>> configs(bool T)
{
    std::vector<std::pair<std::string, Cfg>> r; Cfg c = quiet(); Histo h; h.hi = 2000; r.push_back({"nothing", c});
    c.src = {beam(2)}; r.push_back({"one source", c});
    c.hist = {h}; r.push_back({"source and histogram", c});
    c.src = {beam(2, "electron", false)}; r.push_back({"histogram only", c});
    c.src = {beam(1), beam(2, "positron"), beam(1, "photon")}; h.name = "last"; h.time = 1e9; c.hist.push_back(h); r.push_back({"three sources, two histograms", c});
    c.track = true; r.push_back({"with tracks", c});
    c = quiet(); c.E = V(); c.src = {beam(1200)}; h.bins = 9000; c.hist = {h}; r.push_back({"large tables", c});
    c.src = {beam(20)}; c.hist.clear(); c.track = true; c.model = "Classical"; r.push_back({"many tracks", c});
    if (T) { c.src = {beam(20000)}; c.track = false; r.push_back({"very large tables", c}); c.src = {beam(300)}; c.track = true; r.push_back({"very many tracks", c}); }
    return r;
}
static int* shared; static std::string deckFile, outFile;
static int runWith(const fault::Plan& p)
{
    unlink(outFile.c_str()); memset(shared, 0, sizeof(int) * (KINDS + 1));
    return forked([&] {
        fault::path = outFile; fault::plan = p; fault::report = shared; fault::on = true;
        std::string a0 = "QEDCASC"; char* av[] = {(char*)a0.c_str(), (char*)deckFile.c_str(), NULL};
        int s = qedcasc_main(2, av); std::exit(s); return 0; }, 60);
}
static void judge(int w, const H5Map& want, const std::string& what)
{
    transition(); H5Map got; bool ok = w != -2 && WIFEXITED(w) && WEXITSTATUS(w) == 0;
    if (w == -2) fail(what + ": the run does not end");
    else if (ok)
    { std::string e = h5read(outFile, got); if (e.empty()) e = h5cmp(got, want, 0); if (e.size()) fail(what + ": the run reports success but " + e); count("faults survived with the complete file"); }
    else count(WIFEXITED(w) ? "faults reported by the exit status" : "faults that abort the program");
    distinct(what.substr(0, 40) + fmt("%d %d", w, shared[KINDS]));
}
int main()
{
    init(); tune(); rng_const(0.5, 0); bool T = thorough(); shared = (int*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    deckFile = run::tmp() + "/deck.ini"; outFile = run::tmp() + "/out.h5";
    for (auto& c : configs(T))
    {
        run::write(deckFile, deck(c.second, outFile)); int n[KINDS]; H5Map want; struct stat sb;
        int w = runWith(fault::Plan()); memcpy(n, shared, sizeof n);
        if (!WIFEXITED(w) || WEXITSTATUS(w) || w == -2 || h5read(outFile, want).size() || stat(outFile.c_str(), &sb)) { if (vp::begin(c.first)) fail("the run without any fault fails"); continue; }
        if (vp::begin(c.first + ", system calls seen")) { transition(n[0] + n[1] + n[2] + n[3] + n[4]); if (n[OPEN] < 1 || n[WRITE] < 1 || n[CLOSE] < 1) fail("the output file is written in an unknown way"); }
        struct { const char* n; int e; } E[] = {{"no space", ENOSPC}, {"i/o error", EIO}, {"quota", EDQUOT}, {"no access", EACCES}};
        for (int k = 0; k < KINDS; k++) for (int i = 0; i < n[k]; i++)
        {
            if (!T && n[k] > 400 && i % (n[k] / 200)) continue;
            if (!vp::begin(c.first + fmt(", fault at %s %d", KN[k], i))) continue;
            for (auto& e : E) for (int stay = 0; stay < 2; stay++)
            {
                if (!T && ((k == OPEN ? 0 : e.e == EACCES) || e.e == EDQUOT)) continue;
                fault::Plan p; p.kind = k; p.nth = i; p.err = e.e; p.stay = stay; w = runWith(p); if (!shared[KINDS]) { fail("the fault is not reached"); continue; }
                judge(w, want, std::string(e.n) + (stay ? ", persistent" : ", once"));
            }
            if (k == WRITE) for (int len : {0, 1}) { fault::Plan p; p.kind = k; p.nth = i; p.len = len; w = runWith(p); judge(w, want, "a short write"); p.stay = true; p.err = ENOSPC; w = runWith(p); judge(w, want, "a short write, then no space"); }
        }
        // the disk fills up after every number of bytes
        long step = T ? std::max(1L, (long)sb.st_size / 4000) : std::max(8L, (long)sb.st_size / 150), total = 0; (void)total;
        for (long b = 0; b <= sb.st_size + 64 * step; b += step)
        {
            if (!vp::begin(c.first + fmt(", room for %ld bytes", b))) continue;
            fault::Plan p; p.budget = b; w = runWith(p); judge(w, want, "disk full");
        }
    }
    return finish();
}
