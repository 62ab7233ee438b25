// Exploration of the schedules of OpenMP programs (see ompsim.cc).
#ifndef VP_OMPSIM_HH
#define VP_OMPSIM_HH
#include <cstdint>
#include <cstddef>
#define OMPSIM_MAXT 24
#define OMPSIM_PATH 4096
#define OMPSIM_NEW 8192
#define OMPSIM_TABLE (1ul << 22)
enum { OMPSIM_RACE = 78, OMPSIM_PRUNED = 77, OMPSIM_DEADLOCK = 79, OMPSIM_ENDLESS = 80, OMPSIM_BROKEN = 81 };
struct OmpShared
{
    int path[OMPSIM_PATH], arity[OMPSIM_PATH]; int pos, len; int bound; long steps, maxSteps; int threads, regions; uint64_t salt; long nnew; uint64_t fresh[OMPSIM_NEW]; char msg[4096]; bool done; size_t nseen; uint64_t table[OMPSIM_TABLE];
};
extern OmpShared* vp_omp; extern bool vp_omp_on; extern int vp_omp_threads;
void vp_omp_init(OmpShared* s);
#ifdef VP_OMP_EXPLORE
#include "vp.hh"
#include <sys/mman.h>
namespace ompsim
{
struct Stats { long schedules = 0, complete = 0, steps = 0; };
inline std::string where(unsigned long pc)
{
    char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; std::string r;
    FILE* f = popen(vp::fmt("addr2line -Cpfe '%s' %lx 2>/dev/null", self, pc - 1).c_str(), "r"); char b[1024]; if (f) { if (fgets(b, sizeof b, f)) r = b; pclose(f); }
    while (r.size() && r.back() == '\n') r.pop_back(); return r;
}
// Runs body under every schedule of its parallel regions with at most bound
// preemptions; body returns an error text.  A negative bound asks for one fixed
// order (see pick).
inline std::string explore(const std::function<std::string()>& body, int bound, Stats& st, unsigned limit = 60)
{
    static OmpShared* s = (OmpShared*)mmap(0, sizeof(OmpShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    s->len = 0;
    if (s->nseen > OMPSIM_TABLE / 8) { madvise(s->table, sizeof s->table, MADV_REMOVE); s->nseen = 0; }
    for (;;)
    {
        s->pos = 0; s->bound = bound; s->steps = 0; s->maxSteps = 200000; s->nnew = 0; s->msg[0] = 0; s->done = false; s->threads = s->regions = 0; s->salt = vp::hash(vp::st().key);
        fflush(0); pid_t p = fork();
        if (p == 0)
        {
            alarm(limit); vp_omp_init(s);
            std::string e = body(); if (e.size()) snprintf(s->msg, sizeof s->msg, "%s", e.c_str()); s->done = true; _exit(0);
        }
        int w; while (waitpid(p, &w, 0) < 0) {}
        st.schedules++; st.steps += s->steps; vp::transition(s->steps);
        for (long i = 0; i < s->nnew; i++) vp::state(s->fresh[i]);
        std::string sched; for (int i = 0; i < s->len; i++) sched += (i ? "." : "") + std::to_string(s->path[i]); sched = " (schedule " + sched + ")";
        int x = WIFEXITED(w) ? WEXITSTATUS(w) : -1; std::string m = s->msg;
        if (x == OMPSIM_RACE)
        {
            std::string out; size_t at = 0; for (size_t k; (k = m.find(" at ", at)) != std::string::npos;) { unsigned long pc = strtoul(m.c_str() + k + 4, NULL, 16); size_t e = m.find(' ', k + 4); out += m.substr(at, k - at) + " in " + where(pc); at = e; } out += m.substr(at);
            return out + sched;
        }
        if (x == OMPSIM_DEADLOCK || x == OMPSIM_ENDLESS) return m + sched;
        if (x == OMPSIM_BROKEN) { fprintf(stderr, "ompsim: %s\n", m.c_str()); exit(3); }
        if (WIFSIGNALED(w)) return (WTERMSIG(w) == SIGALRM ? std::string("the run does not finish") : vp::fmt("the run is ended by signal %d", WTERMSIG(w))) + sched;
        if (x != OMPSIM_PRUNED)
        {
            if (!s->done) return vp::fmt("the run ends with status %d", x) + sched;
            st.complete++; vp::trace(); if (m.size()) return m + sched;
        }
        int n = s->pos; s->len = n;
        while (s->len > 0 && s->path[s->len - 1] + 1 >= s->arity[s->len - 1]) s->len--;
        if (s->len == 0) return "";
        s->path[s->len - 1]++;
        if (vp::late()) { vp::count("explorations_cut_short"); return ""; }
    }
}
}
#endif
#endif
