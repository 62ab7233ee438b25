// C02: every schedule of the program's event loop under OpenMP.
#include "runmap.hh"
#include "ompsim/ompsim.hh"
using namespace vp; using namespace run;
extern "C" int omp_get_level();
static double uConst = 0.3; static long zk = 0;

// contents of a file, event by event, in a form that does not depend on the order of events and tracks
static std::string canon(const Cfg& c, const H5Map& m, std::string& out)
{
    std::vector<std::string> all; auto bytes = [](const double* v, size_t n) { return std::string((const char*)v, n * sizeof(double)); };
    std::map<std::string, std::map<int, std::vector<std::string>>> ev; std::map<std::string, std::map<int, int>> prim; std::map<std::string, std::string> track;
    for (auto& d : m)
    {
        const std::string& n = d.first; const DSet& s = d.second;
        if (n.compare(0, 24, "Particles/ParticleSource") == 0)
        {
            size_t k = n.rfind('/'); std::string g = n.substr(0, k), t = n.substr(k + 1); if (s.dims.size() != 2 || s.dims[1] != 8) return n + " is no table of eight columns";
            for (size_t i = 0; i < s.dims[0]; i++) { int id = (int)s.v[8 * i]; ev[g][id].push_back(t + bytes(&s.v[8 * i + 1], 7)); if (t == "Primary") prim[g][id]++; }
        }
        else if (n.compare(0, 23, "Particles/ParticleTrack") == 0) { size_t k = n.rfind('/'); track[n.substr(0, k)] += n.substr(k) + fmt("%zu", s.v.size()) + bytes(s.v.data(), s.v.size()); }
        else all.push_back(n + bytes(s.v.data(), s.v.size()));
    }
    for (auto& g : ev) for (auto& e : g.second) { if (prim[g.first][e.first] != 1) return g.first + fmt(": event %d has %d primaries", e.first, prim[g.first][e.first]); std::sort(e.second.begin(), e.second.end()); std::string s = g.first; for (auto& r : e.second) s += r; all.push_back(s); }
    for (auto& t : track) all.push_back("track" + t.second);
    std::sort(all.begin(), all.end()); out.clear(); for (auto& s : all) out += fmt("%zu:", s.size()) + s; (void)c; return "";
}
static std::string runOnce(const Cfg& c, H5Map& m)
{
    zk = 0; vp::rng().u = [] { return uConst; }; vp::rng().z = [] { return omp_get_level() ? 0.0 : (zk++, std::sin(1.7 * zk) * 1.3); };
    return cli(c, m);
}
// names what differs between a run and the sequential one
static std::string differs(const H5Map& a, const H5Map& b)
{
    for (auto& d : b) { auto i = a.find(d.first); if (i == a.end()) return "no " + d.first; if (i->second.dims != d.second.dims) return d.first + " has another size than in a sequential run"; if (d.first.compare(0, 9, "Histogram") == 0) for (size_t k = 0; k < d.second.v.size(); k++) if (i->second.v[k] != d.second.v[k]) return d.first + fmt(" number %zu is %g instead of %g", k, i->second.v[k], d.second.v[k]); }
    for (auto& d : a) if (!b.count(d.first)) return "unexpected " + d.first;
    for (auto& d : b) if (d.first.size() > 8 && d.first.substr(d.first.size() - 8) == "/Primary")
        for (size_t i = 0; i < d.second.dims[0]; i++)
        {
            bool ok = false; auto& o = a.at(d.first); for (size_t k = 0; k < o.dims[0] && !ok; k++) ok = !memcmp(&o.v[8 * k + 1], &d.second.v[8 * i + 1], 56);
            if (!ok) return d.first + fmt(" lacks the primary of row %zu of a sequential run", i);
        }
    return "the events or tracks hold other data than in a sequential run";
}
static ompsim::Stats stats; static char* shm; static const size_t SHM = 32 << 20;
static void one(const Cfg& c, int threads, int bound, const std::string& name)
{
    if (!vp::begin(fmt("threads=%d ", threads) + name + fmt(" preemptions=%d", bound))) return;
    // the sequential run, itself against the reference simulation
    std::string* ref = new std::string; H5Map refMap; memset(shm, 0, 4096);
    int w = forked([&] {
        vp_omp_threads = 1; H5Map m; std::string e = runOnce(c, m), k; bool all = true; for (auto& s : c.src) all = all && s.output;
        if (e.empty()) e = canon(c, m, k);
        if (e.empty() && all) try { std::vector<std::vector<Part>> pr; e = primariesOf(c, m, uConst, pr); if (e.empty()) { Out o = simulate(c, pr, uConst); e = compare(c, m, o); }
            for (auto& s : pr) for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) if (e.empty() && ref::len(s[i].x - s[j].x) == 0 && ref::len(s[i].p - s[j].p) == 0) e = fmt("events %zu and %zu start with the same primary", j, i); } catch (ref::Beyond&) { _exit(5); }
        for (auto& d : m) { if (d.first.find("/Positrons") != std::string::npos) shm[3990] = 1; if (d.first.find("/Photons") != std::string::npos) shm[3991] = 1; if (d.first.find("/Electrons") != std::string::npos) shm[3992] = 1; }
        snprintf(shm, 3980, "%s", e.c_str()); *(size_t*)(shm + 4000) = k.size(); if (k.size() + 4096 > SHM) _exit(6); memcpy(shm + 4096, k.data(), k.size()); return 0; }, 60);
    if (w == -2 || WIFSIGNALED(w)) { fail("the run with one thread does not finish or crashes"); return; }
    if (WEXITSTATUS(w) == 5) { count("beyond_the_tables"); return; }
    if (WEXITSTATUS(w)) { fail(fmt("the run with one thread ends with status %d", WEXITSTATUS(w))); return; }
    if (shm[0]) { fail(std::string("one thread: ") + shm); return; }
    count("configurations_with_positrons", shm[3990]); count("configurations_with_photons", shm[3991]); count("configurations_with_electrons", shm[3992]);
    ref->assign(shm + 4096, *(size_t*)(shm + 4000));
    std::string e = ompsim::explore([&]() -> std::string {
        vp_omp_threads = threads; H5Map m; std::string e = runOnce(c, m), k; if (e.empty()) e = canon(c, m, k); if (e.size()) return e;
        if (k == *ref) return ""; vp_omp_on = false; vp_omp_threads = 1; H5Map s; e = runOnce(c, s); return e.size() ? e : differs(m, s); }, bound, stats);
    if (e.size()) fail(e);
    distinct(hash(*ref)); delete ref; count("schedules", 0);
}
static Cfg cfg(int events, int srcs, int nh, bool track, const std::string& model, bool pairs, int steps)
{
    Cfg c; c.field = "static"; c.B = V(0, 2e-3, 0); c.E = V(1e-5, 0, 0); c.dt = 2e3; c.end = steps * 2e3 - 1e3; c.model = model; c.track = track; c.pairs = pairs; c.eMin = 1;
    for (int s = 0; s < srcs; s++) { Source q; q.type = s % 2 ? "photon" : "electron"; q.distro = "gaussian"; q.e1 = 1500; q.e2 = 50; q.n = events; q.radius = 100; q.dur = 10; q.div = 1e-3; c.src.push_back(q); }
    for (int h = 0; h < nh; h++) { Histo q; q.particle = h == 1 ? "Photon" : "Electron"; q.type = h == 0 ? "x" : "energy"; q.time = h == 0 ? 0 : h == 1 ? 1e9 : 2e3; q.bins = 4; q.lo = h ? 0 : -300; q.hi = h ? 1600 : 300; c.hist.push_back(q); }
    return c;
}
int main()
{
    tune(); init(); shm = (char*)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bool T = thorough();
    for (const char* m : {"Quantum", "Classical", "Semiclassical"}) for (int th = 2; th <= (T ? 4 : 3); th++) for (int ev = 0; ev <= (T ? 5 : 4); ev++) for (int nh = 0; nh <= 2; nh++) for (int tr = 0; tr < 2; tr++)
    {
        if (!T && *m != 'Q' && (nh != 2 || ev != 3)) continue;
        int bound = T ? (th == 2 ? 3 : 2) : th == 2 && ev <= 2 ? 2 : 1;
        one(cfg(ev, 1, nh, tr, m, *m == 'Q', 2), th, bound, fmt("%s events=%d histograms=%d track=%d", m, ev, nh, tr));
    }
    // several sources, output off, many threads, more steps
    for (int th : {2, 3}) for (int out = 0; out < 4; out++) { Cfg c = cfg(2, 2, 1, true, "Quantum", true, 2); c.src[0].output = out & 1; c.src[1].output = out & 2; one(c, th, T ? 2 : 1, fmt("two sources output=%d", out)); }
    for (int th : {4, 8}) one(cfg(T ? 4 : 3, 1, 1, true, "Quantum", true, 1), th, th == 8 && !T ? 0 : 1, "more threads than events");
    for (int th : {9, 24}) for (int ev : {th - 2, 2 * th + 1}) for (int order = -4; order < 0; order++) one(cfg(ev, 1, 2, true, "Quantum", true, 2), th, order, fmt("many threads, %d events", ev));
    one(cfg(3, 1, 3, true, "Quantum", true, 4), 2, 1, "more steps");
    for (const char* f : {"plane", "gaussian", "focusing"}) { Cfg c = cfg(2, 1, 1, true, "Quantum", true, 3); c.field = f; c.maxE = 2e-3; c.wl = 1.5e6; c.tau = 3e6; c.waist = 6e6; c.start = V(0, 0, 1e5); c.focus = V(0, 0, 0); c.dir = V(0, 0, -1); one(c, 2, 1, f); }
    // photons that convert in the same steps, photons that are recorded by a continuous model
    for (double u : {0.01, 0.02}) for (int th : {2, 3}) for (int steps : {1, 3})
    {
        uConst = u; Cfg c = cfg(3, 1, 2, true, "Quantum", true, steps); c.B = V(0, 1.3e-3, 0); c.dt = 2e4; c.end = (steps - 0.5) * c.dt; c.src[0].type = "photon"; c.src[0].e1 = 6000; c.src[0].e2 = 400; c.hist[0].particle = "Positron"; c.hist[0].type = "px"; c.hist[0].time = 1e9; one(c, th, 1, fmt("pairs draws=%g steps=%d", u, steps));
        for (const char* m : {"Classical", "Semiclassical", "Quantum"}) { Cfg d = cfg(3, 1, 2, true, m, true, steps); d.eMin = 0; d.src[0].e2 = 300; one(d, th, 1, fmt("photons %s draws=%g steps=%d", m, u, steps)); }
    }
    uConst = 0.3;
    // every schedule, without a limit on preemptions
    for (int tr = 0; tr < 2; tr++) one(cfg(2, 1, 0, tr, "Quantum", true, 1), 2, 1000, fmt("two events track=%d", tr));
    one(cfg(2, 1, 1, true, "Classical", false, 1), 2, 1000, "two events, histogram and tracks");
    if (T) { one(cfg(3, 1, 1, true, "Classical", false, 1), 2, 1000, "three events, histogram and tracks"); one(cfg(3, 1, 0, true, "Classical", false, 1), 3, 1000, "three events, tracks"); }
    for (double u : {0.02, 0.9}) { uConst = u; one(cfg(3, 1, 2, true, "Quantum", true, 3), 2, 1, fmt("draws=%g", u)); }
    count("schedules", stats.schedules); count("complete_schedules", stats.complete); count("scheduling_steps", stats.steps);
    return finish();
}
