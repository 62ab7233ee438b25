// C01: every schedule of parallel runs of the Python module.
#include "pymap.hh"
#include "ompsim/ompsim.hh"
#include <sys/mman.h>
using namespace vp; using namespace run;
extern "C" int omp_get_level();
static double uConst = 0.3; static long zk = 0;
static ompsim::Stats stats; static char* shm; static const size_t SHM = 8 << 20;

static std::vector<std::string> sorted(const Rows& r)
{ std::vector<std::string> v; for (size_t i = 0; i < r.n; i++) v.push_back(std::string((const char*)(r.v.data() + i * r.cols), r.cols * sizeof(double))); std::sort(v.begin(), v.end()); return v; }
static std::string canon(const PyRes& r)
{ std::string s; for (const Rows* t : {&r.in, &r.el, &r.po, &r.ph}) { s += fmt("[%zu %zu]", t->n, t->cols); for (auto& x : sorted(*t)) s += x; } return s; }
static std::string differs(const PyRes& a, const PyRes& b)
{
    const char* N[] = {"input", "electrons", "positrons", "photons"}; const Rows* A[] = {&a.in, &a.el, &a.po, &a.ph}, *B[] = {&b.in, &b.el, &b.po, &b.ph};
    for (int t = 0; t < 4; t++)
    {
        if (A[t]->n != B[t]->n || A[t]->cols != B[t]->cols) return std::string(N[t]) + fmt(" has %zu rows instead of %zu", A[t]->n, B[t]->n);
        auto x = sorted(*A[t]), y = sorted(*B[t]); std::vector<std::string> d; std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(d));
        if (d.size()) { const double* q = (const double*)d[0].data(); return std::string(N[t]) + fmt(" lacks %zu rows of the run with one thread (p %.9g %.9g %.9g, x %.9g %.9g %.9g)", d.size(), q[0], q[1], q[2], q[3], q[4], q[5]); }
    }
    return "";
}
static void draws() { zk = 0; vp::rng().u = [] { return uConst; }; vp::rng().z = [] { return omp_get_level() ? 0.0 : (zk++, std::sin(1.7 * zk) * 1.3); }; }
static void settings(py::object m, const Cfg& c) { pyTime(m, c); pyField(m, c); pyPhysics(m, c); m.attr("setSampleFraction")(c.frac); m.attr("usePairProduction")(c.pairs); pyGen(m, c.src[0]); }
struct Beam { int events, threads; };
static void one(const Cfg& c, const std::vector<Beam>& beams, int bound, std::string name)
{
    std::string key; for (auto& b : beams) key += fmt("%d/%d ", b.events, b.threads); key += name + fmt(" preemptions=%d", bound);
    if (!vp::begin(key)) return;
    std::map<int, std::string> ref;
    for (auto& b : beams)
    {
        if (ref.count(b.events)) continue; memset(shm, 0, 4096);
        int w = forked([&] {
            draws(); py::object m = pyManager(); settings(m, c); m.attr("beamOn")(b.events, 1); PyRes r = pyResults(m); std::string e, k = canon(r); std::vector<Part> pr; Cfg d = c; d.src[0].n = b.events;
            try
            {
                if (r.in.n != (size_t)b.events) e = fmt("%zu primaries instead of %d", r.in.n, b.events);
                if (e.empty() && b.events) { e = pyPrimaries(c, r.in, uConst, pr); if (e.empty()) { Out o = simulate(d, {pr}, uConst); e = pyCompare(d, r, o);
                    for (int k = 0; k < 3; k++) { int with = 0; for (auto& ev : o.ev[0]) with += std::any_of(ev.p.begin(), ev.p.end(), [k](const Part& p) { return p.alive && p.kind == k; }); shm[3985 + k] = with && with < b.events; } } }
                for (size_t i = 0; i < pr.size() && e.empty(); i++) for (size_t j = 0; j < i; j++) if (ref::len(pr[i].x - pr[j].x) == 0 && ref::len(pr[i].p - pr[j].p) == 0) e = fmt("primaries %zu and %zu are the same", j, i);
            } catch (ref::Beyond&) { _exit(5); }
            shm[3990] = r.po.n > 1;  shm[3991] = r.ph.n > 1; shm[3992] = r.el.n > 1;
            snprintf(shm, 3900, "%s", e.c_str()); *(size_t*)(shm + 4000) = k.size(); if (k.size() + 4096 > SHM) _exit(6); memcpy(shm + 4096, k.data(), k.size()); return 0; }, 60);
        if (w == -2 || WIFSIGNALED(w)) { fail("the run with one thread does not finish or crashes"); return; }
        if (WEXITSTATUS(w) == 5) { count("beyond_the_tables"); return; }
        if (WEXITSTATUS(w)) { fail(fmt("the run with one thread ends with status %d", WEXITSTATUS(w))); return; }
        if (shm[0]) { fail(std::string("one thread: ") + shm); return; }
        count("configurations_with_positrons", shm[3990]); count("configurations_with_photons", shm[3991]); count("configurations_with_electrons", shm[3992]);
        for (int k = 0; k < 3; k++) count(fmt("mixed_%s", k == ref::PHOTON ? "photons" : k == ref::ELECTRON ? "electrons" : "positrons"), shm[3985 + k]);
        ref[b.events].assign(shm + 4096, *(size_t*)(shm + 4000)); distinct(hash(ref[b.events]));
    }
    std::string e = ompsim::explore([&]() -> std::string {
        py::object m = pyManager(); settings(m, c);
        for (size_t i = 0; i < beams.size(); i++)
        {
            draws(); m.attr("beamOn")(beams[i].events, beams[i].threads); PyRes r = pyResults(m); if (canon(r) == ref[beams[i].events]) continue;
            vp_omp_on = false; draws(); m.attr("beamOn")(beams[i].events, 1); std::string e = differs(r, pyResults(m)); return fmt("run %zu: ", i + 1) + (e.empty() ? "other rows than in a run with one thread" : e);
        }
        return ""; }, bound, stats);
    if (e.size()) fail(e);
}
static Cfg cfg(const std::string& f, const std::string& model, bool pairs, const std::string& type, int steps)
{
    Cfg c; c.field = f; c.maxE = 2e-3; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6; c.start = V(1e4, -2e4, 9e4); c.focus = V(3e3, 1e3, -2e3); c.dt = 2e4; c.end = (steps - 0.5) * c.dt; c.model = model; c.pairs = pairs;
    Source s; s.type = type; s.distro = "gaussian"; s.e1 = type == "photon" ? 6000 : 1500; s.e2 = 50; s.radius = 1e4; s.dur = 1e4; s.div = 0.01; s.pos = V(1e4, -2e4, -1e4); s.dir = V(0.1, 0.2, 1); c.src.push_back(s); return c;
}
int main()
{
    tune(); init(); pyInit(); shm = (char*)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bool T = thorough();
    // events and threads, few preemptions
    for (int th = 2; th <= (T ? 5 : 4); th++) for (int ev = 0; ev <= (T ? 6 : 5); ev++)
        for (const char* m : {"Quantum", "Classical", "Semiclassical"}) { if (!T && *m != 'Q' && (ev != 3 || th > 2)) continue; one(cfg("gaussian", m, *m == 'Q', "electron", 2), {{ev, th}}, T ? (th == 2 ? 5 : 3) : th <= 3 || ev <= 3 ? 2 : 1, m); }
    for (int ev : {1, 3}) one(cfg("gaussian", "Quantum", true, "electron", 1), {{ev, 8}}, 1, "more threads than events");
    for (int th : {9, 17, 24}) for (int ev : {th - 2, th, 2 * th + 1}) for (int order = -4; order < 0; order++) { Cfg c = cfg("gaussian", "Quantum", true, "electron", 2); one(c, {{ev, th}}, order, "many threads"); one(c, {{ev, th}, {3, 2}}, order, "many threads, then few"); }
    // species, fields, draws, steps
    for (const char* f : {"gaussian", "focusing"}) for (const char* s : {"electron", "positron", "photon"}) for (double u : {0.2, 0.3, 0.9}) { uConst = u; one(cfg(f, "Quantum", true, s, 4), {{3, 2}}, 1, fmt("%s %s draws=%g", f, s, u)); }
    // some events leave a species empty and others do not
    for (const char* s : {"electron", "positron", "photon"}) for (double u : {0.05, 0.2, 0.3, 0.9}) for (double r : {4e6, 1.2e7}) for (Beam b : {Beam{3, 3}, Beam{4, 2}, Beam{6, 2}})
    { uConst = u; Cfg c = cfg("gaussian", "Quantum", true, s, 4); c.src[0].radius = r; c.src[0].dur = 3e6; one(c, {b}, 1, fmt("mixed events %s draws=%g radius=%g", s, u, r)); }
    uConst = 0.3; one(cfg("gaussian", "Quantum", true, "electron", T ? 12 : 6), {{2, 2}}, 2, "more steps");
    // runs one after the other on a manager
    std::vector<Beam> B = {{2, 2}, {1, 2}, {3, 2}, {0, 2}, {2, 1}, {2, 3}}; Cfg q = cfg("gaussian", "Quantum", true, "electron", 2); q.src[0].e1 = 1600;
    for (auto& a : B) for (auto& b : B) { one(q, {a, b}, 1, "two runs"); if (T) for (auto& d : B) one(q, {a, b, d}, 1, "three runs"); }
    // every schedule, without a limit on preemptions
    for (int ev = 1; ev <= (T ? 5 : 4); ev++) for (int th = 2; th <= 4; th++) { if (!T && ev + th > 6) continue; one(cfg("gaussian", "Quantum", true, "electron", 1), {{ev, th}}, 1000, "all schedules"); }
    one(cfg("gaussian", "Classical", false, "electron", 2), {{4, 2}}, 1000, "all schedules"); if (T) one(cfg("gaussian", "Quantum", true, "photon", 2), {{4, 2}, {3, 2}}, 1000, "all schedules");
    count("schedules", stats.schedules); count("complete_schedules", stats.complete); count("scheduling_steps", stats.steps);
    return finish();
}
