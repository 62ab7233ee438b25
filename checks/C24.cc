// C24: memory.  Everything runs under the address sanitizer; live objects are
// counted, so that what a run, an event or a step keeps is seen.
#include "pymap.hh"
#include <new>
#include <atomic>
using namespace vp; using namespace run;

static std::atomic<long> live{0};
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); live++; return p; }
static void put(void* p) { if (p) { live--; free(p); } }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

static Cfg base(const std::string& f)
{
    Cfg c; c.field = f; c.E = V(8e-4, 3e-4, 1e-4); c.B = V(1e-4, -2e-4, 3e-5); c.maxE = 8e-4; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6;
    c.start = V(1e5, -2e5, 9e5); c.focus = V(3e4, 1e4, -2e4); c.dir = V(0.1, -0.2, -1); c.dt = 3e4; c.end = 1.2e5;
    Source s; s.e1 = 1500; s.pos = V(1e4, -2e4, -1e5); s.dir = V(0.1, 0.2, 1); c.src.push_back(s); return c;
}
// Objects a command-line run leaves behind
static long left(const Cfg& c, double u, std::string& e) { rng_const(u, 0.4); H5Map m; std::string x; long a, b; { H5Map o; a = live; x = cli(c, o); } b = live; if (x.size()) e = x; return b - a; }
static void commandLine(bool T)
{
    const char* F[] = {"static", "plane", "gaussian", "focusing"}; const char* M[] = {"Quantum", "Classical", "Semiclassical"}; const char* S[] = {"electron", "positron", "photon"};
    for (int f = 0; f < 4; f++) for (int m = 0; m < 3; m++) for (int s = 0; s < 3; s++) for (int o = 0; o < 8; o++)
    {
        if (!begin(fmt("QEDCASC %s %s %s %s%s%s", F[f], M[m], S[s], o & 1 ? "output " : "", o & 2 ? "tracks " : "", o & 4 ? "histograms" : ""))) continue;
        for (double u : T ? std::vector<double>{0.05, 0.3, 0.97} : std::vector<double>{0.05}) for (int pairs = T ? 0 : 1; pairs < 2; pairs++) for (int rec = 0; rec < 3; rec++)
        {   // recorded, not sampled and below the minimum energy
            if (!T && rec && o != 0 && o != 7) continue;
            Cfg c = base(F[f]); c.model = M[m]; c.pairs = pairs; c.frac = rec == 1 ? 0.02 : 1; c.eMin = rec == 2 ? 1e6 : 0; Source& q = c.src[0]; q.type = S[s]; q.output = o & 1; c.track = o & 2; if (s == 2) q.e1 = 4500; q.radius = 1e4; q.div = 0.01;
            if (o & 4) { c.hist.resize(3); c.hist[0].name = "a"; c.hist[0].bins = 2; c.hist[0].hi = 3000; c.hist[1].name = "b"; c.hist[1].particle = "Photon"; c.hist[1].type = "px"; c.hist[1].lo = -100; c.hist[1].hi = 100; c.hist[1].time = 6e4; c.hist[2].name = "c"; c.hist[2].particle = "Positron"; c.hist[2].type = "Z"; c.hist[2].lo = -3e5; c.hist[2].hi = 3e5; c.hist[2].time = 1e9; }
            if (s == 1) { Source p = q; p.type = "photon"; p.e1 = 4500; c.src.push_back(p); }
            try { c.src[0].n = 1; Out w = simulate(c, primaries(c, u, 0.4), u); for (auto& x : w.ev) for (auto& y : x) for (auto& z : y.p) if (z.alive) count(fmt("decks: final particles of kind %d", z.kind)); } catch (ref::Beyond&) { count("beyond_the_tables"); continue; }
            auto at = [&](int n, int steps, std::string& e) { Cfg d = c; for (auto& p : d.src) p.n = n; d.end = (steps + 0.5) * d.dt; transition(n * steps); return left(d, u, e); };
            std::string e; at(2, 1, e); if (at(0, 2, e), e.size()) { fail(e + "\n" + deck(c)); break; }
            long n2 = at(2, 2, e), n3 = at(3, 2, e), n5 = at(5, 2, e); if (e.size()) { fail(e); break; }
            if (n3 > n2 && n5 > n3) { fail(fmt("events leave objects behind: 2, 3 and 5 events leave %ld, %ld and %ld\n", n2, n3, n5) + deck(c)); break; }
            long s1 = at(2, 1, e), s4 = at(2, 4, e); if (s4 > n2 && n2 > s1) { fail(fmt("steps leave objects behind: 1, 2 and 4 steps leave %ld, %ld and %ld\n", s1, n2, s4) + deck(c)); break; }
            state(hash(fmt("%d %d %d %d %g %d %d %ld", f, m, s, o, u, pairs, rec, n2))); count("objects_kept_at_the_end_" + std::to_string(n2 / 100) + "xx"); trace(6);
        }
    }
}
// Long words in a deck, each in its own process
static void words(bool T)
{
    int lens[2][2] = {{T ? 30 : 44, 56}, {T ? 180 : 192, 206}};
    for (int what = 0; what < 8; what++) for (int line = 0; line < 2; line++)
    {
        if (!begin(fmt("long words %d, %s", what, line ? "long lines" : "long names"))) continue;
        for (int n = lens[line][0]; n <= lens[line][1]; n++) for (int end = 0; end < 3; end++)
        {
            std::string w(n, 'w'), d = deck(base("static"), tmp() + "/w.h5"), x, nl = end ? "\r\n" : "\n";
            switch (what) { case 0: x = "[" + w + "]" + nl + "a = 1"; break; case 1: x = w + " = 1"; break; case 2: x = "key = " + w; break; case 3: x = "; " + w; break; case 4: x = "key = 1" + nl + "  " + w; break; case 5: x = "[" + w; break; case 6: x = w; break; case 7: x = w + " ; comment"; }
            d = end == 2 ? d + x : d + x + nl; run::write(tmp() + "/w.ini", d); std::string file = tmp() + "/w.ini"; fflush(0);
            pid_t p = fork(); if (!p) { char a0[] = "QEDCASC", *av[] = {a0, (char*)file.c_str(), NULL}; rng_const(0.05, 0.4); int r = qedcasc_main(2, av); fflush(0); _exit(r); }
            int st; waitpid(p, &st, 0); transition(); if (!WIFEXITED(st)) { fail(fmt("a word of %d letters ends the program by signal %d", n, WTERMSIG(st))); return; }
            count(WEXITSTATUS(st) ? "decks_refused" : "decks_run");
        }
        trace();
    }
}
struct Op { const char* n; std::function<void(py::object&)> f; };
static std::vector<Op> ops()
{
    static Cfg A = base("gaussian"), B = base("focusing"), P = base("gaussian"); A.maxE = P.maxE = 6e-4; B.maxE = 7e-4; P.src[0].type = "photon"; P.src[0].e1 = 5500;
    auto quiet = [](std::function<void(py::object&)> f) { return [=](py::object& m) { try { f(m); } catch (py::error_already_set&) {} }; };
    std::vector<Op> o;
    o.push_back({"beamOn 1", quiet([](py::object& m) { m.attr("beamOn")(1); })}); o.push_back({"beamOn 3", quiet([](py::object& m) { m.attr("beamOn")(3); })});
    o.push_back({"beamOn 0", quiet([](py::object& m) { m.attr("beamOn")(0); })}); o.push_back({"beamOn -1", quiet([](py::object& m) { m.attr("beamOn")(-1); })});
    for (const char* p : {"Quantum", "classical", "Semiclassical", "none"}) o.push_back({p, quiet([p](py::object& m) { m.attr("setPhysics")(p); })});
    o.push_back({"pairs on", quiet([](py::object& m) { m.attr("usePairProduction")(true); })}); o.push_back({"pairs off", quiet([](py::object& m) { m.attr("usePairProduction")(false); })});
    o.push_back({"gaussian field", quiet([](py::object& m) { pyField(m, A); })}); o.push_back({"focusing field", quiet([](py::object& m) { pyField(m, B); })}); o.push_back({"field without width", quiet([](py::object& m) { Cfg c = A; c.waist = 0; pyField(m, c); })});
    o.push_back({"electrons", quiet([](py::object& m) { pyGen(m, A.src[0]); })}); o.push_back({"photons", quiet([](py::object& m) { pyGen(m, P.src[0]); })}); o.push_back({"protons", quiet([](py::object& m) { Source s = A.src[0]; s.type = "proton"; pyGen(m, s); })});
    o.push_back({"setTime", quiet([](py::object& m) { pyTime(m, A); })}); o.push_back({"setTime zero", quiet([](py::object& m) { m.attr("setTime")(0, 1); })}); for (double x : {1.0, 0.02}) o.push_back({x == 1 ? "all photons" : "few photons", quiet([x](py::object& m) { m.attr("setSampleFraction")(x); })});
    o.push_back({"results", quiet([](py::object& m) { PyRes r = pyResults(m); if (r.el.n) count("results_with_electrons"); if (r.po.n) count("results_with_positrons"); if (r.ph.n) count("results_with_photons"); })}); o.push_back({"new manager", [](py::object& m) { m = py::none(); m = pyManager(); }});
    return o;
}
static void python(bool T)
{
    py::module_ gc = py::module_::import("gc"); std::vector<Op> o = ops(); Cfg A = base("gaussian"); A.maxE = 6e-4; int n = o.size();
    auto measure = [&](py::object& m, const std::vector<int>& s) { for (int i : s) { o[i].f(m); transition(); } gc.attr("collect")(); return (long)live; };
    auto ready = [&](py::object& m) { m = pyManager(); pyTime(m, A); pyField(m, A); m.attr("setPhysics")("Quantum"); pyGen(m, A.src[0]); m.attr("usePairProduction")(true); };
    auto seq = [&](const std::vector<int>& s, bool one) {   // the same calls again and again, with a run each time
        std::string txt; for (int i : s) txt += std::string(txt.empty() ? "" : ", ") + o[i].n; rng_const(0.05, 0.4); py::object m; long a[5]; { ready(m); m.attr("beamOn")(1); }
        std::vector<int> t = s; if (one) { t.push_back(0); }
        for (int r = 0; r < 5; r++) a[r] = measure(m, t);
        if (a[2] > a[1] && a[3] > a[2] && a[4] > a[3]) { fail(txt + (one ? " and a run" : "") + fmt(", again and again: %ld, %ld, %ld and %ld more objects remain", a[1] - a[0], a[2] - a[1], a[3] - a[2], a[4] - a[3])); return; }
        state(hash(txt) + one); trace(); };
    for (int i = 0; i < n; i++)
    {
        if (!begin(std::string("QEDCascPy: ") + o[i].n)) continue;
        seq({i}, false); seq({i}, true);
        for (int j = 0; j < n; j++) { seq({i, j}, false); seq({i, j}, true); if (T) for (int k = 0; k < n; k++) seq({i, j, k}, false); }
    }
    // managers that are dropped, alone and beside another
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j += T ? 1 : 4)
    {
        if (!begin(std::string("QEDCascPy, a manager that is dropped after ") + o[i].n + ", " + o[j].n)) continue;
        long a[5]; py::object keep; ready(keep); rng_const(0.05, 0.4);
        for (int r = 0; r < 5; r++) { { py::object m; ready(m); o[i].f(m); o[j].f(m); if (r % 2) keep.attr("beamOn")(1); transition(3); } gc.attr("collect")(); a[r] = live; }
        if (a[2] > a[1] && a[3] > a[2] && a[4] > a[3]) fail(fmt("%ld, %ld and %ld more objects remain each time", a[2] - a[1], a[3] - a[2], a[4] - a[3])); else trace();
    }
}
int main()
{
    init(false); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul); pyInit(); bool T = thorough();
    commandLine(T); words(T); python(T); return finish();
}
