// C21: sequences of calls of the Python module against a model of its settings
// and results; every step is followed by reading all results of all managers.
#include "pymap.hh"
#include <sys/mman.h>
using namespace vp; using namespace run;

struct Model
{
    bool time = false, timeOk = false, field = false, phys = false, gen = false; Cfg c; PyRes res; Out out; bool ran = false; int events = 0;
    Model() { c.src.resize(1); c.frac = 1; c.pairs = false; }
};
static std::map<std::string, Out> memo;
static const double U = 0.2, Z = 0.4;
static const Out& expected(Cfg c, int n)
{
    c.src[0].n = n; std::string k = deck(c); auto it = memo.find(k); if (it != memo.end()) return it->second;
    return memo[k] = simulate(c, primaries(c, U, Z), U);
}
static Cfg cfgA() { Cfg c; c.field = "gaussian"; c.maxE = 2e-3; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6; c.start = V(1e5, -2e5, 9e5); c.focus = V(3e4, 1e4, -2e4); c.dt = 3e4; c.end = 1.2e5; Source s; s.e1 = 1500; s.pos = V(1e4, -2e4, -1e5); s.dir = V(0.1, 0.2, 1); c.src = {s}; return c; }
static Cfg cfgB() { Cfg c = cfgA(); c.field = "Focusing"; c.maxE = 3e-3; c.wl = 9e5; c.pol = -1; c.waist = 4e6; c.start = V(0, 0, 7e5); c.focus = V(0, 1e4, 0); c.dt = 4e4; c.end = 0.7e5; Source& s = c.src[0]; s.type = "Photon"; s.e1 = 7000; s.e2 = 100; s.distro = "gaussian"; s.radius = 1e4; s.dur = 2e4; s.div = 0.01; s.pos = V(0, 3e4, 0); s.dir = V(0, 0, 1); return c; }
static int capture;
static long said() { fflush(0); std::cout.flush(); std::cerr.flush(); return lseek(capture, 0, SEEK_END); }

struct Op { std::string name; std::function<void(py::object, Model&, std::string&)> f; };
static void noThrow(std::string& err, const std::function<void()>& f) { try { f(); } catch (py::error_already_set& e) { err = std::string("raises ") + e.what(); } }
// a call that is refused says so
static void refuse(std::string& err, const std::function<void()>& f) { long a = said(); bool thrown = false; try { f(); } catch (py::error_already_set&) { thrown = true; } if (!thrown && said() == a) err = "is refused without a message"; }
static void beam(py::object m, Model& k, std::string& err, int n, int threads = 1, bool give = true)
{
    rng_const(U, Z); auto call = [&] { if (give) m.attr("beamOn")(n, threads); else m.attr("beamOn")(n); };
    if (n < 0 || threads != 1 || !k.timeOk || !k.field || !k.phys || !k.gen) { refuse(err, call); return; }
    noThrow(err, call); k.ran = true; k.out = expected(k.c, n); k.events = n;
}
static std::vector<Op> ops(bool T)
{
    std::vector<Op> o; static Cfg A = cfgA(), B = cfgB();
    auto time = [](double dt, double end, bool ok) { return [=](py::object m, Model& k, std::string& e) { noThrow(e, [&] { m.attr("setTime")(dt * TIME, end * TIME); }); k.timeOk = ok; k.c.dt = dt; k.c.end = end; }; };
    auto field = [](const Cfg& q, const char* name) { return [&q, name](py::object m, Model& k, std::string& e) { Cfg c = q; std::string n = name ? name : q.field; c.field = n; bool ok = !name; if (ok) noThrow(e, [&] { pyField(m, c); }); else refuse(e, [&] { pyField(m, c); }); k.field = ok; if (ok) { k.c.field = c.field; k.c.maxE = c.maxE; k.c.wl = c.wl; k.c.tau = c.tau; k.c.waist = c.waist; k.c.pol = c.pol; k.c.start = c.start; k.c.focus = c.focus; } }; };
    auto phys = [](const char* n, bool ok) { return [=](py::object m, Model& k, std::string& e) { auto f = [&] { m.attr("setPhysics")(n); }; if (ok) noThrow(e, f); else refuse(e, f); k.phys = ok; if (ok) k.c.model = n; }; };
    auto gen = [](const Cfg& q, const char* name) { return [&q, name](py::object m, Model& k, std::string& e) { Source s = q.src[0]; if (name) s.type = name; bool ok = !name; auto f = [&] { pyGen(m, s); }; if (ok) noThrow(e, f); else refuse(e, f); k.gen = ok; if (ok) k.c.src[0] = s; }; };
    auto frac = [](double x, bool ok) { return [=](py::object m, Model& k, std::string& e) { auto f = [&] { m.attr("setSampleFraction")(x); }; if (ok) { noThrow(e, f); k.c.frac = x; } else refuse(e, f); }; };
    auto pairs = [](bool on) { return [=](py::object m, Model& k, std::string& e) { noThrow(e, [&] { m.attr("usePairProduction")(on); }); k.c.pairs = on; }; };
    auto run = [](int n, int t, bool give) { return [=](py::object m, Model& k, std::string& e) { beam(m, k, e, n, t, give); }; };
    auto wrong = [](std::function<void(py::object)> f) { return [=](py::object m, Model&, std::string& e) { try { f(m); e = "accepts arguments of the wrong type"; } catch (py::error_already_set&) {} }; };
    o.push_back({"setTime A", time(A.dt, A.end, true)}); o.push_back({"setTime B", time(B.dt, B.end, true)}); o.push_back({"setTime zero step", time(0, A.end, false)});
    o.push_back({"setField A", field(A, 0)}); o.push_back({"setField B", field(B, 0)}); o.push_back({"setField unknown", field(A, "laser")});
    o.push_back({"setPhysics Quantum", phys("Quantum", true)}); o.push_back({"setPhysics classical", phys("classical", true)}); o.push_back({"setPhysics unknown", phys("QED", false)});
    o.push_back({"setGenerator A", gen(A, 0)}); o.push_back({"setGenerator B", gen(B, 0)}); o.push_back({"setGenerator unknown", gen(A, "proton")});
    o.push_back({"setSampleFraction 0.6", frac(0.6, true)}); o.push_back({"setSampleFraction 1", frac(1, true)}); o.push_back({"setSampleFraction 0", frac(0, true)}); o.push_back({"setSampleFraction 1.5", frac(1.5, false)});
    o.push_back({"pairs on", pairs(true)}); o.push_back({"pairs off", pairs(false)});
    o.push_back({"beamOn 1", run(1, 1, false)}); o.push_back({"beamOn 3", run(3, 1, true)}); o.push_back({"beamOn 0", run(0, 1, false)}); o.push_back({"beamOn -1", run(-1, 1, false)});
    o.push_back({"beamOn without threads", run(2, 0, true)}); o.push_back({"beamOn of a wrong type", wrong([](py::object m) { m.attr("beamOn")("two"); })});
    { static Cfg D = cfgA(), E = cfgA(); D.src[0].dir = V(); D.src[0].pos = V(); E.src[0].e1 = 0; E.src[0].dir = V(0, 0, -1); o.push_back({"setGenerator without direction", gen(D, 0)}); o.push_back({"setGenerator without energy", gen(E, 0)}); }
    if (T)
    {
        static Cfg W = cfgA(); W.wl = 0; o.push_back({"setField without wavelength", [](py::object m, Model& k, std::string& e) { refuse(e, [&] { pyField(m, W); }); k.field = false; }});
        o.push_back({"setTime endless", time(A.dt, INFINITY, false)}); o.push_back({"setTime past", time(A.dt, -1e5, true)}); o.push_back({"setPhysics Semiclassical", phys("Semiclassical", true)}); o.push_back({"setSampleFraction nan", frac(NAN, false)}); o.push_back({"setSampleFraction 1", frac(1, true)});
        o.push_back({"setGenerator of a wrong type", wrong([](py::object m) { m.attr("setGenerator")("electron", "mono", 1, 2); })}); o.push_back({"beamOn -3 threads", run(2, -3, true)});
    }
    return o;
}
static std::string results(py::object m, const Model& k)
{
    PyRes r; try { r = pyResults(m); } catch (py::error_already_set& e) { return std::string("reading the results raises ") + e.what(); }
    if (!k.ran) { const Rows* t[] = {&r.in, &r.el, &r.po, &r.ph}; for (int i = 0; i < 4; i++) if (t[i]->n != 0 || t[i]->cols != (i ? 7u : 6u)) return fmt("before any run array %d has shape %zu x %zu", i, t[i]->n, t[i]->cols); return ""; }
    Cfg c; c.end = 1e6; c.src.resize(1); return pyCompare(c, r, k.out);
}
static std::vector<Op> O;
static int named(const char* n) { for (size_t i = 0; i < O.size(); i++) if (O[i].name == n) return i; abort(); }
static uint64_t stateOf(const Model& k) { std::string d = fmt("%d%d%d%d%d%d ", k.timeOk, k.field, k.phys, k.gen, k.ran, k.events) + (k.timeOk ? num(k.c.dt) : "") + (k.field ? k.c.field : "") + (k.phys ? k.c.model : "") + (k.gen ? k.c.src[0].type : "") + fmt("%g%d", k.c.frac, k.c.pairs); if (k.ran) for (auto& e : k.out.ev[0]) for (auto& p : e.p) if (p.alive) d += fmt("%d%.6g ", p.kind, p.p[2]); return hash(d); }
// Runs one sequence of (manager, operation); a run at the end shows the settings
static void sequence(const std::vector<std::pair<int, int>>& s, int managers, size_t from)
{
    std::vector<py::object> m; std::vector<Model> k(managers); std::string txt; for (int i = 0; i < managers; i++) m.push_back(pyManager());
    if (ftruncate(capture, 0)) {} lseek(capture, 0, SEEK_SET);
    auto step = [&](int w, const Op& o, bool look) {
        std::string e; txt += (txt.empty() ? "" : ", ") + (managers > 1 ? fmt("%d:", w) : "") + o.name; o.f(m[w], k[w], e); transition(); state(stateOf(k[w]));
        if (e.empty() && look) for (int j = 0; j < managers && e.empty(); j++) { e = results(m[j], k[j]); if (e.size() && managers > 1) e = fmt("manager %d: ", j) + e; }
        if (e.size()) fail(txt + ": " + e); return e.empty(); };
    for (size_t i = 0; i < s.size(); i++) if (!step(s[i].first, O[s[i].second], i + 1 >= from)) return;
    static int one = named("beamOn 1"); for (int j = 0; j < managers; j++) if (!step(j, O[one], true)) return;
    trace();
}
// all mixtures of the settings stay within the tables
static void mixtures()
{
    if (!begin("mixtures of the settings")) return;
    Cfg A = cfgA(), B = cfgB();
    for (int b = 0; b < 16; b++) for (const char* m : {"Quantum", "classical", "Semiclassical"}) for (double f : {1.0, 0.6, 0.0})
    {
        Cfg c = b & 2 ? B : A; c.dt = b & 1 ? B.dt : A.dt; c.end = b & 1 ? B.end : A.end; c.src = b & 4 ? B.src : A.src; c.pairs = b & 8; c.model = m; c.frac = f;
        try { const Out& o = expected(c, 1); for (auto& p : o.ev[0][0].p) if (p.alive) count(fmt("mixtures: final particles of kind %d", p.kind)); } catch (ref::Beyond&) { fail(fmt("mixture %d %s %g is beyond the tables", b, m, f)); }
    }
}
int main(int argc, char** argv)
{
    static Cfg B; tune(); init(); B = cfgB(); capture = memfd_create("said", 0); dup2(capture, 1); dup2(capture, 2); pyInit(); bool T = thorough(); O = ops(T); int n = O.size(); int pass = argc > 1 ? atoi(argv[1]) : 0, passes = argc > 2 ? atoi(argv[2]) : 1; long id = 0;
    typedef std::vector<std::pair<int, int>> Seq; auto mk = [](std::vector<const char*> v, int w = 0) { Seq s; for (auto x : v) s.push_back({w, named(x)}); return s; };
    std::vector<std::pair<std::string, Seq>> pre = {
        {"after a run", mk({"setTime A", "setField A", "setPhysics Quantum", "setGenerator A", "pairs on", "beamOn 3"})}, {"configured", mk({"setTime B", "setField B", "setPhysics classical", "setGenerator B", "setSampleFraction 0.6"})}, {"new", {}},
        {"without time", mk({"setField A", "setPhysics Quantum", "setGenerator A"})}, {"without field", mk({"setTime A", "setPhysics Quantum", "setGenerator A"})}, {"without physics", mk({"setTime A", "setField A", "setGenerator A"})}, {"without source", mk({"setTime A", "setField A", "setPhysics Quantum"})},
        {"after two runs", mk({"setTime A", "setField A", "setPhysics classical", "setGenerator A", "beamOn 1", "setGenerator B", "setField B", "setPhysics Quantum", "pairs on", "beamOn 3"})}, {"after a refused run", mk({"setTime A", "setField A", "setPhysics Quantum", "setGenerator A", "beamOn 3", "setPhysics unknown", "beamOn 1"})}};
    std::vector<int> core; for (const char* x : {"setTime B", "setTime zero step", "setField B", "setField unknown", "setPhysics classical", "setGenerator B", "setSampleFraction 0.6", "pairs off", "beamOn 3", "beamOn 0", "beamOn -1"}) core.push_back(named(x));
    for (size_t p = 0; p < pre.size(); p++)
    {
        int depth = p == 0 ? 3 : 2; if (T) depth = 3;
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++)
        {
            if (id++ % passes != pass) continue;
            if (!begin(pre[p].first + ": " + O[a].name + ", " + O[b].name)) continue;
            Seq s = pre[p].second; size_t from = s.size(); s.push_back({0, a}); s.push_back({0, b}); sequence(s, 1, from);
            if (depth > 2) for (int c = 0; c < n; c++) { Seq t = s; t.push_back({0, c}); sequence(t, 1, t.size()); }
            if (T && p == 0) for (int c : core) for (int d : core) { Seq t = s; t.push_back({0, c}); t.push_back({0, d}); sequence(t, 1, t.size()); }
        }
    }
    mixtures();
    // every mixture of good and bad sizes of the field, and steps of any length
    if (pass == 0)
    {
        double bad[] = {1, 0, -1, NAN}; long a = 0;
        for (double w : bad) for (double t : bad) for (double r : bad) for (int before = 0; before < 2; before++)
        {
            if (!begin(fmt("field with wavelength, duration and waist times %g, %g and %g%s", w, t, r, before ? " after a good one" : ""))) continue;
            py::object m = pyManager(); Model k; std::string e; Cfg c = B; c.wl *= w; c.tau *= t; c.waist *= r; bool ok = w > 0 && t > 0 && r > 0;
            for (const char* x : {"setTime A", "setPhysics Quantum", "setGenerator A"}) O[named(x)].f(m, k, e);
            if (before) { O[named("setField A")].f(m, k, e); O[named("beamOn 3")].f(m, k, e); }
            if (e.empty()) { if (ok) noThrow(e, [&] { pyField(m, c); }); else refuse(e, [&] { pyField(m, c); }); }
            k.field = ok; if (ok) { Cfg d = k.c; k.c = c; k.c.dt = d.dt; k.c.end = d.end; k.c.src = d.src; k.c.model = d.model; k.c.frac = d.frac; k.c.pairs = d.pairs; }
            for (const char* x : {"beamOn 1", "setField A", "beamOn 3"}) { if (e.empty()) { O[named(x)].f(m, k, e); transition(); } if (e.empty()) e = results(m, k); state(stateOf(k) + a++); }
            if (e.size()) fail(e); else trace();
        }
        for (double dt : {1e-9, 1e-3, 0.7, 1.0, 40.0, 1e7}) for (const char* ph : {"Quantum", "classical", "Semiclassical"}) for (int g = 0; g < 2; g++)
        {
            if (!begin(fmt("steps of %g, %s, source %d", dt, ph, g))) continue;
            py::object m = pyManager(); Model k; std::string e; noThrow(e, [&] { m.attr("setTime")(dt * TIME, 3.4 * dt * TIME); }); k.timeOk = true; k.c.dt = dt; k.c.end = 3.4 * dt;
            for (const char* x : {"setField A", g ? "setGenerator B" : "setGenerator A"}) O[named(x)].f(m, k, e);
            noThrow(e, [&] { m.attr("setPhysics")(ph); }); k.phys = true; k.c.model = ph;
            if (e.empty()) O[named("beamOn 3")].f(m, k, e); transition(); if (e.empty()) e = results(m, k); state(stateOf(k) + a++); if (e.size()) fail(e); else trace();
        }
    }
    // settings that change a little between runs
    if (pass == 0)
    {
        static const char* SN[] = {"step", "end", "peak", "wavelength", "duration", "waist", "polarisation", "start", "focus", "energy", "energy spread", "radius", "bunch length", "divergence", "position", "direction", "fraction"};
        for (int s = 0; s < 17; s++) for (double d : {3e-2, 4e-4, 1e-5, -3e-4}) for (int g = 0; g < 2; g++) for (const char* ph : {"Quantum", "Semiclassical"})
        {
            if (!begin(fmt("%s of configuration %d changed by %g, %s", SN[s], g, d, ph))) continue;
            py::object m = pyManager(); Model k; std::string e; Cfg c = g ? cfgB() : cfgA(); c.model = ph; c.pairs = true; c.frac = 0.8; Source& q = c.src[0]; double f = 1 + d;
            if (g) { c.end = 2.5 * c.dt; } if (s == 13) q.div = 0.02; if (s == 11) q.radius = 1e4; if (s == 12) q.dur = 1e4; if (s == 10) { q.distro = "gaussian"; q.e2 = 50; }
            auto tilt = [&](V v) { V o = std::fabs(v[0]) < 0.6 * ref::len(v) ? V(1, 0, 0) : V(0, 1, 0); return v + d * ref::cross(v, o); };
            for (int r = 0; r < 3 && e.empty(); r++)
            {   // as it was, changed, as it was
                Cfg x = c; Source& y = x.src[0];
                if (r == 1) { if (s == 0) x.dt *= f; if (s == 1) x.end *= f; if (s == 2) x.maxE *= f; if (s == 3) x.wl *= f; if (s == 4) x.tau *= f; if (s == 5) x.waist *= f; if (s == 6) x.pol += d; if (s == 7) x.start = tilt(x.start); if (s == 8) x.focus = x.focus + d * V(3e5, -4e5, 2e5);
                    if (s == 9) y.e1 *= f; if (s == 10) y.e2 *= f; if (s == 11) y.radius *= f; if (s == 12) y.dur *= f; if (s == 13) y.div *= f; if (s == 14) y.pos = y.pos + d * V(2e5, 1e5, -3e5); if (s == 15) y.dir = tilt(y.dir); if (s == 16) x.frac *= f; }
                noThrow(e, [&] { if (!r || s < 2) pyTime(m, x); if (!r || (s >= 2 && s < 9)) pyField(m, x); if (!r) { pyPhysics(m, x); m.attr("usePairProduction")(true); } if (!r || s == 16) m.attr("setSampleFraction")(x.frac); if (!r || (s >= 9 && s < 16)) pyGen(m, x.src[0]); });
                k.timeOk = k.field = k.phys = k.gen = true; k.c = x;
                try { expected(k.c, 2); } catch (ref::Beyond&) { count("beyond_the_tables"); break; }
                if (e.empty()) beam(m, k, e, 2); transition(); state(stateOf(k) + d * s + r); if (e.empty()) e = results(m, k); if (e.size()) e = fmt("run %d: ", r) + e;
            }
            if (e.size()) fail(e); else trace();
        }
    }
    // two managers: nothing of one reaches the other
    std::vector<int> q; for (const char* x : {"setTime B", "setField B", "setField unknown", "setPhysics classical", "setGenerator B", "setSampleFraction 0", "pairs off", "beamOn 3", "beamOn -1"}) q.push_back(named(x));
    Seq two; for (int w = 0; w < 2; w++) for (auto& x : pre[0].second) two.push_back({w, x.second});
    for (size_t a = 0; a < q.size() * 2; a++) for (size_t b = 0; b < q.size() * 2; b++)
    {
        if (id++ % passes != pass) continue;
        if (!begin("two managers: " + fmt("%zu:", a % 2) + O[q[a / 2]].name + fmt(", %zu:", b % 2) + O[q[b / 2]].name)) continue;
        Seq s = two; s.push_back({(int)a % 2, q[a / 2]}); s.push_back({(int)b % 2, q[b / 2]}); sequence(s, 2, two.size());
        if (T) for (size_t c = 0; c < q.size() * 2; c++) { Seq t = s; t.push_back({(int)c % 2, q[c / 2]}); sequence(t, 2, t.size()); }
    }
    // arrays outlive the next run and their manager
    if (pass == 0 && begin("arrays of an earlier run"))
    {
        for (int del = 0; del < 2; del++)
        {
            py::object m = pyManager(); Model k; std::string e; for (auto& x : pre[0].second) O[x.second].f(m, k, e); Out was = k.out;
            py::array_t<double> in = m.attr("getInput")(), ph = m.attr("getPhotons")(), el = m.attr("getElectrons")(), po = m.attr("getPositrons")();
            std::vector<double> copy; for (auto* x : {&in, &ph, &el, &po}) copy.insert(copy.end(), x->data(), x->data() + x->size());
            if (del) m = py::none(); else for (const char* x : {"setTime B", "setField B", "setGenerator B", "beamOn 3", "beamOn 1"}) O[named(x)].f(m, k, e);
            if (del) for (int i = 0; i < 20; i++) { py::object z = pyManager(); Model kk; for (auto& x : pre[7].second) O[x.second].f(z, kk, e); }
            std::vector<double> now; for (auto* x : {&in, &ph, &el, &po}) now.insert(now.end(), x->data(), x->data() + x->size());
            transition(); if (copy != now) fail("arrays that were read before change later"); if (copy.size() < 10) fail("no results");
            if (!del) { in.mutable_data()[0] = -77; std::string r = results(m, k); if (r.size()) fail("writing to a returned array changes the results: " + r); }
        }
    }
    return finish();
}
