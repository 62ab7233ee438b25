// C12: whole runs of the command-line program and of the Python module against
// the reference simulation, over the product of configurations and draws.
#include "pymap.hh"
using namespace vp; using namespace run;

static Cfg base(const std::string& f)
{
    Cfg c; c.field = f; c.E = V(2e-3, 3e-4, 1e-4); c.B = V(1e-4, -2e-4, 3e-5); c.maxE = 2e-3; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6;
    c.start = V(1e5, -2e5, 9e5); c.focus = V(3e4, 1e4, -2e4); c.dir = V(0.1, -0.2, -1); c.dt = 3e4; c.end = 2e5;
    Source s; s.e1 = 1500; s.pos = V(1e4, -2e4, -1e5); s.dir = V(0.1, 0.2, 1); c.src.push_back(s); return c;
}
// Runs one configuration on both front ends (the module has no static and plane fields, no minimum energy)
// returns the number of photons that remain
static int one(const Cfg& c, double u, double z, bool cliToo = true, bool pyToo = true)
{
    Out o; try { o = simulate(c, primaries(c, u, z), u); } catch (ref::Beyond&) { count("beyond_the_tables"); return -1; }
    int n[3] = {0, 0, 0}; for (auto& s : o.ev) for (auto& e : s) for (auto& p : e.p) if (p.alive) n[p.kind]++;
    distinct(fmt("%s %s %g %g %d %d %d ", c.field.c_str(), c.model.c_str(), u, z, n[0], n[1], n[2]) + ref::str(row(0, o.ev[0][0].p.back())));
    if (cliToo) { rng_const(u, z); H5Map m; std::string e = cli(c, m); if (e.empty()) e = compare(c, m, o); count("command_line_runs"); transition(o.pushes); if (e.size()) fail("QEDCASC: " + e + "\n" + deck(c)); }
    if (pyToo && (low(c.field) == "gaussian" || low(c.field) == "focusing") && c.eMin == 0 && c.src.size() == 1)
    { rng_const(u, z); PyRes r = pyRun(c, c.src[0].n); std::string e = pyCompare(c, r, o); count("python_runs"); transition(o.pushes); if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(c)); }
    return n[ref::PHOTON];
}
// Different normal draws for every particle: a run that ends at once gives the primaries, from which the reference starts
static void varied(const Cfg& c, double u)
{
    long k = 0; auto zs = [&k] { k++; return std::sin(1.7 * k) * 1.3; }; auto draws = [&] { k = 0; vp::rng().u = [u] { return u; }; vp::rng().z = zs; };
    Cfg c0 = c; c0.end = 0;
    {
        H5Map m; std::vector<std::vector<Part>> pr, pr2; draws(); std::string e = cli(c0, m); if (e.empty()) e = primariesOf(c, m, u, pr);
        if (e.empty()) try { Out o = simulate(c, pr, u); draws(); m.clear(); e = cli(c, m); if (e.empty()) e = primariesOf(c, m, u, pr2); if (e.empty()) { o = simulate(c, pr2, u); e = compare(c, m, o); } count("command_line_runs"); transition(o.pushes); }
        catch (ref::Beyond&) { count("beyond_the_tables"); } if (e.size()) fail("QEDCASC: " + e + "\n" + deck(c));
    }
    if ((low(c.field) == "gaussian" || low(c.field) == "focusing") && c.eMin == 0)
    {
        Cfg d = c, d0 = c0; d.src.resize(1); d0.src.resize(1); int n = d.src[0].n; std::vector<std::vector<Part>> pr(1), pr2(1); draws(); PyRes r = pyRun(d0, n); std::string e = pyPrimaries(d, r.in, u, pr[0]);
        if (e.empty() && pr[0].size() != (size_t)n) e = "wrong number of inputs";
        if (e.empty()) try { Out o = simulate(d, pr, u); draws(); r = pyRun(d, n); e = pyPrimaries(d, r.in, u, pr2[0]); if (e.empty()) { o = simulate(d, pr2, u); e = pyCompare(d, r, o); } count("python_runs"); transition(o.pushes); }
        catch (ref::Beyond&) { count("beyond_the_tables"); } if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(d));
    }
}
int main()
{
    tune(); init(); pyInit(); bool T = thorough();
    const char* F[] = {"static", "plane", "gaussian", "focusing"}; const char* M[2][3] = {{"Quantum", "Classical", "Semiclassical"}, {"quantum", "classical", "semiclassical"}};
    const char* S[2][3] = {{"Electron", "Positron", "Photon"}, {"electron", "positron", "photon"}}; const char* D[2][3] = {{"mono", "gaussian", "linear"}, {"mono", "Gaussian", "Linear"}};
    std::vector<double> us = {0.05, 0.35, 0.7, 0.97}, zs = {0.6}; if (T) { us = {0.01, 0.05, 0.2, 0.35, 0.5, 0.7, 0.85, 0.97}; zs = {0, 0.6, -1.1}; }
    for (int f = 0; f < 4; f++) for (int m = 0; m < 3; m++) for (int pp = 0; pp < 2; pp++) for (int s = 0; s < 3; s++) for (int d = 0; d < 3; d++) for (double fr : {1.0, 0.5, 0.0}) for (double em : {0.0, 40.0})
    {
        int cs = (f + m + s) % 2;
        if (!begin(fmt("%s %s pairs=%d %s %s fraction=%g min=%g", F[f], M[cs][m], pp, S[cs][s], D[cs][d], fr, em))) continue;
        for (double u : us) for (double z : zs)
        {
            Cfg c = base(F[f]); c.model = M[cs][m]; c.pairs = pp; c.frac = fr; c.eMin = em; Source& q = c.src[0]; q.type = S[cs][s]; q.distro = D[cs][d]; q.n = T ? 2 : 1; q.radius = 1e4; q.dur = 2e4; q.div = 0.02;
            if (s == 2) q.e1 = 6000; q.e2 = d == 1 ? 200 : d == 2 ? q.e1 * 1.3 : 0;
            one(c, u, z);
        }
    }
    // geometry, times and beam parameters, one by one and in pairs
    struct Mod { const char* n; std::function<void(Cfg&)> f; };
    std::vector<Mod> mods = {
        {"dir+x", [](Cfg& c) { c.src[0].dir = V(1, 0, 0); }}, {"dir-z", [](Cfg& c) { c.src[0].dir = V(0, 0, -1); }}, {"dir skew", [](Cfg& c) { c.src[0].dir = V(-3, 2, -1); }}, {"dir short", [](Cfg& c) { c.src[0].dir = V(-3e-5, 2e-5, -1e-5); }}, {"dir long", [](Cfg& c) { c.src[0].dir = V(2e4, 7e4, -1e4); }}, {"position", [](Cfg& c) { c.src[0].pos = V(-4e4, 5e4, 6e4); }},
        {"radius", [](Cfg& c) { c.src[0].radius = 5e4; }}, {"duration", [](Cfg& c) { c.src[0].dur = 7e4; }}, {"divergence", [](Cfg& c) { c.src[0].div = 0.3; }}, {"energy", [](Cfg& c) { c.src[0].e1 = 700; }}, {"at rest", [](Cfg& c) { c.src[0].e1 = 1; }}, {"spread", [](Cfg& c) { c.src[0].distro = "gaussian"; c.src[0].e2 = 90; }},
        {"step", [](Cfg& c) { c.dt = 1.7e4; }}, {"end", [](Cfg& c) { c.end = 3.33e5; }}, {"end now", [](Cfg& c) { c.end = 0; }}, {"one step", [](Cfg& c) { c.end = c.dt * 0.5; }},
        {"field", [](Cfg& c) { c.maxE = 3e-3; c.E = V(-1e-3, 2e-3, 0); }}, {"magnetic", [](Cfg& c) { c.B = V(0, 2e-3, -1e-3); c.E = V(); c.maxE = 1e-3; }}, {"wavelength", [](Cfg& c) { c.wl = 8e5; }}, {"polarisation", [](Cfg& c) { c.pol = -1.2; }}, {"pulse", [](Cfg& c) { c.tau = 4e5; }}, {"waist", [](Cfg& c) { c.waist = 1e6; }},
        {"start", [](Cfg& c) { c.start = V(-5e5, 3e5, 2e5); c.dir = V(1, 0.4, 0.2); }}, {"focus", [](Cfg& c) { c.focus = V(-2e5, 1e5, 1e5); c.dir = V(0, 1, 0); }}, {"along z", [](Cfg& c) { c.start = V(0, 0, -4e5); c.focus = V(); c.dir = V(0, 0, 1); }}, {"against z", [](Cfg& c) { c.start = V(0, 0, 4e5); c.focus = V(); c.dir = V(0, 0, -1); }},
        {"photons", [](Cfg& c) { c.src[0].type = "photon"; c.src[0].e1 = 4000; }}, {"positrons", [](Cfg& c) { c.src[0].type = "positron"; }}, {"events", [](Cfg& c) { c.src[0].n = 3; }}, {"no events", [](Cfg& c) { c.src[0].n = 0; }},
        {"classical", [](Cfg& c) { c.model = "Classical"; }}, {"semiclassical", [](Cfg& c) { c.model = "Semiclassical"; }}, {"no pairs", [](Cfg& c) { c.pairs = false; }}, {"fraction", [](Cfg& c) { c.frac = 0.8; }}, {"minimum", [](Cfg& c) { c.eMin = 10; }}, {"focusing", [](Cfg& c) { c.field = "focusing"; }}};
    for (size_t a = 0; a < mods.size(); a++) for (size_t b = a; b < mods.size(); b++)
    {
        if (!T && (a * 31 + b) % 3 && a != b) continue;
        if (!begin(fmt("gaussian: %s, %s", mods[a].n, mods[b].n))) continue;
        for (double u : T ? std::vector<double>{0.08, 0.3, 0.6} : std::vector<double>{0.08})
        {
            Cfg c = base("gaussian"); c.pairs = true; mods[b].f(c); mods[a].f(c);
            if (c.src[0].n) one(c, u, 0.6); else { rng_const(u, 0); Out o = simulate(c, primaries(c, u, 0), u); H5Map m; std::string e = cli(c, m); if (e.empty()) e = compare(c, m, o); if (e.empty()) { PyRes r = pyRun(c, 0); e = pyCompare(c, r, o); } if (e.size()) fail("without events: " + e); }
        }
    }
    for (size_t a = 0; a < mods.size(); a++) for (int f = 0; f < 4; f++)
    {
        if (!begin(fmt("%s, different particles: %s", F[f], mods[a].n))) continue;
        Cfg c = base(F[f]); c.pairs = true; Source& q = c.src[0]; q.n = 4; q.radius = 2e4; q.dur = 3e4; q.div = 0.05; q.distro = "gaussian"; q.e2 = 100;
        mods[a].f(c); if (!strcmp(mods[a].n, "focusing") || c.src[0].n == 0) continue;
        Source p = c.src[0]; p.type = "photon"; p.e1 = 5000; p.pos = V(3e4, 0, 1e4); c.src.push_back(p);
        for (double u : T ? std::vector<double>{0.08, 0.2, 0.4, 0.9} : std::vector<double>{0.08, 0.4}) varied(c, u);
    }
    // large numbers: events, steps and photons of an event, sources, histograms
    for (int n : T ? std::vector<int>{100, 255, 256, 257, 1000, 4099, 33000, 66000} : std::vector<int>{100, 257, 4099}) for (int m = 0; m < 3; m++)
    {
        if (!begin(fmt("%d events, %s", n, M[0][m]))) continue;
        Cfg c = base("gaussian"); c.model = M[0][m]; c.pairs = true; c.end = 1.5 * c.dt; c.src[0].n = n; c.src[0].radius = 2e4; c.src[0].distro = "gaussian"; c.src[0].e2 = 100; if (n > 5000) one(c, 0.05, 0.6); else varied(c, 0.05);
        if (m == 1 && n < 5000) { c.track = n < 500; c.hist.resize(1); c.hist[0].name = "h"; c.hist[0].bins = 5; c.hist[0].hi = 2000; one(c, 0.05, 0.6, true, false); }
    }
    // more primaries of each species than 16 bits can count
    for (int m = 0; m < 3; m++)
    {
        if (!begin(fmt("67000 events of %s", S[0][m]))) continue;
        Cfg c = base("gaussian"); c.model = M[0][m]; c.pairs = false; c.end = 0.5 * c.dt; c.src[0].n = 67000; c.src[0].type = S[0][m]; c.src[0].radius = 2e4; one(c, 0.9, 0.6, false);   // C05 has the same for the output file
    }
    for (int steps : T ? std::vector<int>{130, 260, 1100, 5000} : std::vector<int>{130, 260, 1100}) for (int m = 0; m < 3; m++) for (int track = 0; track < (steps < 300 ? 2 : 1); track++)
    {
        if (!begin(fmt("%d steps, %s, track %d", steps, M[0][m], track))) continue;
        Cfg c = base("gaussian"); c.model = M[0][m]; c.pairs = false; c.dt = 500; c.end = (steps - 0.5) * c.dt; c.src[0].n = 2; c.src[0].pos = V(); c.start = V(0, 0, 4e5); c.track = track; c.src[0].radius = 2e4; int ph = one(c, 0.002, 0.6); count("steps_of_long_runs", steps); if (ph > 0) count("photons_of_long_runs", ph); if (ph < 0) count("long_runs_beyond_the_tables");
    }
    for (int n : {20, 70}) for (int what = 0; what < 2; what++)
    {
        if (!begin(fmt("%d %s", n, what ? "histograms" : "sources"))) continue;
        Cfg c = base("static"); c.pairs = true; c.end = 4.5 * c.dt; Source q = c.src[0]; c.src[0].n = 3; c.src[0].radius = 1e4;
        for (int i = 1; i < n; i++)
            if (what) { Histo h; h.name = fmt("h%d", i); h.particle = i % 3 ? "Electron" : "Photon"; h.type = i % 2 ? "energy" : "x"; h.bins = 1 + i % 7 + 1; h.lo = i % 2 ? 0 : -1e5; h.hi = i % 2 ? 1000 + 13 * i : 1e5; h.time = i % 5 * c.dt + 1; c.hist.push_back(h); }
            else { Source p = q; p.n = i % 4; p.e1 = 700 + 5 * i; p.type = S[1][i % 3]; if (i % 3 == 2) p.e1 += 3000; p.output = i % 6 != 5; c.src.push_back(p); }
        if (one(c, 0.08, 0.6, true, false) < 0) count("long_runs_beyond_the_tables");
    }
    // several sources that differ in one or two of their parameters
    struct SMod { const char* n; std::function<void(Source&, int)> f; };
    std::vector<SMod> sm = {
        {"type", [](Source& q, int i) { const char* P[] = {"electron", "photon", "positron", "electron"}; q.type = P[i]; if (i == 1) q.e1 = 6000; }}, {"distribution", [](Source& q, int i) { const char* D[] = {"mono", "gaussian", "linear", "mono"}; q.distro = D[i]; q.e2 = i == 2 ? q.e1 * 1.4 : 150; }},
        {"number", [](Source& q, int i) { const int N[] = {1, 3, 0, 2}; q.n = N[i]; }}, {"mean", [](Source& q, int i) { q.e1 += 333 * i; }}, {"second energy", [](Source& q, int i) { q.distro = "gaussian"; q.e2 = 40 + 60 * i; }},
        {"radius", [](Source& q, int i) { const double R[] = {0, 2e4, 5e4, 1e4}; q.radius = R[i]; }}, {"duration", [](Source& q, int i) { const double R[] = {3e4, 0, 1e4, 6e4}; q.dur = R[i]; }}, {"divergence", [](Source& q, int i) { const double R[] = {0.01, 0.2, 0, 0.07}; q.div = R[i]; }},
        {"position", [](Source& q, int i) { q.pos = V(1e4 * i, 3e4 - 2e4 * i, -1e5 + 7e4 * i); }}, {"direction", [](Source& q, int i) { q.dir = V(0.3 * i - 0.2, 0.1 + i, 1 - 0.6 * i); }}, {"slightly", [](Source& q, int i) { q.e1 += 1e-3 * (i % 2); q.pos = V(20 * (i / 2), 0, -5 * i); q.dir = q.dir + V(1e-5 * i, 2e-5 * i, 0); }}, {"output", [](Source& q, int i) { q.output = i % 2 == 0; }}, {"name", [](Source& q, int i) { const char* N[] = {"beam", "", "Target", "probe beam"}; q.name = N[i]; }}};
    for (size_t a = 0; a < sm.size(); a++) for (size_t b = a; b < sm.size(); b++) for (int n = 2; n <= 4; n++)
    {
        if (!T && n == 4 && a != b) continue;
        if (!begin(fmt("%d sources: %s, %s", n, sm[a].n, sm[b].n))) continue;
        for (int rot = 0; rot < (T ? 4 : 2); rot++)
        {
            Cfg c = base((a + b) % 2 ? "gaussian" : "static"); c.pairs = true; c.end = 7e4; Source q = c.src[0]; q.radius = 1e4; q.dur = 2e4; q.div = 0.02; c.src.clear();
            for (int i = 0; i < n; i++) { Source p = q; sm[a].f(p, (i + rot) % 4); if (b != a) sm[b].f(p, (i + rot) % 4); c.src.push_back(p); }
            one(c, 0.08, 0.6, true, false);
        }
    }
    return finish();
}
