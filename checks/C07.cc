// C07: the clock of an event. Whole runs of the command-line program over step
// sizes, end times, histogram times in every order, and tracking, and of the
// Python module over step sizes and end times, against the reference simulation.
#include "pymap.hh"
using namespace vp; using namespace run;

static Cfg base(const std::string& f)
{
    Cfg c; c.field = f; c.E = V(2e-3, 3e-4, 1e-4); c.B = V(1e-4, -2e-4, 3e-5); c.maxE = 2e-3; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6;
    c.start = V(1e5, -2e5, 9e5); c.focus = V(3e4, 1e4, -2e4); c.dir = V(0.1, -0.2, -1); c.dt = 3e4; c.end = 1e5; c.pairs = true;
    Source s; s.e1 = 1500; s.n = 1; s.pos = V(1e4, -2e4, -1e5); s.dir = V(0.1, 0.2, 1); c.src.push_back(s); return c;
}
static void one(const Cfg& c, double u)
{
    Out o; try { o = simulate(c, primaries(c, u, 0.6), u); } catch (ref::Beyond&) { count("beyond_the_tables"); return; }
    std::string d; for (auto& h : o.hist) { double s = 0; for (double v : h) s += v; d += fmt("%g ", s); } long n = 0; for (auto& s : o.ev) for (auto& e : s) for (auto& p : e.p) n += p.h.size() + 1;
    distinct(fmt("%s %s %g %g %g %ld ", c.field.c_str(), c.model.c_str(), u, c.dt, c.end, n) + d);
    rng_const(u, 0.6); H5Map m; std::string e = cli(c, m); if (e.empty()) e = compare(c, m, o); transition(o.pushes); count("runs"); if (e.size()) fail(e + "\n" + deck(c));
    if (c.src.size() == 1 && c.hist.empty() && (c.field == "gaussian" || c.field == "focusing"))
    { rng_const(u, 0.6); PyRes r = pyRun(c, c.src[0].n); e = pyCompare(c, r, o); transition(o.pushes); count("python_runs"); if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(c)); }
}
int main()
{
    tune(); init(); pyInit(); bool T = thorough();
    const char* F[] = {"gaussian", "static", "plane", "focusing"}; const char* M[] = {"Quantum", "Classical", "Semiclassical"}; const char* P[] = {"Electron", "Positron", "Photon"};
    // 1. steps and end times, with tracking: the clock of every particle, old and new
    std::vector<double> ends = {0, 0.01, 0.5, 0.999999, 1.000001, 1.5, 1.999999, 2.000001, 3.3, 5.5}; if (T) for (double e : {0.999999999, 1.000000001, 2.5, 6.999999, 7.000001, 9.5, 14.2}) ends.push_back(e);
    std::vector<double> us = {0.05, 0.35}; if (T) us = {0.01, 0.05, 0.2, 0.35, 0.6, 0.9};
    for (int f = 0; f < 4; f++) for (int m = 0; m < 3; m++) for (double dt : {3e4, 4.7e4}) for (double e : ends)
    {
        if (!begin(fmt("%s %s step=%g end=%g steps", F[f], M[m], dt, e))) continue;
        for (double u : us) for (int s = 0; s < 3; s++)
        {
            Cfg c = base(F[f]); c.model = M[m]; c.dt = dt; c.end = e * dt; c.track = true; c.src[0].type = P[s]; c.src[0].dur = 2e4; if (s == 2) c.src[0].e1 = 6000;
            one(c, u);
        }
    }
    // 2. histograms at every ordered triple of times
    std::vector<double> ts = {0, 1e-6, 0.4, 0.999999, 1.000001, 2.5, 50}; if (T) ts = {0, 1e-6, 0.4, 0.999999, 1.000001, 1.7, 2.000001, 2.5, 3.3, 3.5, 50};
    for (size_t a = 0; a < ts.size(); a++) for (size_t b = 0; b < ts.size(); b++) for (size_t d = 0; d < ts.size(); d++)
    {
        if (!begin(fmt("histograms at %g, %g and %g steps", ts[a], ts[b], ts[d]))) continue;
        for (int s = 0; s < (T ? 3 : 1); s++) for (double u : T ? us : std::vector<double>{0.05})
        {
            Cfg c = base(F[(a + b + d) % 4]); c.model = M[(a + 2 * b + d) % 3]; c.end = 3.4 * c.dt; int k = (a + b * 2 + d * 3 + s) % 3; c.src[0].type = P[k]; if (k == 2) c.src[0].e1 = 6000; c.src[0].n = 2; c.src[0].radius = 3e4;
            int i = 0; for (double t : {ts[a], ts[b], ts[d]}) { Histo h; h.time = t * c.dt; h.particle = P[(i + k) % 3]; h.type = i == 1 ? "z" : "energy"; h.lo = i == 1 ? -3.17e5 : 0.31; h.hi = i == 1 ? 3.3e5 : 8000.7; h.bins = 23; i++; c.hist.push_back(h); }
            one(c, u);
        }
    }
    // 3. no histogram, many histograms, several sources and events, tracking and output on and off
    for (int nh = 0; nh < 7; nh++) for (int ns = 0; ns < 4; ns++) for (int ne = 1; ne < 4; ne++) for (int tr = 0; tr < 2; tr++) for (int out = 0; out < (1 << ns); out++)
    {
        if (!T && (nh * 7 + ns * 5 + ne * 3 + tr + out) % 2) continue;
        if (!begin(fmt("%d histograms, %d sources (output %x) of %d events, tracking=%d", nh, ns, out, ne, tr))) continue;
        Cfg c = base(F[(nh + ns) % 4]); c.model = M[(nh + ne) % 3]; c.track = tr; Source q = c.src[0]; c.src.clear();
        for (int s = 0; s < ns; s++) { Source p = q; p.type = P[(s + nh) % 3]; p.n = ne + (s == 1); p.e1 = (s + nh) % 3 == 2 ? 6000 : 1500 - 200 * s; p.dur = 1e4 * s; p.output = out >> s & 1; c.src.push_back(p); }
        for (int h = 0; h < nh; h++) { Histo k; k.time = (h * 37 % 7) * 0.7 * c.dt; k.particle = P[h % 3]; k.type = h % 2 ? "x" : "energy"; k.lo = h % 2 ? -2.03e5 : 0.31; k.hi = h % 2 ? 2.07e5 : 8000.7; k.bins = 5 + 6 * h; c.hist.push_back(k); }
        for (double u : us) one(c, u);
    }
    // particles that rest or move without any force: their clocks run on
    for (int f = 0; f < 4; f++) for (int m = 0; m < 3; m++) for (int s = 0; s < 3; s++) for (double e1 : {1.0, 1.5, 3000.0}) for (double e : {0.5, 3.3})
    {
        if (!begin(fmt("no force: %s %s %s energy=%g end=%g steps", F[f], M[m], P[s], e1, e))) continue;
        Cfg c = base(F[f]); c.model = M[m]; c.E = c.B = V(); c.maxE = 0; c.end = e * c.dt; c.track = true; c.src[0].type = P[s]; c.src[0].e1 = e1; one(c, 0.35);
    }
    // 4. long runs: the clock keeps its pace for tens of thousands of steps
    for (long N : {3000L, 20000L, 70001L}) for (int f = 0; f < 4; f++) for (int s = 0; s < 3; s++) for (int tr = 0; tr < 2; tr++)
    {
        if (tr && (N > 20000 || (!T && (f + s) % 2))) continue; if (!T && N > 20000 && (f + s) % 3) continue;
        if (!begin(fmt("%ld steps, %s %s, tracking=%d", N, F[f], P[s], tr))) continue;
        Cfg c = base(F[f]); c.model = M[(f + s) % 3]; c.pairs = s == 2; c.frac = s == 2; c.dt = 471.237; c.end = (N - 0.5) * c.dt; c.E = V(2e-9, 0, 1e-9); c.B = V(1e-9, 0, 0); c.maxE = 1e-9; c.track = tr; c.src[0].type = P[s]; c.src[0].e1 = s == 2 ? 300 : 50 + s;
        if (f % 2 || tr) for (double t : {0.25, 0.5, 0.9}) { Histo k; k.time = (std::floor(t * N) - 0.5) * c.dt; k.particle = P[s]; k.type = "z"; k.bins = 4001; k.lo = -1.2345e5; k.hi = 1.03e3 + N * c.dt; c.hist.push_back(k); }
        one(c, 0.6);
    }
    return finish();
}
