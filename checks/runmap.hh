// Whole runs: a configuration (natural units), its input deck, the real
// command-line program run in this process, and the reference simulation.
#ifndef RUNMAP_HH
#define RUNMAP_HH
#include "physmap.hh"
#include "h5map.hh"
#include <malloc.h>
#include <sys/stat.h>
namespace run
{
using ref::V; using ref::Part;
// natural units: electron mass, speed of light, Schwinger field
static const double C = 2.99792458e8, ME = 9.10938356e-31, QE = 1.60217662e-19, ES = 1.3232855e18;
static const double FREQ = ES * QE / (ME * C), TIME = 1 / FREQ, LENGTH = C / FREQ, ENERGY = ME * C * C, EF = ES, BF = ES / C, MOM = ME * C;

struct Source { std::string type = "electron", distro = "mono"; int n = 1; double e1 = 1000, e2 = 0, radius = 0, div = 0, dur = 0; V pos, dir = V(0, 0, 1); bool output = true; std::string name; };
struct Histo { std::string name, particle = "Electron", type = "energy"; double time = 0; int bins = 10; double lo = 0, hi = 1; };
struct Cfg
{
    double dt = 1e4, end = 1e5; bool track = false; std::string field = "static"; V E, B; double maxE = 0, wl = 1, pol = 0, tau = 1, waist = 1; V dir = V(0, 0, 1), start, focus;
    std::string model = "Quantum"; double eMin = 0, frac = 1; bool pairs = false; std::vector<Source> src; std::vector<Histo> hist;
};
inline std::string num(double v) { return vp::fmt("%.17g", v); }
inline std::string vec3(V v) { return vp::fmt("[%.17g %.17g %.17g]", v[0], v[1], v[2]); }
inline std::string deck(const Cfg& c, const std::string& file = "out.h5")
{
    std::string s = "[General]\nunits = SI\ntime_step = " + num(c.dt * TIME) + "\ntime_end = " + num(c.end * TIME) + "\nfile_name = " + file + "\ntracking = " + (c.track ? "true" : "false") + "\n";
    s += "[Field]\nfield_type = " + c.field + "\n";
    if (c.field == "static") s += "e_field = " + vec3(EF * c.E) + "\nb_field = " + vec3(BF * c.B) + "\n";
    else
    {
        s += "e_max = " + num(c.maxE * EF) + "\nwavelength = " + num(c.wl * LENGTH) + "\npolerisation = " + num(c.pol) + "\n";
        if (c.field == "plane") s += "direction = " + vec3(c.dir) + "\n";
        else s += "duration = " + num(c.tau * TIME) + "\nwaist = " + num(c.waist * LENGTH) + "\nstart = " + vec3(LENGTH * c.start) + "\nfocus = " + vec3(LENGTH * c.focus) + "\n";
    }
    s += "[Physics]\nradiation_model = " + c.model + "\nmin_energy = " + num(c.eMin * ENERGY) + "\nsample_fraction = " + num(c.frac) + "\npair_production = " + (c.pairs ? "true" : "false") + "\n";
    int i = 0;
    for (auto& p : c.src)
        s += vp::fmt("[Particle%d]\nnumber_particles = %d\n", ++i, p.n) + (p.name.empty() ? "" : "name = " + p.name + "\n") + "particle_type = " + p.type + "\nenergy_distribution = " + p.distro + "\nenergy_mean = " + num(p.e1 * ENERGY) + "\nenergy_sig = " + num(p.e2 * ENERGY)
            + "\nradius = " + num(p.radius * LENGTH) + "\nduration = " + num(p.dur * TIME) + "\ndivergence = " + num(p.div) + "\nposition = " + vec3(LENGTH * p.pos) + "\ndirection = " + vec3(p.dir) + "\noutput = " + (p.output ? "true" : "false") + "\n";
    i = 0;
    for (auto& h : c.hist)
        s += vp::fmt("[Histogram%d]\n", ++i) + (h.name.empty() ? "" : "name = " + h.name + "\n") + "particle = " + h.particle + "\ntype = " + h.type + "\ntime = " + num(h.time * TIME) + vp::fmt("\nbins = %d\nmin_bin = ", h.bins) + num(h.lo) + "\nmax_bin = " + num(h.hi) + "\n";
    return s;
}
inline std::string low(std::string s) { for (char& c : s) c = tolower(c); return s; }
inline int kind(const std::string& t) { std::string l = low(t); return l == "photon" ? ref::PHOTON : l == "electron" ? ref::ELECTRON : ref::POSITRON; }
static ref::Frame frameTo(V d)
{   // opposite to z any half turn will do: the one of the repository is used there
    d = ref::unit(d); if (d[2] > -1 + 1e-12) return ref::frame(d);
    ThreeMatrix m = ThreeVector(0, 0, 1).RotateToAxis(tv(d)); ref::Frame f;
    for (int i = 0; i < 3; i++) { ThreeVector u; u[i] = 1; f.e[i] = rv(m * u); }
    return f;
}
inline ref::Field field(const Cfg& c)
{
    if (c.field == "static") return ref::staticField(c.E, c.B);
    if (c.field == "plane") return ref::planeField(c.maxE, c.wl, c.pol, frameTo(c.dir));
    ref::Frame f = frameTo(c.focus - c.start);
    if (low(c.field) == "gaussian") return ref::gaussField(c.maxE, c.wl, c.tau, c.waist, c.pol, c.start, c.focus, f);
    return ref::focusField(c.maxE, c.wl, c.tau, c.waist, c.pol, c.start, c.focus, f);
}
// the primary of a source when every draw of a kind has the same outcome
inline Part primary(const Source& s, double u, double z, bool track)
{
    ref::Beam b; b.kind = kind(s.type); b.dPos = s.radius; b.dTau = s.dur; b.dDir = s.div; b.pos = s.pos; b.fr = frameTo(s.dir); b.track = track;
    std::string d = low(s.distro); double e = d == "gaussian" ? s.e1 + s.e2 * z : d == "linear" ? s.e1 + (s.e2 - s.e1) * u : s.e1;
    return ref::primary(b, z, z, z, z, u, e, u);
}
struct Event { std::vector<Part> p; };
struct Out { std::vector<std::vector<Event>> ev; std::vector<std::vector<double>> hist; std::vector<std::vector<Part>> prim; long pushes = 0, made = 0; };

inline double property(const Part& p, const std::string& t) { std::string l = low(t); return l == "energy" ? p.energy() : l.size() == 1 ? p.x[l[0] - 'x'] : p.p[l[1] - 'x']; }
inline void histAdd(const Histo& h, std::vector<double>& bins, const Event& e)
{
    for (auto& p : e.p)
    {
        if (!p.alive || p.kind != kind(h.particle)) continue;
        double v = property(p, h.type); if (!(v > h.lo && v < h.hi)) continue;
        double d = (h.hi - h.lo) / (h.bins - 1); int b = (int)std::floor((v - h.lo) / d + 0.5); bins[std::min(std::max(b, 0), h.bins - 1)]++;
    }
}
inline void event(const Cfg& c, const ref::Field& F, Event& e, const ref::Draws& d, Out* o)
{
    std::string m = low(c.model); double t = 0; std::vector<bool> done(c.hist.size(), false);
    while (t < c.end)
    {
        if (o) for (size_t h = 0; h < c.hist.size(); h++) if (!done[h] && t >= c.hist[h].time) { histAdd(c.hist[h], o->hist[h], e); done[h] = true; }
        size_t n = e.p.size();
        for (size_t i = 0; i < n; i++)
        {
            Part a = e.p[i]; std::vector<Part> out;
            ref::push(a, F, c.dt, m == "quantum" ? ref::LORENTZ : m == "classical" ? ref::LANDAU : ref::GAUNT);
            if (!(ref::len(a.p) < 1e7) || !std::isfinite(ref::len(a.x))) throw ref::Beyond(); // the step does not resolve the motion
            if (m == "quantum") ref::stochastic(a, out, F, c.dt, c.frac, c.eMin, c.track, d); else ref::continuous(a, out, F, c.dt, m == "classical", c.frac, c.eMin, c.track, d);
            if (c.pairs) ref::breitWheeler(a, out, F, c.dt, false, d);
            e.p[i] = a; e.p.insert(e.p.end(), out.begin(), out.end()); if (o) { o->pushes++; o->made += out.size(); }
        }
        t += c.dt;
    }
    if (o) for (size_t h = 0; h < c.hist.size(); h++) if (!done[h]) histAdd(c.hist[h], o->hist[h], e);
}
// prim: the primaries of every source. Throws ref::Beyond.
inline Out simulate(const Cfg& c, const std::vector<std::vector<Part>>& prim, double u)
{
    Out o; o.prim = prim; for (auto& h : c.hist) o.hist.push_back(std::vector<double>(h.bins, 0));
    ref::Field F = field(c); ref::Draws d; d.u = [u] { return u; }; d.z = [] { return 0.0; };
    for (auto& s : prim) { o.ev.emplace_back(); for (auto& p : s) { Event e; e.p.push_back(p); event(c, F, e, d, &o); o.ev.back().push_back(e); } }
    return o;
}
inline std::vector<std::vector<Part>> primaries(const Cfg& c, double u, double z)
{ std::vector<std::vector<Part>> r; for (auto& s : c.src) r.push_back(std::vector<Part>(s.n, primary(s, u, z, c.track))); return r; }

// ---- comparison with the output file ----
inline std::vector<double> row(double id, const Part& p) { return {id, p.energy(), p.p[0], p.p[1], p.p[2], p.x[0], p.x[1], p.x[2]}; }
inline std::string rowDiff(const double* g, const std::vector<double>& w, double tol, double xs)
{
    static const char* N[] = {"id", "energy", "px", "py", "pz", "x", "y", "z"};
    double p = std::sqrt(w[2] * w[2] + w[3] * w[3] + w[4] * w[4]), x = std::max(xs, std::sqrt(w[5] * w[5] + w[6] * w[6] + w[7] * w[7]));
    for (int i = 0; i < 8; i++)
    { double s = i == 0 ? 0 : i == 1 ? w[1] : i < 5 ? p + 1e-3 : x; if (!(std::fabs(g[i] - w[i]) <= tol * s)) return vp::fmt("%s is %.12g instead of %.12g", N[i], g[i], w[i]); }
    return "";
}
// rows of one table: ordered by event, in any order within one event
inline std::string tableDiff(const H5Map& got, const std::string& name, const std::vector<std::vector<double>>& want, double tol, double xs)
{
    auto it = got.find(name);
    if (it == got.end()) return want.empty() ? "" : "no table " + name;
    const DSet& d = it->second;
    if (d.dims.size() != 2 || d.dims[1] != 8) return name + " is no table of eight columns";
    if (d.dims[0] != want.size()) return name + vp::fmt(" has %zu rows instead of %zu", d.dims[0], want.size());
    std::vector<bool> used(want.size(), false); size_t hint = 0;
    for (size_t r = 0; r < want.size(); r++)
    {
        const double* g = &d.v[r * 8]; std::string first; bool ok = false;
        if (want[r][0] != g[0]) return name + vp::fmt(" row %zu belongs to event %g instead of %g", r, g[0], want[r][0]);
        for (size_t h = 0; h < want.size() && !ok; h++)
        { size_t k = (hint + h) % want.size(); if (used[k] || want[k][0] != g[0]) continue; std::string e = rowDiff(g, want[k], tol, xs); if (e.empty()) { used[k] = true; ok = true; hint = k + 1; } else if (first.empty() || k == r) first = e; }
        if (!ok) return name + vp::fmt(" row %zu of event %g: ", r, g[0]) + first;
    }
    return "";
}
inline double scaleX(const Cfg& c) { double s = c.end + c.dt; for (auto& q : c.src) s = std::max(s, ref::len(q.pos)); return s; }
inline std::string compare(const Cfg& c, const H5Map& got, const Out& o, double tol = 1e-7)
{
    double xs = scaleX(c); int n = 0; std::set<std::string> known; std::vector<const Part*> tracks;
    for (size_t s = 0; s < c.src.size(); s++)
    {
        if (c.track) for (auto& e : o.ev[s]) for (auto& p : e.p) tracks.push_back(&p);
        if (!c.src[s].output) continue;
        n++; std::string g = "Particles/ParticleSource" + (n > 1 ? std::to_string(n) : "");
        std::vector<std::vector<double>> pr, sp[3];
        for (size_t j = 0; j < o.ev[s].size(); j++) { pr.push_back(row(j, o.prim[s][j])); for (auto& p : o.ev[s][j].p) if (p.alive) sp[p.kind].push_back(row(j, p)); }
        if (!got.count(g + "/Primary")) return "no table " + g + "/Primary";
        const char* N[] = {"/Photons", "/Electrons", "/Positrons"}; known.insert(g + "/Primary");
        std::string e = tableDiff(got, g + "/Primary", pr, tol, xs); if (e.size()) return e;
        for (int k = 0; k < 3; k++) { known.insert(g + N[k]); e = tableDiff(got, g + N[k], sp[k], tol, xs); if (e.size()) return e; }
    }
    for (size_t h = 0; h < c.hist.size(); h++)
    {
        const Histo& q = c.hist[h]; std::string g = "Histograms/" + (q.name.empty() ? "Histogram" + std::to_string(h + 1) : q.name);
        auto a = got.find(g + "/BinCentres"), b = got.find(g + "/BinValues"); if (a == got.end() || b == got.end()) return "no histogram " + g;
        known.insert(g + "/BinCentres"); known.insert(g + "/BinValues");
        if (a->second.v.size() != (size_t)q.bins || b->second.v.size() != (size_t)q.bins) return "wrong number of bins in " + g;
        for (int i = 0; i < q.bins; i++)
        {
            double ce = q.lo + i * (q.hi - q.lo) / (q.bins - 1);
            if (!vp::close(a->second.v[i], ce, 1e-9, 1e-9 * (std::fabs(q.lo) + std::fabs(q.hi)))) return g + vp::fmt(" bin %d centred at %.12g instead of %.12g", i, a->second.v[i], ce);
            if (b->second.v[i] != o.hist[h][i]) return g + vp::fmt(" bin %d (centre %.9g) holds %g instead of %g", i, ce, b->second.v[i], o.hist[h][i]);
        }
    }
    // tracks: one per particle, in any order
    if (c.track)
    {
        std::vector<bool> used(tracks.size(), false); size_t found = 0;
        for (size_t i = 0;; i++)
        {
            std::string g = "Particles/ParticleTrack/Event" + std::to_string(i); auto X = got.find(g + "/Position"), P = got.find(g + "/Momentum"), T = got.find(g + "/Time"), G = got.find(g + "/Gamma");
            if (X == got.end() && P == got.end() && T == got.end() && G == got.end()) break;
            if (X == got.end() || P == got.end() || T == got.end() || G == got.end()) return "incomplete track " + g;
            for (const char* q : {"/Position", "/Momentum", "/Time", "/Gamma"}) known.insert(g + q);
            found++; size_t n = T->second.v.size(); if (X->second.v.size() != 3 * n || P->second.v.size() != 3 * n || G->second.v.size() != n) return g + ": numbers of positions, momenta, times and gamma factors differ";
            std::string first; bool ok = false;
            for (size_t k = 0; k < tracks.size() && !ok; k++)
            {
                if (used[k]) continue; auto& h = tracks[k]->h; std::string e;
                if (h.size() != n) { if (k == i) first = vp::fmt("%zu entries instead of %zu", n, h.size()); continue; }
                for (size_t j = 0; j < n && e.empty(); j++)
                {
                    double ps = ref::len(h[j].p) + 1e-3, xx = std::max(xs, ref::len(h[j].x));
                    for (int q = 0; q < 3; q++) if (!(std::fabs(X->second.v[3 * j + q] - h[j].x[q]) <= tol * xx)) e = vp::fmt("entry %zu position %c is %.12g instead of %.12g", j, 'x' + q, X->second.v[3 * j + q], h[j].x[q]); else if (!(std::fabs(P->second.v[3 * j + q] - h[j].p[q]) <= tol * ps)) e = vp::fmt("entry %zu momentum %c is %.12g instead of %.12g", j, 'x' + q, P->second.v[3 * j + q], h[j].p[q]);
                    if (!vp::close(T->second.v[j], h[j].t, tol)) e = vp::fmt("entry %zu time is %.12g instead of %.12g", j, T->second.v[j], h[j].t);
                    double ga = tracks[k]->kind == ref::PHOTON ? NAN : h[j].g; if (ga == ga && !vp::close(G->second.v[j], ga, tol)) e = vp::fmt("entry %zu gamma is %.12g instead of %.12g", j, G->second.v[j], ga);
                }
                if (e.empty()) { used[k] = true; ok = true; } else if (first.empty() || k == i) first = e;
            }
            if (!ok) return g + ": " + (first.empty() ? vp::fmt("a track of %zu entries matches no particle", n) : first);
        }
        if (found != tracks.size()) return vp::fmt("%zu tracks instead of %zu", found, tracks.size());
    }
    for (auto& g : got) if (!known.count(g.first)) return "unexpected " + g.first;
    return "";
}
// The primaries of the file as starting points of the reference
inline std::string primariesOf(const Cfg& c, const H5Map& got, double u, std::vector<std::vector<Part>>& r)
{
    int n = 0; r.clear();
    for (auto& s : c.src)
    {
        n++; std::string g = "Particles/ParticleSource" + (n > 1 ? std::to_string(n) : "") + "/Primary"; auto it = got.find(g); if (it == got.end()) return "no table " + g;
        const DSet& d = it->second; if (d.dims.size() != 2 || d.dims[1] != 8 || d.dims[0] != (size_t)s.n) return "wrong size of " + g;
        r.emplace_back(); for (int i = 0; i < s.n; i++) { const double* v = &d.v[8 * i]; Part p; p.kind = kind(s.type); p.track = c.track; p.p = V(v[2], v[3], v[4]); p.x = V(v[5], v[6], v[7]); p.od = ref::freshDepth(u); r.back().push_back(p); }
    }
    return "";
}
inline std::string tmp() { const char* e = getenv("VP_TMP"); return e ? e : "/tmp"; }
inline void write(const std::string& p, const std::string& t) { FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
inline void tune() { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 64 << 20); }  // lists reserve 8 MB each
}
extern "C" int qedcasc_main(int, char**);
namespace run
{
// Runs the program of the repository in this process; error text or ""
inline std::string cli(const Cfg& c, H5Map& out)
{
    std::string d = tmp() + "/deck.ini", h = tmp() + "/out.h5"; write(d, deck(c, h)); unlink(h.c_str());
    char a0[] = "QEDCASC", *av[] = {a0, (char*)d.c_str(), NULL};
    int s = qedcasc_main(2, av); if (s) return vp::fmt("the program ends with status %d", s);
    out.clear(); std::string e = h5read(h, out); unlink(h.c_str()); return e;
}
}
#endif
