// C08: the recorded final state. Every sequence of draws of small runs through
// both front ends: the distribution of the recorded final states must be that
// of the reference simulation, and each of them conserves charge.
#include "pymap.hh"
using namespace vp; using namespace run;

static Cfg base(const std::string& f)
{
    Cfg c; c.field = f; c.E = V(2e-3, 3e-4, 1e-4); c.B = V(1e-4, -2e-4, 3e-5); c.maxE = 2.5e-3; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6;
    c.start = V(1e4, -2e4, 9e4); c.focus = V(3e3, 1e3, -2e3); c.dir = V(0.1, -0.2, -1); c.dt = 3e4; c.end = 2e4;
    Source s; s.e1 = 1500; s.pos = V(1e4, -2e4, -1e4); s.dir = V(0.1, 0.2, 1); c.src.push_back(s); return c;
}
static double tot(const Out& o) { double s = 0, k = 1; for (auto& v : o.ev) for (auto& e : v) { k += 1; for (auto& p : e.p) if (p.alive) s += k * (p.kind + 1) * (p.energy() + 3 * p.w); } return s; }
// Reference distribution over all sequences of uniform draws
struct Final { Out o; double prob, got = 0; };
static long histories;   // of the last reference run
static bool reference(const Cfg& c, const std::vector<double>& us, double z, std::multimap<double, Final>& r)
{
    Choices ch; ref::Field F = field(c); long n = 0;
    try
    {
        do
        {
            ch.start(); ref::Draws d; d.u = [&] { return us[ch.choose((int)us.size())]; }; d.z = [z] { return z; };
            Out o; for (auto& h : c.hist) o.hist.push_back(std::vector<double>(h.bins, 0));
            for (auto& s : c.src)
            {
                o.prim.emplace_back(); o.ev.emplace_back();
                for (int i = 0; i < s.n; i++)
                {   // angle, energy and depth of the primary; z is the same everywhere
                    double dist = low(s.distro) == "linear" ? d.u() : 0; double phi = s.div ? d.u() : 0, od = d.u();
                    ref::Beam b; b.kind = kind(s.type); b.dPos = s.radius; b.dTau = s.dur; b.dDir = s.div; b.pos = s.pos; b.fr = frameTo(s.dir); b.track = false;
                    Part p = ref::primary(b, z, z, z, z, phi, low(s.distro) == "linear" ? s.e1 + (s.e2 - s.e1) * dist : low(s.distro) == "gaussian" ? s.e1 + s.e2 * z : s.e1, od);
                    o.prim.back().push_back(p); Event e; e.p.push_back(p); event(c, F, e, d, &o); o.ev.back().push_back(e);
                }
            }
            double pr = 1; for (int a : ch.arity) pr /= a; double t = tot(o); bool found = false;
            for (auto i = r.lower_bound(t * (1 - 1e-9) - 1e-9); i != r.end() && i->first <= t * (1 + 1e-9) + 1e-9; ++i)
            {   // the same final state
                bool same = i->second.o.prim.size() == o.prim.size();
                for (size_t s = 0; s < o.ev.size() && same; s++) for (size_t k = 0; k < o.ev[s].size() && same; k++)
                {
                    auto& A = o.ev[s][k].p; auto& B = i->second.o.ev[s][k].p; std::vector<const Part*> a, b; for (auto& p : A) if (p.alive) a.push_back(&p); for (auto& p : B) if (p.alive) b.push_back(&p);
                    same = a.size() == b.size(); for (size_t q = 0; q < a.size() && same; q++) same = a[q]->kind == b[q]->kind && ref::len(a[q]->p - b[q]->p) <= 1e-9 * (1 + ref::len(a[q]->p)) && ref::len(a[q]->x - b[q]->x) <= 1e-9 * (1 + ref::len(a[q]->x)) && std::fabs(a[q]->w - b[q]->w) <= 1e-9 * a[q]->w;
                }
                if (same) { i->second.prob += pr; found = true; break; }
            }
            if (!found) { Final f; f.o = o; f.prob = pr; r.insert({t, f}); }
            if (++n > 2000000) return false;
        } while (ch.next());
    }
    catch (ref::Beyond&) { count("beyond_the_tables"); return false; }
    histories = n; count("reference_histories", n); return true;
}
// The module does not tell events apart: reference states that differ only in the event a particle belongs to are one
static std::multimap<double, Final> merged(const std::multimap<double, Final>& w)
{
    std::multimap<double, Final> r;
    for (auto& x : w)
    {
        Final f = x.second; Out& o = f.o; std::vector<Part> all; for (auto& e : o.ev[0]) for (auto& p : e.p) if (p.alive) all.push_back(p);
        o.ev[0].resize(1); o.ev[0][0].p = all; double t = tot(o); bool found = false;
        for (auto i = r.lower_bound(t * (1 - 1e-9) - 1e-9); i != r.end() && i->first <= t * (1 + 1e-9) + 1e-9 && !found; ++i)
        {
            auto& b = i->second.o.ev[0][0].p; if (b.size() != all.size()) continue; std::vector<bool> used(b.size(), false); size_t k = 0;
            for (auto& p : all) for (size_t q = 0; q < b.size(); q++) if (!used[q] && p.kind == b[q].kind && ref::len(p.p - b[q].p) <= 1e-9 * (1 + ref::len(p.p)) && ref::len(p.x - b[q].x) <= 1e-9 * (1 + ref::len(p.x)) && std::fabs(p.w - b[q].w) <= 1e-9 * p.w) { used[q] = true; k++; break; }
            if (k == b.size()) { i->second.prob += f.prob; found = true; }
        }
        if (!found) r.insert({t, f});
    }
    return r;
}
// what was recorded: rows of each species per source, in the form of an Out
static std::string explore(const Cfg& c, const std::vector<double>& us, double z, bool python, const std::multimap<double, Final>& want0)
{
    std::multimap<double, Final> want = python ? merged(want0) : want0; Choices ch; long n = 0; const char* N[] = {"Photons", "Electrons", "Positrons"};
    do
    {
        ch.start(); rng_choices(ch, us, {z}); double t = 0; long charge = 0, charge0 = 0; H5Map m; PyRes r; std::string e;
        for (auto& s : c.src) { int k = kind(s.type); charge0 += s.n * (k == ref::ELECTRON ? -1 : k == ref::POSITRON ? 1 : 0); }
        if (python)
        {
            r = pyRun(c, c.src[0].n); charge = (long)r.po.n - (long)r.el.n;
            {
                auto add = [&](const Rows& q, int kind) { for (size_t i = 0; i < q.n && q.cols == 7; i++) { double p = 0; for (int k = 0; k < 3; k++) p += q.v[7 * i + k] * q.v[7 * i + k] / (MOM * MOM); t += 2 * (kind + 1) * ((kind == ref::PHOTON ? std::sqrt(p) : std::sqrt(1 + p)) + 3 * q.v[7 * i + 6]); } };
                add(r.ph, ref::PHOTON); add(r.el, ref::ELECTRON); add(r.po, ref::POSITRON);
            }
        }
        else
        {
            e = cli(c, m); if (e.size()) return e + " for draws " + ch.str();
            for (size_t s = 0; s < c.src.size(); s++) { std::string g = "Particles/ParticleSource" + (s ? std::to_string(s + 1) : "") + "/"; charge += (long)(m.count(g + N[2]) && m[g + N[2]].dims.size() ? m[g + N[2]].dims[0] : 0) - (long)(m.count(g + N[1]) && m[g + N[1]].dims.size() ? m[g + N[1]].dims[0] : 0); }
        }
        if (charge != charge0) return fmt("the charge of the final state is %ld, that of the primaries %ld, for draws ", charge, charge0) + ch.str();
        double pr = 1; for (int a : ch.arity) pr /= a; bool found = false; std::string first;
        bool range = python; auto lo = range ? want.lower_bound(t * (1 - 1e-5)) : want.begin(); 
        for (auto i = lo; i != want.end() && (!range || i->first <= t * (1 + 1e-5)); ++i)
        { std::string d = python ? pyCompare(c, r, i->second.o) : compare(c, m, i->second.o); if (d.empty()) { i->second.got += pr; found = true; break; } if (first.empty()) first = d; }
        if (!found) return "no sequence of draws of the reference gives the final state of draws " + ch.str() + (first.size() ? " (nearest: " + first + ")" : "");
        n++; if (n > 400000) return "";
    } while (ch.next());
    transition(n); count(python ? "python_histories" : "command_line_histories", n);
    // states that agree within the tolerance of the comparison are judged together
    for (auto i = want.begin(); i != want.end();)
    {
        auto& w = *i; double prob = 0, got = 0, t0 = i->first;
        for (; i != want.end() && i->first <= t0 * (1 + 1e-6); ++i) { prob += i->second.prob; got += i->second.got; t0 = i->first; }
        if (!close(prob, got, 1e-9)) { std::string d; for (auto& s : w.second.o.ev) for (auto& ev : s) { int k[3] = {0, 0, 0}; for (auto& p : ev.p) if (p.alive) k[p.kind]++; d += fmt("(%d photons, %d electrons, %d positrons) ", k[0], k[1], k[2]); } return "the final state " + d + fmt("has probability %.9g instead of %.9g", got, prob); }
    }
    return "";
}
int main()
{
    tune(); init(); pyInit(); bool T = thorough();
    const char* F[] = {"gaussian", "focusing", "static", "plane"}; const char* M[] = {"Quantum", "Classical", "Semiclassical"}; const char* P[] = {"electron", "positron", "photon"};
    std::vector<std::vector<double>> U = {{0.03, 0.9}, {0.45, 0.97}}; if (T) { U.push_back({0.03, 0.5, 0.93}); U.push_back({0.2, 0.8}); }
    for (int f = 0; f < 4; f++) for (int m = 0; m < 3; m++) for (int s = 0; s < 3; s++) for (int pp = 0; pp < 2; pp++) for (double fr : {1.0, 0.5}) for (int st = 1; st <= (T ? 3 : 2); st++) for (size_t u = 0; u < U.size(); u++) for (int n = 1; n <= 2; n++)
    {
        if (n == 2 && (st != 1 || f > 1)) continue;
        if (f > 1 && (st > 1 || u == 2)) continue;
        if (!begin(fmt("%s %s %s pairs=%d fraction=%g steps=%d draws=%zu events=%d", F[f], M[m], P[s], pp, fr, st, u, n))) continue;
        Cfg c = base(F[f]); c.model = M[m]; c.pairs = pp; c.frac = fr; c.end = (st - 0.5) * c.dt; Source& q = c.src[0]; q.type = P[s]; q.n = n; if (s == 2) q.e1 = 8000; if (u == 1) { q.distro = "linear"; q.e2 = q.e1 * 1.2; }
        std::multimap<double, Final> w; if (!reference(c, U[u], 0.6, w)) continue;
        for (auto& x : w) { std::string d = fmt("%d%d%d%d%d%d%zu", f, m, s, pp, st, n, u); for (auto& v : x.second.o.ev) for (auto& e : v) for (auto& p : e.p) if (p.alive) d += fmt(" %d %.6g", p.kind, p.energy()); distinct(d); }
        if (histories > (T ? 20000 : 90)) { count("left_to_thorough"); continue; }
        std::string e; if (f < 2) { e = explore(c, U[u], 0.6, true, w); if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(c)); }
        if (w.size() < 300 && (f > 1 || (st == 1 && u == 0 && n == 1) || T)) { e = explore(c, U[u], 0.6, false, w); if (e.size()) fail("QEDCASC: " + e + "\n" + deck(c)); }
    }
    // chains: leptons that emit photons of a larger weight, which decay
    for (int f = 0; f < 2; f++) for (int m = 0; m < 3; m++) for (int s = 0; s < 2; s++) for (double fr : {0.5, 0.3}) for (int st = 2; st <= (T ? 3 : 2); st++) for (double e1 : {4000.0, 9000.0}) for (double lo : {0.004, 0.03})
    {
        if (!begin(fmt("chain %s %s %s fraction=%g steps=%d energy=%g draws=%g", F[f], M[m], P[s], fr, st, e1, lo))) continue;
        Cfg c = base(F[f]); c.model = M[m]; c.pairs = true; c.frac = fr; c.end = (st - 0.5) * c.dt; Source& q = c.src[0]; q.type = P[s]; q.e1 = e1; std::vector<double> us = {lo, 0.8};
        std::multimap<double, Final> w; if (!reference(c, us, 0.6, w)) continue; long heavy = 0;
        for (auto& x : w) { for (auto& v : x.second.o.ev) for (auto& e : v) { bool h = false; for (auto& p : e.p) if (p.alive && p.w != 1 && p.kind != ref::PHOTON) h = true; heavy += h; } }
        count("final_states_with_weighted_pairs", heavy); if (histories > (T ? 20000 : 400)) { count("left_to_thorough"); continue; }
        std::string e = explore(c, us, 0.6, true, w); if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(c));
        if (T && w.size() < 300) { e = explore(c, us, 0.6, false, w); if (e.size()) fail("QEDCASC: " + e + "\n" + deck(c)); }
    }
    // many products: one history each, of hundreds of steps
    for (int f = 0; f < 4; f++) for (int m = 0; m < 2; m++) for (int s = 0; s < 3; s++) for (int pp = 0; pp < 2; pp++) for (int n : {1, 4}) for (int st : {100, 400}) for (double u : {0.02, 0.4})
    {
        if (f > 1 && (s == 1 || pp)) continue; if (!T && (f + m + s + pp + n + st + (u > 0.1)) % 2) continue;
        if (!begin(fmt("many %s %s %s pairs=%d events=%d steps=%d draw=%g", F[f], M[m], P[s], pp, n, st, u))) continue;
        Cfg c = base(F[f]); c.model = M[m]; c.pairs = pp; c.dt = 1e4; c.end = (st - 0.5) * c.dt; Source& q = c.src[0]; q.type = P[s]; q.n = n; q.e1 = s == 2 ? 8000 : 1500; std::vector<double> us = {u};
        std::multimap<double, Final> w; if (!reference(c, us, 0.6, w)) continue;
        for (auto& x : w) { size_t k = 0; for (auto& v : x.second.o.ev) for (auto& e : v) for (auto& p : e.p) k += p.alive; count("particles_of_large_events", k); distinct(fmt("many %zu", k)); }
        std::string e; if (f < 2) e = explore(c, us, 0.6, true, w); if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(c));
        e = explore(c, us, 0.6, false, w); if (e.size()) fail("QEDCASC: " + e + "\n" + deck(c));
    }
    return finish();
}
