// C23: particles and lists against a model, all operation sequences.
#include "vp.hh"
#include <iostream>
#include <sstream>
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"
using namespace vp;
static double U = 0.5;

struct M
{
    double mass, charge, weight, time, od; bool track, alive; double x[3], p[3];
    struct H { double x[3], p[3], t, g; }; std::vector<H> h;
    double p2() const { return p[0] * p[0] + p[1] * p[1] + p[2] * p[2]; }
    double gamma() const { return mass == 0 ? std::sqrt(p2()) : std::sqrt(1 + p2() / (mass * mass)); }
    double energy() const { return std::sqrt(mass * mass + p2()); }
};
static bool veq(const ThreeVector& v, const double* e, double tol = 1e-12)
{
    double s = std::sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
    for (int i = 0; i < 3; i++) if (!(std::fabs(v[i] - e[i]) <= tol * s)) return false;
    return true;
}
static std::string check(Particle* q, const M& m, bool photon)
{
    if (q->GetMass() != m.mass || q->GetCharge() != m.charge || q->GetWeight() != m.weight) return "mass, charge or weight changed";
    if (!close(q->GetTime(), m.time, 1e-12, 1e-15)) return fmt("time %.15g instead of %.15g", q->GetTime(), m.time);
    if (!close(q->GetOpticalDepth(), m.od, 1e-9, 1e-12)) return fmt("optical depth %.15g instead of %.15g", q->GetOpticalDepth(), m.od);
    if (q->IsAlive() != m.alive) return "alive flag";
    if (q->GetTracking() != m.track) return "tracking flag";
    if (!veq(q->GetPosition(), m.x) || !veq(q->GetMomentum(), m.p)) return "position or momentum";
    double pm = std::sqrt(m.p2());
    if (!close(q->GetEnergy(), m.energy(), 1e-12)) return fmt("energy %.15g instead of %.15g", q->GetEnergy(), m.energy());
    if (!close(q->GetGamma(), m.gamma(), 1e-12)) return fmt("gamma %.15g instead of %.15g", q->GetGamma(), m.gamma());
    double beta = photon ? 1.0 : pm / m.energy();
    if (!(std::fabs(q->GetBeta() - beta) <= std::max(1e-13, std::min(3e-8, 2e-15 / std::max(beta, 1e-9))))) return fmt("beta %.15g instead of %.15g", q->GetBeta(), beta);
    double d[3] = {0, 0, 0}; if (pm > 0) for (int i = 0; i < 3; i++) d[i] = m.p[i] / pm;
    if (!veq(q->GetDirection(), d)) return "direction";
    std::string ty = photon ? "Photon" : "Lepton", na = photon ? "Photon" : m.charge < 0 ? "Electron" : "Positron";
    if (q->GetType() != ty || q->GetName() != na) return "type or name " + q->GetType() + " " + q->GetName();
    auto ph = q->GetPosHist(); auto mh = q->GetMomHist(); auto th = q->GetTimeHist(); auto gh = q->GetGammaHist();
    if (ph.size() != m.h.size() || mh.size() != m.h.size() || th.size() != m.h.size() || gh.size() != m.h.size())
        return fmt("histories of lengths %zu %zu %zu %zu instead of %zu", ph.size(), mh.size(), th.size(), gh.size(), m.h.size());
    for (size_t i = 0; i < m.h.size(); i++)
        if (!veq(ph[i], m.h[i].x) || !veq(mh[i], m.h[i].p) || !close(th[i], m.h[i].t, 1e-12, 1e-15) || !close(gh[i], m.h[i].g, 1e-12)) return fmt("history entry %zu", i);
    return "";
}
static const double XS[3][3] = {{1, 2, 3}, {-4, 0.5, 1e4}, {0, 0, -2}};
static const double PS[3][3] = {{0.3, -0.4, 1.2}, {1e6, -20, 0}, {0, 0, -1e-2}};
static const char* OPN[] = {"track0", "track1", "track2", "time+0.25", "time+3", "depth-0.1", "depth-5", "kill", "init u=.2", "init u=.9"};
static void apply(Particle* q, M& m, int o)
{
    switch (o)
    {
    case 0: case 1: case 2:
        q->UpdateTrack(ThreeVector(XS[o][0], XS[o][1], XS[o][2]), ThreeVector(PS[o][0], PS[o][1], PS[o][2]));
        for (int i = 0; i < 3; i++) { m.x[i] = XS[o][i]; m.p[i] = PS[o][i]; }
        if (m.track) { M::H h; for (int i = 0; i < 3; i++) { h.x[i] = m.x[i]; h.p[i] = m.p[i]; } h.t = m.time; h.g = m.gamma(); m.h.push_back(h); }
        break;
    case 3: q->UpdateTime(0.25); m.time += 0.25; break;
    case 4: q->UpdateTime(3); m.time += 3; break;
    case 5: q->UpdateOpticalDepth(0.1); m.od -= 0.1; break;
    case 6: q->UpdateOpticalDepth(5); m.od -= 5; break;
    case 7: q->Kill(); m.alive = false; break;
    // the law of a fresh depth is checked below, here only that it is fresh
    case 8: U = 0.2; q->InitOpticalDepth(); m.od = q->GetOpticalDepth(); if (!(m.od >= 0) || !(m.od < 50)) fail("fresh depth"); break;
    case 9: U = 0.9; q->InitOpticalDepth(); m.od = q->GetOpticalDepth(); if (!(m.od >= 0) || !(m.od < 50)) fail("fresh depth"); break;
    }
}
static int deleted = 0; static std::map<int, int> dels;
struct Counted: public Lepton { int id; Counted(int i): Lepton(1, -1, ThreeVector(), ThreeVector(0, 0, i)), id(i) {} ~Counted() { dels[id]++; deleted++; } };

int main()
{
    init();
    bool T = thorough();
    rng().u = [] { return U; }; rng().z = [] { return 0.0; };
    struct Mk { const char* n; double mass, charge; bool photon; };
    const Mk kinds[] = {{"electron", 1, -1, false}, {"positron", 1, 1, false}, {"photon", 0, 0, true}, {"heavy", 206.7, -1, false}};
    // constructors, and all operation sequences from each
    int depth = T ? 6 : 4;
    for (auto& k : kinds) for (int ct = 0; ct < 4; ct++) for (int track = 0; track < 2; track++) for (int c = 0; c < 7; c++)
    {
        auto build = [&](M& m) -> Particle* {
            static const double P0[7][3] = {{0, 0, 5}, {0.3, -0.4, 0}, {-1e3, 2e3, 4e5}, {1e-3, 0, 0}, {0, -7, 1e-4}, {3, 4, 12}, {0, 0, 0}};
            double w = c % 2 ? 1 : 0.125, t = c % 3 ? 2.5 : 0;
            m = M(); m.mass = k.mass; m.charge = k.charge; m.track = track; m.alive = true; m.weight = w; m.time = t; m.x[0] = -1; m.x[1] = 7; m.x[2] = 0.5 * c;
            for (int i = 0; i < 3; i++) m.p[i] = P0[c][i];
            ThreeVector X(m.x[0], m.x[1], m.x[2]), P(m.p[0], m.p[1], m.p[2]);
            if (ct >= 2 && k.mass == 0 ? false : false) return nullptr;
            Particle* q;
            if (ct % 2 == 0)
            {
                if (ct == 2) { m.weight = 1; m.time = 0; m.track = false; q = k.photon ? (Particle*)new Photon(X, P) : new Lepton(k.mass, k.charge, X, P); }
                else q = k.photon ? (Particle*)new Photon(X, P, w, t, track) : new Lepton(k.mass, k.charge, X, P, w, t, track);
            }
            else
            {   // by energy and a direction of any length
                ThreeVector D(P[0] * 3, P[1] * 3, P[2] * 3); double E = m.energy();
                if (c == 6) D = ThreeVector(1, -2, 2); // at rest, whatever the direction
                if (ct == 3) { m.weight = 1; m.time = 0; m.track = false; q = k.photon ? (Particle*)new Photon(E, X, D) : new Lepton(k.mass, k.charge, E, X, D); }
                else q = k.photon ? (Particle*)new Photon(E, X, D, w, t, track) : new Lepton(k.mass, k.charge, E, X, D, w, t, track);
                // |p| of a slow particle loses digits through its energy
                ThreeVector pm = q->GetMomentum(); double err = 0, s = std::sqrt(m.p2());
                for (int i = 0; i < 3; i++) err = std::max(err, std::fabs(pm[i] - m.p[i]));
                if (!(err <= (s > 0 ? 1e-9 * s + 1e-14 * E * E / s : 1e-15 * E))) fail(fmt("momentum (%g,%g,%g) instead of (%g,%g,%g) for energy %.15g", pm[0], pm[1], pm[2], m.p[0], m.p[1], m.p[2], E));
                for (int i = 0; i < 3; i++) m.p[i] = pm[i];
            }
            m.od = q->GetOpticalDepth(); if (!(m.od >= 0)) fail("initial optical depth");
            return q;
        };
        if (!begin(fmt("%s constructor %d tracking %d case %d", k.n, ct, track, c))) continue;
        std::vector<int> seq; int dep = c == 5 && ct == 0 ? depth : (c < 2 ? 2 : 1);
        std::function<void()> rec = [&] {
            M m; U = 0.37; Particle* q = build(m);
            for (int o : seq) apply(q, m, o);
            std::string e = check(q, m, k.photon);
            transition(); trace(); state(hash(&m.x, sizeof m.x + sizeof m.p, hash(fmt("%s %d %g %.6g %d %zu", k.n, m.track, m.time, m.od, m.alive, m.h.size()))));
            delete q;
            if (e.size()) { std::string s; for (int o : seq) s += std::string(" ") + OPN[o]; fail("after" + s + ": " + e); return; }
            if ((int)seq.size() < dep) for (int o = 0; o < 10; o++) { seq.push_back(o); rec(); seq.pop_back(); }
        };
        rec();
    }
    // lists of every capacity and fill
    for (unsigned cap = 0; cap <= (T ? 8u : 5u); cap++) for (unsigned n = 0; n <= cap + 3; n++)
    {
        if (!begin(fmt("list capacity %u, %u particles", cap, n))) continue;
        dels.clear(); std::stringstream err; std::streambuf* old = std::cerr.rdbuf(err.rdbuf()); auto* oldo = std::cout.rdbuf(err.rdbuf());
        std::vector<Counted*> made;
        {
            ParticleList* l = new ParticleList("a list", cap);
            if (l->GetName() != "a list" || l->GetNPart() != 0) fail("new list");
            for (unsigned i = 0; i < n; i++)
            {
                Counted* c = new Counted(i); made.push_back(c); err.str("");
                l->AddParticle(c);
                unsigned e = std::min(i + 1, cap);
                if (l->GetNPart() != e) fail(fmt("%u particles after adding %u to a list for %u", l->GetNPart(), i + 1, cap));
                if ((i >= cap) != (err.str().size() > 0)) fail(i >= cap ? "a forgotten particle is not reported" : "a kept particle is reported as forgotten");
                for (unsigned j = 0; j < l->GetNPart() && j <= i; j++) if (l->GetParticle(j) != made[j]) fail(fmt("particle %u of the list is not the one added as number %u", j, j));
                transition(); state(hash(fmt("list %u %u", cap, e))); trace();
                for (unsigned j = 0; j < e; j++) if (dels.count(j)) fail("a particle of the list was released too early");
            }
            delete l;
        }
        std::cerr.rdbuf(old); std::cout.rdbuf(oldo);
        for (unsigned i = 0; i < n; i++)
        {
            if (i < cap && dels[i] != 1) fail(fmt("particle %u was released %d times", i, dels[i]));
            if (i >= cap && dels[i] > 1) fail("a forgotten particle was released twice");
        }
        count("list_histories");
    }
    if (begin("default capacity"))
    {
        ParticleList l("big"); for (int i = 0; i < 20000; i++) l.AddParticle(new Photon(ThreeVector(i, 0, 0), ThreeVector(1, 0, 0)));
        bool ok = l.GetNPart() == 20000; for (int i = 0; ok && i < 20000; i++) ok = l.GetParticle(i)->GetPosition()[0] == i;
        if (!ok) fail("a default list does not hold 20000 particles in order");
    }
    // whatever their values, particles are kept
    if (begin("unusual particles"))
    {
        ParticleList l("odd", 64); std::vector<Particle*> made; double W[] = {0, 1, -1, 1e-30, 1e30}; double P[] = {0, 1e-12, 5, 1e12};
        for (double w : W) for (double p : P) { made.push_back(new Photon(ThreeVector(1, 2, 3), ThreeVector(0, 0, p), w, -3)); made.push_back(new Lepton(1, -1, ThreeVector(1, 2, 3), ThreeVector(0, 0, p), w, -3)); }
        for (auto* p : made) l.AddParticle(p);
        if (l.GetNPart() != made.size()) fail(fmt("%u particles instead of %zu", l.GetNPart(), made.size()));
        else for (size_t i = 0; i < made.size(); i++) if (l.GetParticle(i) != made[i]) fail(fmt("particle %zu is not the one added", i));
    }
    // long histories
    for (auto& k : kinds) for (int track = 0; track < 2; track++) for (int first = 0; first < 10; first++)
    {
        if (!begin(fmt("%s long history %d, tracking %d", k.n, first, track))) continue;
        M m; m = M(); m.mass = k.mass; m.charge = k.charge; m.track = track; m.alive = true; m.weight = 0.5; m.time = 1; for (int i = 0; i < 3; i++) { m.x[i] = i; m.p[i] = i + 1; }
        ThreeVector X(0, 1, 2), P(1, 2, 3); Particle* q = k.photon ? (Particle*)new Photon(X, P, 0.5, 1, track) : new Lepton(k.mass, k.charge, X, P, 0.5, 1, track); m.od = q->GetOpticalDepth(); std::string e;
        for (int n = 0; n < 6000 && e.empty(); n++) { apply(q, m, n % 2 ? (first + n * 7) % 10 : n % 3); transition(); if (n % 1000 == 17 || n == 5999) { e = check(q, m, k.photon); if (e.size()) fail(fmt("after %d operations: ", n + 1) + e); } }
        state(hash(fmt("long %s %d %d %g %.6g %zu", k.n, track, first, m.time, m.od, m.h.size()))); trace(); delete q;
    }
    // the law of a fresh optical depth: the outcomes over a fine grid of the
    // uniform number are the quantiles of the exponential law
    for (int which = 0; which < 2; which++)
    {
        if (!begin(fmt("law of the optical depth %d", which))) continue;
        int N = T ? 20000 : 4000; std::vector<double> got, want;
        Lepton e(1, -1, ThreeVector(), ThreeVector(0, 0, 1));
        for (int i = 0; i < N; i++)
        {
            U = (i + 0.5) / N;
            if (which) { e.InitOpticalDepth(); got.push_back(e.GetOpticalDepth()); }
            else { Photon g(1.0, ThreeVector(), ThreeVector(1, 0, 0)); got.push_back(g.GetOpticalDepth()); }
            want.push_back(-std::log(1 - U));
        }
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        for (int i = 0; i < N; i++) if (!close(got[i], want[i], 1e-9, 1e-12)) { fail(fmt("quantile %d of %d is %.12g instead of %.12g", i, N, got[i], want[i])); break; }
        for (double u : {0.0, 1 - 0x1p-53}) { U = u; e.InitOpticalDepth(); if (!(e.GetOpticalDepth() >= 0)) fail(fmt("depth %g for u=%.17g", e.GetOpticalDepth(), u)); }
        count("depth_draws", N);
    }
    return finish();
}
