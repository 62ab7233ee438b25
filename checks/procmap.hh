// Compares a process with its reference over every sequence of draws.
#ifndef PROCMAP_HH
#define PROCMAP_HH
#include "physmap.hh"
#include "Process.hh"
using namespace vp; using ref::V; using ref::Part;
typedef std::function<void(Part&, std::vector<Part>&, const ref::Draws&)> RefProc;
static inline double prob(const Choices& c) { double p = 1; for (int a : c.arity) p /= a; return p; }
static inline void secondaries(std::vector<double>& o, std::vector<std::vector<double>> s)
{   // order within one step is left open: sort by kind, then by the numbers
    std::sort(s.begin(), s.end(), [](const std::vector<double>& a, const std::vector<double>& b) { return a[10] != b[10] ? a[10] < b[10] : a < b; });
    o.push_back(s.size()); for (auto& v : s) o.insert(o.end(), v.begin(), v.end());
}
// The step between two interactions: the particle is moved so that the field differs
static inline void between(Part& r, double dt) { if (!r.alive) return; r.t += dt; r.x = r.x + V(0.1, -0.2, 0.4); r.note(); }
static inline void between(Particle* q, double dt) { if (!q->IsAlive()) return; q->UpdateTime(dt); q->UpdateTrack(q->GetPosition() + ThreeVector(0.1, -0.2, 0.4), q->GetMomentum()); }
static inline void invariants(const Part& before, Particle* q, ParticleList& l, unsigned from, bool pairs)
{
    double e0 = before.energy();
    for (unsigned i = from; i < l.GetNPart(); i++)
    {
        Particle* s = l.GetParticle(i); auto v = vec(s); for (double d : v) if (!std::isfinite(d)) { fail("undefined number in " + ref::str(v)); return; }
        if (s->GetEnergy() > e0 * (1 + 1e-12)) fail(fmt("a product of energy %.15g from a particle of energy %.15g", s->GetEnergy(), e0));
    }
    for (double d : vec(q)) if (!std::isfinite(d)) { fail("undefined number in the particle " + ref::str(vec(q))); return; }
    (void)pairs;
}
// Number of particles that an event holds already: many in every fourth comparison
static unsigned beforeN = 0;
static inline unsigned before() { return beforeN; }
static inline void nextBefore() { static std::string key; static int k; if (key != vp::st().key) { key = vp::st().key; k = 0; for (char c : key) k = (k * 31 + (unsigned char)c) & 0xffff; } beforeN = k++ % 4 == 3 ? 300 : 0; }
// Another process with another field meets an equal particle at the same place and time just before
static ref::Field decoyField; static inline void decoy(const std::function<Process*(EMField*)>& mk, const ref::Field& F, const Part& start)
{
    static Process* p; static FnField* f; static int k; if (!p) { f = new FnField([](double t, V x) { return decoyField(t, x); }); p = mk(f); }
    double a = k++ % 2 ? 0.7 : 0.9998; decoyField = [F, a](double t, V x) { ref::EB e = F(t, x); e.e = a * e.e; e.b = a * e.b; return e; };
    rng_const(0.2, 0); Part s = start; s.od = 1e9; Particle* q = make(s); ParticleList l("l", 10); p->Interact(q, &l); delete q; decoyField = nullptr;
}
static inline void compare(const std::function<Process*(EMField*)>& mk, const RefProc& rp, const ref::Field& F, const Part& start, int steps, double dt,
    const std::vector<double>& us, double tol = 1e-8, bool enforceEnergy = true)
{
    nextBefore(); ref::Dist got, want; FnField f(F); rng_const(0, 0); Process* pr = mk(&f); std::string err;
    try {
    Choices d; rng_const(0, 0);
    do
    {
        d.start(); Part a = start; ref::Draws dr; dr.u = [&] { return us[d.choose((int)us.size())]; }; dr.z = [] { return 0.0; }; std::vector<double> o;
        for (int s = 0; s < steps; s++)
        { std::vector<Part> out; if (s) between(a, dt); rp(a, out, dr); std::vector<std::vector<double>> sec; for (auto& x : out) sec.push_back(vec(x)); secondaries(o, sec); }
        auto v = vec(a); o.insert(o.end(), v.begin(), v.end()); want.add(o, prob(d));
    } while (d.next() && d.runs < 2000000);
    } catch (ref::Beyond&) { count("beyond_the_tables"); delete pr; return; }
    Choices c; std::vector<double> zs{0}; decoy(mk, F, start);
    do
    {
        c.start(); rng_const(0, 0); Particle* q = make(start); ParticleList l("l", 1000); unsigned n = before(); for (unsigned i = 0; i < n; i++) l.AddParticle(new Photon(ThreeVector(i, 0, 0), ThreeVector(0, 0, 1))); std::vector<double> o;
        rng_choices(c, us, zs);
        for (int s = 0; s < steps; s++)
        {
            Part b = start; b.p = rv(q->GetMomentum());
            if (s) between(q, dt);
            pr->Interact(q, &l); transition();
            if (enforceEnergy) invariants(b, q, l, n, false);
            std::vector<std::vector<double>> sec; for (; n < l.GetNPart(); n++) sec.push_back(vec(l.GetParticle(n))); secondaries(o, sec);
        }
        auto v = vec(q); o.insert(o.end(), v.begin(), v.end()); got.add(o, prob(c)); state(hash(ref::str(o))); delete q;
    } while (c.next() && c.runs < 2000000);
    count("draw_sequences", c.runs);
    double sc = ref::len(start.p); std::string e = ref::cmp(got, want, tol, 1e-12 * (1 + sc)); if (!e.empty()) fail(e);
    distinct(fmt("%zu %s", want.o.size(), want.o.empty() ? "" : ref::str(want.o.back().v).c_str())); trace(); delete pr;
}
static inline std::vector<V> someDirs() { return {V(0, 0, 1), V(0, 0, -1), ref::unit(V(1, 2, -3)), ref::unit(V(-1, 0.2, 0.1)), V(0, -1, 0)}; }
static inline std::vector<double> mids(int k) { std::vector<double> r; for (int i = 0; i < k; i++) r.push_back((i + 0.5) / k); return r; }
// amplitude such that the largest eta (or chi) near the start is about e
static inline double etaNow(const Part& p, const ref::Field& F) { ref::EB f = F(p.t, p.x); return ref::etaOf(p.p, f.e, f.b); }
#endif
