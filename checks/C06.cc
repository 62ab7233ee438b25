// C06: histograms against a model: all properties, spellings, layouts and
// values of a grid, and all operation sequences up to a depth.
#include "vp.hh"
#include <iostream>
#include <sstream>
#include "Histogram.hh"
#include "Lepton.hh"
#include "Photon.hh"
using namespace vp;

static const char* PROPS[7][2] = {{"Energy", "energy"}, {"X", "x"}, {"Y", "y"}, {"Z", "z"}, {"PX", "px"}, {"PY", "py"}, {"PZ", "pz"}};

// A particle whose property `prop` is v and whose other properties are far
// from every histogram's range, or inside it in another bin (decoys).
static Particle* make(int prop, double v, int kind, double decoy)
{
    ThreeVector x(decoy, decoy * 1.01, decoy * 1.02), p(decoy * 1.03, decoy * 1.04, decoy * 1.05);
    if (prop >= 1 && prop <= 3) x[prop - 1] = v;
    if (prop >= 4) p[prop - 4] = v;
    if (prop == 0)
    {
        ThreeVector d(1, 2, -2);
        if (kind == 2) return new Photon(v, x, d);
        return new Lepton(1.0, kind ? 1.0 : -1.0, v, x, d);
    }
    if (kind == 2) return new Photon(x, p, 0.25);
    return new Lepton(1.0, kind ? 1.0 : -1.0, x, p, 3.0);
}

struct Model
{
    double lo, hi; int n; std::vector<double> b;
    double centre(int i) const { return lo + i * (hi - lo) / (n - 1); }
    void add(double v)
    {
        if (!(v > lo && v < hi)) return;
        int best = 0; for (int i = 1; i < n; i++) if (std::fabs(centre(i) - v) < std::fabs(centre(best) - v)) best = i;
        b[best] += 1;
    }
    void norm() { double s = 0; for (double v : b) s += v; if (s > 0) for (double& v : b) v /= s; }
};
static std::string cmp(Histogram& h, const Model& m)
{
    if ((int)h.GetNBins() != m.n) return fmt("%u bins instead of %d", h.GetNBins(), m.n);
    for (int i = 0; i < m.n; i++)
    {
        if (!close(h.GetBinCentres()[i], m.centre(i), 1e-9, 1e-9 * (std::fabs(m.lo) + std::fabs(m.hi)))) return fmt("bin %d centred at %.12g instead of %.12g", i, h.GetBinCentres()[i], m.centre(i));
        if (!close(h.GetBinValues()[i], m.b[i], 1e-9, 1e-12)) return fmt("bin %d of %d holds %.12g instead of %.12g", i, m.n, h.GetBinValues()[i], m.b[i]);
    }
    return "";
}

struct Layout2 { double lo, hi; int n; };
int main()
{
    init();
    vp::rng_const(0.5, 0.5);
    bool T = thorough();
    struct L { double lo, hi; int n; };
    std::vector<L> layouts = {{1.5, 9.5, 2}, {1.5, 9.5, 3}, {2, 4, 5}, {10, 1000, 12}};
    if (T) for (int n : {4, 6, 7, 33, 100, 101}) { layouts.push_back({1.25, 77, n}); layouts.push_back({-8, 8, n}); }
    layouts.push_back({-3, 5, 9}); layouts.push_back({-700, -20, 4}); layouts.push_back({3, 700, 300}); layouts.push_back({1.5, 3e4, 5000});
    // 1. every property, spelling, layout and value: one bin or none
    for (int pr = 0; pr < 7; pr++) for (int sp = 0; sp < 2; sp++) for (auto& l : layouts)
    {
        if (pr == 0 && l.lo < 1) continue;
        if (!begin(fmt("add %s [%g,%g] %d bins", PROPS[pr][sp], l.lo, l.hi, l.n))) continue;
        double d = (l.hi - l.lo) / (l.n - 1);
        std::vector<double> vals;
        for (int i = 0; i < l.n; i += l.n > 500 && i > 20 && i < l.n - 20 ? 97 : 1) for (double f : {-0.49, -0.25, -0.01, 0.0, 0.01, 0.25, 0.49}) { double v = l.lo + (i + f) * d; if (v != l.lo && v != l.hi && !(i == 0 && f == 0) && !(i == l.n - 1 && f == 0)) vals.push_back(v); }
        vals.push_back(l.lo - 3 * d); vals.push_back(l.hi + 3 * d); vals.push_back(l.lo - 1e6 * d); vals.push_back(l.hi + 1e6 * d);
        Model m{l.lo, l.hi, l.n, std::vector<double>(l.n, 0)};
        Histogram all("all", "Electron", PROPS[pr][sp], 0, l.lo, l.hi, l.n);
        Histogram late; late.Initialise("late", "Electron", PROPS[pr][sp], 2.5, l.lo, l.hi, l.n);
        if (all.GetName() != "all" || all.GetParticle() != "Electron" || all.GetTime() != 0 || late.GetTime() != 2.5 || late.GetName() != "late") fail("name, particle or time of the histogram");
        for (double v : vals) for (int kind = 0; kind < 3; kind++) for (double decoy : {l.hi + 1000, l.lo + 0.3 * d})
        {
            if (pr == 0 && (v < 1.0 || (kind < 2 && v <= 1.0))) continue;
            Particle* p = make(pr, v, kind, decoy);
            Model one{l.lo, l.hi, l.n, std::vector<double>(l.n, 0)}; one.add(v); m.add(v);
            Histogram h("one", "Electron", PROPS[pr][sp], 0, l.lo, l.hi, l.n);
            h.AppParticle(p); all.AppParticle(p); late.AppParticle(p);
            std::string e = cmp(h, one); if (e.size()) fail(fmt("value %.12g, particle kind %d: ", v, kind) + e);
            distinct(fmt("%d %d %g %d ", pr, sp, l.lo, l.n) + fmt("%.12g %d %g", v, kind, decoy)); count("single_additions");
            delete p;
        }
        std::string e = cmp(all, m); if (e.size()) fail("after all additions: " + e);
        e = cmp(late, m); if (e.size()) fail("initialised histogram after all additions: " + e);
    }
    // 2. filling from lists
    for (int pr = 0; pr < 7; pr++) for (int sp = 0; sp < 2; sp++) for (auto& l : layouts)
    {
        if (pr == 0 && l.lo < 1) continue;
        double d = (l.hi - l.lo) / (l.n - 1); double out = l.hi + 2 * d, in1 = l.lo + 0.8 * d, in2 = l.hi - 0.3 * d, in3 = l.lo + 0.1 * d;
        std::vector<std::vector<double>> lists = {{}, {out}, {in1}, {in1, in2}, {in1, out, in1, in3}, {in2, in3, in2, in2, out, out}};
        { std::vector<double> many; for (int k = 0; k < 1500; k++) many.push_back(k % 7 == 0 ? out : l.lo + std::fmod(0.1234 + 0.61803398875 * k, 1.0) * (l.hi - l.lo)); for (double& v : many) if (v != out) { double f = std::fmod((v - l.lo) / d, 1.0); if (std::fabs(f - 0.5) < 0.02) v += 0.1 * d; if (v >= l.hi) v = in3; } lists.push_back(many); }
        for (size_t q = 0; q < lists.size(); q++)
        {
            if (!begin(fmt("fill %s [%g,%g] %d bins, list %zu", PROPS[pr][sp], l.lo, l.hi, l.n, q))) continue;
            auto work = [&]() -> std::string {
                ParticleList pl("l", lists[q].size() + 2); Model m{l.lo, l.hi, l.n, std::vector<double>(l.n, 0)};
                for (double v : lists[q]) { pl.AddParticle(make(pr, v, 0, l.hi + 1000)); m.add(v); }
                m.norm();
                Histogram h("one", "Electron", PROPS[pr][sp], 0, l.lo, l.hi, l.n); h.Fill(&pl); return cmp(h, m);
            };
            count("list_fills"); distinct(fmt("F%d %d %g %d %zu", pr, sp, l.lo, l.n, q));
            if (pr < 4) { std::string e = work(); if (e.size()) fail(e); }
            else
            {   // filling momenta from a list may be refused, but not be wrong
                int w = forked([&] { return work().size() ? 77 : 0; });
                if (!WIFEXITED(w) || WEXITSTATUS(w) == 77) fail("wrong bins or crash");
            }
        }
    }
    // 3. all operation sequences up to a depth against the model
    int depth = T ? 7 : 5;
    struct Op { const char* n; };
    const int NOP = 9;
    long total = 1; for (int i = 0; i < depth; i++) total *= NOP;
    for (int first = 0; first < NOP; first++)
    {
        if (!begin(fmt("all sequences that start with operation %d", first))) continue;
        std::vector<int> seq = {first};
        std::function<void()> rec = [&] {
            // replay the sequence on a real histogram, check after its last operation
            Histogram h("h", "Photon", "x", 1, 0, 4, 5); Model m{0, 4, 5, std::vector<double>(5, 0)};
            std::string name;
            for (int o : seq)
            {
                auto app = [&](double v, int kind) { Particle* p = make(1, v, kind, 50); h.AppParticle(p); m.add(v); delete p; };
                auto other = [&](double lo, double hi, int n, std::vector<double> vs, bool ok) {
                    Histogram* g = new Histogram("g", "Photon", "x", 1, lo, hi, n); Model mm{lo, hi, n, std::vector<double>(n, 0)};
                    for (double v : vs) { Particle* p = make(1, v, 2, 50); g->AppParticle(p); mm.add(v); delete p; }
                    h.Merge(g); if (ok) for (int i = 0; i < 5; i++) m.b[i] += mm.b[i];
                };
                auto fill = [&](std::vector<double> vs) { ParticleList l("l", 4); for (double v : vs) { l.AddParticle(make(1, v, 2, 50)); m.add(v); } h.Fill(&l); m.norm(); };
                switch (o)
                {
                case 0: app(0.2, 0); break;
                case 1: app(2.9, 2); break;
                case 2: app(9, 1); break;
                case 3: fill({}); break;
                case 4: fill({1.1, 3.8, -5}); break;
                case 5: other(0, 4, 5, {2.2, 2.3}, true); break;
                case 6: other(0, 8, 5, {2.2}, false); break;
                case 7: other(0, 4, 9, {1.2}, false); break;
                case 8: other(1, 4, 5, {2.2}, false); break;
                }
            }
            transition(); trace(); state(hash(m.b.data(), m.b.size() * sizeof(double)));
            std::string e = cmp(h, m);
            if (e.size()) { std::string s; for (int o : seq) s += fmt("%d ", o); fail("sequence " + s + ": " + e); return; }
            if ((int)seq.size() < depth) for (int o = 0; o < NOP; o++) { seq.push_back(o); rec(); seq.pop_back(); }
        };
        rec();
    }
    // 3b. every pair of layouts: only equal ones merge
    std::vector<Layout2> ls; for (int n : {2, 3, 8}) for (double lo : {0., -1., 0.25, 1e6}) for (double w : {1., 4., 1e-6}) ls.push_back({lo, lo + w, n});
    for (size_t i = 0; i < ls.size(); i++)
    {
        if (!begin(fmt("merges with [%g,%g] %d bins", ls[i].lo, ls[i].hi, ls[i].n))) continue;
        for (size_t j = 0; j < ls.size(); j++)
        {
            bool same = i == j;
            auto set = [&](Layout2 l, Model& m, double f) { Histogram* h = new Histogram("h", "Photon", "x", 1, l.lo, l.hi, l.n); m = Model{l.lo, l.hi, l.n, std::vector<double>(l.n, 0)}; double v = l.lo + f * (l.hi - l.lo); Particle* p = make(1, v, 2, 50); h->AppParticle(p); m.add(v); delete p; return h; };
            Model a, b; Histogram* h = set(ls[i], a, 0.1), *g = set(ls[j], b, 0.9); h->Merge(g); if (same) for (int k = 0; k < ls[i].n; k++) a.b[k] += b.b[k];
            std::string e = cmp(*h, a); delete h; transition(); count("merges"); if (e.size()) fail(fmt("[%g,%g] %d: ", ls[j].lo, ls[j].hi, ls[j].n) + e);
        }
    }
    // 4. refused: unknown properties and histograms that were never set up
    for (const char* bad : {"", "E", "energyy", "w", "P", "mass", "xx"})
    {
        if (!begin(std::string("unknown property \"") + bad + "\"")) continue;
        for (int fillit = 0; fillit < 2; fillit++)
        {
            int w = forked([&] { Histogram h("h", "Photon", bad, 0, 0, 1, 3); ParticleList l("l", 4); l.AddParticle(make(1, 0.5, 2, 0.6)); if (fillit) h.Fill(&l); else h.AppParticle(l.GetParticle(0)); return 0; });
            if (!WIFEXITED(w) || WEXITSTATUS(w) == 0) fail(fmt("not refused with an error (status %d)", w));
        }
        distinct(std::string("U") + bad); count("refusals");
    }
    if (begin("not initialised"))
        for (int fillit = 0; fillit < 2; fillit++)
        {
            int w = forked([&] { Histogram h; ParticleList l("l", 4); l.AddParticle(make(1, 0.5, 2, 0.6)); if (fillit) h.Fill(&l); else h.AppParticle(l.GetParticle(0)); return 0; });
            if (!WIFEXITED(w) || WEXITSTATUS(w) == 0) fail(fmt("not refused with an error (status %d)", w));
        }
    return finish();
}
