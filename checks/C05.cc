// C05: all sequences of output operations against a model of the file.
#include "vp.hh"
#include "h5map.hh"
#include <iostream>
#include "OutputManager.hh"
#include "Lepton.hh"
#include "Photon.hh"
using namespace vp;

struct Field: public EMField
{
    static double f(int c, double t, double x, double y, double z) { return (c + 1) * 1000 + t * 100 + x * 10 + y + z * 0.1; }
    void GetField(double t, const ThreeVector& p, ThreeVector& e, ThreeVector& b) const override
    { for (int i = 0; i < 3; i++) { e[i] = f(i, t, p[0], p[1], p[2]); b[i] = f(i + 3, t, p[0], p[1], p[2]); } }
};
// what is known about a particle, apart from the object
struct PM { char s; bool alive; double E; ThreeVector p, x; std::vector<ThreeVector> hx, hp; std::vector<double> ht, hg; };
struct LM { ParticleList* l; std::vector<PM> p; };
static double serial = 0;

// species letters: e p g, upper case: killed; n track entries each
static LM list(const std::string& what, bool track, int entries, const std::string& name = "list")
{
    LM m; m.l = new ParticleList(name, what.size() + 1);
    for (char c : what)
    {
        PM q; q.s = tolower(c); q.alive = c == q.s; serial += 1; double k = serial;
        ThreeVector x(k + 0.1, -k - 0.2, k * k), p(k, 2 * k + 0.5, -3 * k); Particle* part;
        // soft, hard and slow particles, near and far away, before and after zero
        int kk = (int)std::fmod(serial, 7); p = p * (kk == 1 ? 1e-8 : kk == 4 ? 1e7 : kk == 6 ? 1e-3 : 1); x = x * (kk == 2 ? 1e-6 : kk == 5 ? 1e8 : 1);
        if (q.s == 'g') part = new Photon(x, p, 0.5, kk == 3 ? -k : k, track); else part = new Lepton(1, q.s == 'e' ? -1 : 1, x, p, 1, kk == 3 ? -k : k, track);
        double t = kk == 3 ? -k : k;
        for (int i = 0; i < entries; i++)
        {
            t += 0.5; part->UpdateTime(0.5); x = x + ThreeVector(1, 2, 3); p = p * (i < 40 || i % 2 ? 0.9 : 1.1); part->UpdateTrack(x, p);
            if (track) { q.hx.push_back(x); q.hp.push_back(p); q.ht.push_back(t); q.hg.push_back(q.s == 'g' ? p.Mag() : std::sqrt(1 + p.Mag2())); }
        }
        q.x = x; q.p = p; q.E = std::sqrt((q.s == 'g' ? 0 : 1) + p.Mag2());
        if (!q.alive) part->Kill();
        m.l->AddParticle(part); m.p.push_back(q);
    }
    return m;
}
static std::vector<double> row(double id, const PM& q) { return {id, q.E, q.p[0], q.p[1], q.p[2], q.x[0], q.x[1], q.x[2]}; }

struct Run
{
    H5Map want; OutputManager* out; UnitsSystem* units; double L = 1, P = 1, T = 1; bool field = false;
    int nsrc = 0, ntrack = 0, n = 0; std::vector<PM> pending;
    Run(const std::string& file, bool si)
    {
        units = si ? new UnitsSystem("SI") : NULL;
        if (si) { L = units->RefLength(); P = units->RefMomentum(); T = units->RefTime(); out = new OutputManager(file, units); }
        else out = new OutputManager(file);
    }
    void track(const std::string& at, const PM& q)
    {
        std::vector<std::vector<double>> x, p; std::vector<double> t;
        for (auto& v : q.hx) x.push_back({v[0] * L, v[1] * L, v[2] * L});
        for (auto& v : q.hp) p.push_back({v[0] * P, v[1] * P, v[2] * P});
        for (double v : q.ht) t.push_back(v * T);
        want[at + "/Position"] = table(x, 3); want[at + "/Momentum"] = table(p, 3); want[at + "/Time"] = line(t); want[at + "/Gamma"] = line(q.hg);
    }
    // a source: one event per entry; order of storing; tracks kept and/or written
    void source(std::vector<std::string> ev, std::vector<int> order, bool outSrc, bool trk, int entries, bool store, bool outTrk)
    {
        if (outSrc) out->InitSource(ev.size());
        std::vector<std::vector<double>> prim(ev.size()); std::map<int, std::vector<PM>> fin;
        std::vector<LM> prims(ev.size());
        for (int j : order)
        {
            LM a = list(j % 2 ? "g" : "e", trk, 0);
            if (outSrc) out->StoreSource(a.l, j, true);
            prim[j] = row(j, a.p[0]); delete a.l;
            LM b = list(ev[j], trk, entries);
            if (outSrc) out->StoreSource(b.l, j, false);
            fin[j] = b.p;
            if (store) { out->StoreTrack(b.l, j); for (auto& q : b.p) pending.push_back(q); }
            delete b.l;
        }
        out->OutputEvents(outSrc, outTrk);
        if (outSrc)
        {
            nsrc++; std::string g = "Particles/ParticleSource" + (nsrc > 1 ? std::to_string(nsrc) : "");
            want[g + "/Primary"] = table(prim, 8);
            const char* nm[3] = {"/Electrons", "/Positrons", "/Photons"}; const char sp[4] = "epg";
            for (int s = 0; s < 3; s++)
            {
                std::vector<std::vector<double>> r;
                for (auto& e : fin) for (auto& q : e.second) if (q.alive && q.s == sp[s]) r.push_back(row(e.first, q));
                if (r.size()) want[g + nm[s]] = table(r, 8);
            }
        }
        if (outTrk) { for (auto& q : pending) track("Particles/ParticleTrack/Event" + std::to_string(ntrack++), q); pending.clear(); }
    }
    void fieldMap(std::vector<double> t, std::vector<double> x, std::vector<double> y, std::vector<double> z)
    {
        Field f; out->OutEMField(&f, t, x, y, z);
        for (size_t a = 0; a < t.size(); a++) for (int c = 0; c < 6; c++)
            {
                DSet d; d.dims = {x.size(), y.size(), z.size()};
                for (double i : x) for (double j : y) for (double l : z) d.v.push_back(Field::f(c, t[a], i, j, l));
                want["Fields/" + std::to_string(a) + (c < 3 ? "/E" : "/B") + std::to_string(c % 3)] = d;
            }
    }
    void apply(int o)
    {
        n++; std::string k = std::to_string(n);
        switch (o)
        {
        case 0: source({"eg"}, {0}, true, false, 2, false, false); break;
        case 1: source({"", "pgge", "G"}, {1, 0, 2}, true, false, 1, false, false); break;
        case 2: source({}, {}, true, false, 1, false, false); break;
        case 3: source({"ge", "p"}, {0, 1}, true, true, 2, true, true); break;
        case 4: source({"eG"}, {0}, false, true, 3, true, true); break;
        case 5: source({"g"}, {0}, true, true, 1, true, false); break;     // tracks kept for later
        case 6: { LM a = list("p", true, 3); out->SingleParticle(a.l->GetParticle(0), "s" + k); track("Particles/Single/s" + k, a.p[0]); delete a.l; break; }
        case 7: { LM a = list("eg", true, 2); out->ListTracks(a.l, "l" + k); for (int i = 0; i < 2; i++) track("Particles/ParticleList/l" + k + "/" + std::to_string(i), a.p[i]); delete a.l; break; }
        case 8: case 9: {
            std::string nm = o == 8 ? "same" : "other" + k; LM a = list(o == 8 ? "eg" : "p", false, 1, nm); out->ListProperties(a.l, "set" + k);
            std::vector<std::vector<double>> r; for (size_t i = 0; i < a.p.size(); i++) r.push_back({(double)i, a.p[i].E, a.p[i].x[0], a.p[i].x[1], a.p[i].x[2]});
            want["Particles/ParticleList/" + nm + "/set" + k] = table(r, 5); delete a.l; break; }
        case 10: {
            field = true; fieldMap({0, 5}, {1, 2, 3}, {7, 8.5}, {-1, 4, 4.5, 11}); break; }
        case 12: source({"p"}, {0}, true, true, 1, true, true); break;     // one track only
        case 13: source({"eg", ""}, {0, 1}, true, true, 0, true, true); break; // tracked, never moved
        case 14: { std::string nm = "a rather long name of a list of particles, number "; for (const char* c : {"12", "13"}) { LM a = list("eg", true, 1, nm + c + k); out->ListTracks(a.l, nm + "tracks " + c + k); out->ListProperties(a.l, nm + c); for (int i = 0; i < 2; i++) track("Particles/ParticleList/" + nm + "tracks " + c + k + "/" + std::to_string(i), a.p[i]);
            std::vector<std::vector<double>> r; for (size_t i = 0; i < a.p.size(); i++) r.push_back({(double)i, a.p[i].E, a.p[i].x[0], a.p[i].x[1], a.p[i].x[2]});
            want["Particles/ParticleList/" + nm + c + k + "/" + nm + c] = table(r, 5); delete a.l; } break; }
        case 11: {
            Histogram h("h" + k, "Electron", "x", 0, 0, n + 1, 4); Lepton e(1, -1, ThreeVector(0.1, 0, 0), ThreeVector()); h.AppParticle(&e);
            out->OutputHist(&h); std::vector<double> c; for (int i = 0; i < 4; i++) c.push_back(i * (n + 1) / 3.0);
            want["Histograms/h" + k + "/BinCentres"] = line(c); want["Histograms/h" + k + "/BinValues"] = line({1, 0, 0, 0}); break; }
        }
    }
};
static const int NOP = 12;

int main()
{
    init();
    vp::rng_const(0.5, 0.0); H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    std::string dir = getenv("VP_TMP") ? getenv("VP_TMP") : "/tmp", file = dir + "/f.h5";
    int depth = thorough() ? 4 : 3;
    // all sequences of compound operations, with and without units
    std::vector<int> seq;
    std::function<void(bool)> rec = [&](bool si) {
        int fields = 0; for (int o : seq) fields += o == 10; if (fields > 1) return;
        std::string key = si ? "SI:" : "natural:"; for (int o : seq) key += fmt(" %d", o);
        if (begin("operations " + key))
        {
            serial = 0; Run r(file, si); for (int o : seq) r.apply(o);
            delete r.out; delete r.units;
            H5Map got; std::string e = h5read(file, got); if (e.empty()) e = h5cmp(got, r.want);
            if (e.size()) fail(e);
            transition(); trace(); state(h5hash(r.want)); count("data_sets", got.size());
        }
        if ((int)seq.size() < depth) for (int o = 0; o < NOP; o++) { seq.push_back(o); rec(si); seq.pop_back(); }
    };
    rec(false); rec(true);
    // long histories: every pair of operations alternating, a dozen of each
    for (int a = 0; a < 15; a++) for (int b = a; b < 15; b++) for (int si = 0; si < 2; si++)
    {
        if (a == 10 || b == 10 || !begin(fmt("%s: alternating %d and %d", si ? "SI" : "natural", a, b))) continue;
        { serial = 0; Run r(file, si); for (int i = 0; i < 12; i++) { r.apply(a); if (b != a) r.apply(b); }
          delete r.out; delete r.units; H5Map got; std::string e = h5read(file, got); if (e.empty()) e = h5cmp(got, r.want); if (e.size()) fail(e); state(h5hash(r.want)); }
        transition(24); trace();
    }
    // field maps of every shape
    int mx = thorough() ? 5 : 4;
    for (int nt = 1; nt <= 3; nt++) for (int nx = 1; nx <= mx; nx++) for (int ny = 1; ny <= mx; ny++) for (int nz = 1; nz <= mx; nz++)
    {
        if (!begin(fmt("field map %d x %d x %d x %d", nt, nx, ny, nz))) continue;
        auto ax = [](int n, double o, double d) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(o + d * i * (i + 1)); return v; };
        { Run r(file, false); r.fieldMap(ax(nt, 0, 1.5), ax(nx, -2, 0.7), ax(ny, 3, -1.1), ax(nz, 10, 0.3)); delete r.out; delete r.units;
          H5Map got; std::string e = h5read(file, got); if (e.empty()) e = h5cmp(got, r.want); if (e.size()) fail(e); state(h5hash(r.want)); }
        transition(); trace();
    }
    // one source: all contents of up to three events and all orders of storing
    std::vector<std::string> C = {"", "e", "p", "g", "G", "eg", "gpe", "ggG", "epeg"}; if (thorough()) { C.push_back("pp"); C.push_back("GGG"); C.push_back("egegegeg"); }
    for (int n = 1; n <= 3; n++)
    {
        std::vector<size_t> d(n, 0);
        for (;;)
        {
            std::vector<std::string> ev; std::string key; for (size_t i : d) { ev.push_back(C[i]); key += "[" + C[i] + "]"; }
            std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i;
            int perm = 0; unsigned pick = 0; for (size_t i : d) pick = pick * 31 + i;
            do
            {
                if (n == 3 && !thorough() && perm % 6 != (int)(pick % 6)) { perm++; continue; }
                for (int trk = 0; trk < (n < 3 || thorough() ? 2 : 1); trk++)
                if (begin("source " + key + fmt(" order %d tracked %d", perm, trk)))
                {
                    serial = 0; Run r(file, false); r.source(ev, ord, true, trk, 2, trk, trk); delete r.out;
                    H5Map got; std::string e = h5read(file, got); if (e.empty()) e = h5cmp(got, r.want);
                    if (e.size()) fail(e);
                    transition(); trace(); state(h5hash(r.want)); count("source_contents");
                }
                perm++;
            } while (std::next_permutation(ord.begin(), ord.end()));
            int k = 0; while (k < n && ++d[k] == C.size()) d[k++] = 0;
            if (k == n) break;
        }
    }
    // large numbers: long tracks, many particles, events, bins and field points
    struct Big { const char* name; std::function<void(Run&)> f; };
    auto props = [](Run& r, size_t n) { LM a = list(std::string(n, 'g'), false, 0, "big"); r.out->ListProperties(a.l, "all");
        std::vector<std::vector<double>> t; for (size_t i = 0; i < n; i++) t.push_back({(double)i, a.p[i].E, a.p[i].x[0], a.p[i].x[1], a.p[i].x[2]}); r.want["Particles/ParticleList/big/all"] = table(t, 5); delete a.l; };
    auto single = [](Run& r, int n) { LM a = list("p", true, n); r.out->SingleParticle(a.l->GetParticle(0), "s"); r.track("Particles/Single/s", a.p[0]); delete a.l; };
    auto tracks = [](Run& r, int n) { LM a = list("eg", true, n); r.out->ListTracks(a.l, "l"); for (int i = 0; i < 2; i++) r.track("Particles/ParticleList/l/" + std::to_string(i), a.p[i]); delete a.l; };
    auto upTo = [](int n) { std::vector<int> o; for (int i = 0; i < n; i++) o.push_back((i * 7 + 3) % n); return o; };
    std::vector<Big> big;
    for (int n : {300, 5000, 200000}) { big.push_back({"one track", [=](Run& r) { single(r, n); }}); big.push_back({"list of tracks", [=](Run& r) { tracks(r, n); }});
        big.push_back({"stored tracks", [=](Run& r) { r.source({"e"}, {0}, true, true, n, true, true); }}); }
    for (int n : {70, 300, 3000, 70000}) { big.push_back({"particles", [=](Run& r) { props(r, n); }});
        for (char c : {'e', 'p', 'g', 'G'}) big.push_back({"products", [=](Run& r) { r.source({"e", std::string(n, c) + "gpe", "g"}, {2, 0, 1}, true, true, 1, n < 100, n < 100); }}); }
    for (int n : {65, 257, 1024, 4099, 70001}) big.push_back({"events", [=](Run& r) { std::vector<std::string> ev; for (int i = 0; i < n; i++) ev.push_back(i % 5 == 1 ? "gg" : i % 7 == 3 ? "eG" : i % 11 == 5 ? "" : "p"); r.source(ev, upTo(n), true, true, 1, n < 300, n < 300); }});
    big.push_back({"sources", [=](Run& r) { for (int i = 0; i < 120; i++) r.source({"e", "pg"}, {1, 0}, true, true, 1, true, true); }});
    big.push_back({"maps", [=](Run& r) { std::vector<double> t, x, y, z; for (int i = 0; i < 13; i++) t.push_back(i * 0.5); for (int i = 0; i < 40; i++) x.push_back(i * 0.25); for (int i = 0; i < 17; i++) y.push_back(-i); for (int i = 0; i < 33; i++) z.push_back(i * i); r.fieldMap(t, x, y, z); }});
    for (int w = 0; w < 3; w++) big.push_back({"map points", [=](Run& r) { std::vector<double> a[3]; for (int d = 0; d < 3; d++) for (int i = 0; i < (d == w ? 4200 : d == (w + 1) % 3 ? 17 : 1); i++) a[d].push_back(0.01 * i - d); r.fieldMap({0.5}, a[0], a[1], a[2]); }});
    for (int n : {300, 20000}) big.push_back({"bins", [=](Run& r) { Histogram h("h", "Electron", "x", 0, 0, n - 1, n); std::vector<double> c, v; for (int i = 0; i < n; i++) { Lepton e(1, -1, ThreeVector(i + 0.1, 0, 0), ThreeVector()); c.push_back(i); v.push_back(i % 3 == 0 && i < n - 1); if (v[i]) h.AppParticle(&e); }
        r.out->OutputHist(&h); r.want["Histograms/h/BinCentres"] = line(c); r.want["Histograms/h/BinValues"] = line(v); }});
    for (size_t b = 0; b < big.size(); b++) for (int si = 0; si < 2; si++)
    {
        if (!begin(fmt("%s: large number %zu of %s", si ? "SI" : "natural", b, big[b].name))) continue;
        { serial = 0; Run r(file, si); big[b].f(r); if (b % 2) r.apply(3); delete r.out; delete r.units;
          H5Map got; std::string e = h5read(file, got); if (e.empty()) e = h5cmp(got, r.want); if (e.size()) fail(e); state(h5hash(r.want)); }
        transition(); trace();
    }
    // refused: tracks of particles that are not tracked
    for (int w : {0, 1})
        if (begin(fmt("untracked particle %d", w)))
        {
            int st = forked([&] { OutputManager o(file); LM a = list("e", false, 1); if (w) o.ListTracks(a.l, "a"); else o.SingleParticle(a.l->GetParticle(0), "a"); return 0; });
            if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) fail(fmt("not refused with an error (status %d)", st));
        }
    return finish();
}
