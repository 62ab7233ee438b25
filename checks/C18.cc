// C18: particle sources, every sequence of draws over the alphabet, every order and number of requests.
#include "physmap.hh"
#include "SourceGenerator.hh"
#include <malloc.h>
using namespace vp; using ref::V;
static ref::Frame beamFrame(V d)
{
    d = ref::unit(d); if (d[2] > -1 + 1e-12) return ref::frame(d);
    ThreeMatrix m = ThreeVector(0, 0, 1).RotateToAxis(tv(d)); ref::Frame f;
    for (int i = 0; i < 3; i++) { ThreeVector u; u[i] = 1; f.e[i] = rv(m * u); }
    return f;
}
static const char* KN[3][2] = {{"Photon", "photon"}, {"Electron", "electron"}, {"Positron", "positron"}};
static const char* DN[3][2] = {{"mono", "Mono"}, {"gaussian", "Gaussian"}, {"linear", "Linear"}};
static double prob(const Choices& c) { double p = 1; for (int a : c.arity) p /= a; return p; }
struct Cfg { int kind, distro, cs; double e1, e2, dp, dt, dd; V pos, dir; bool track; };
static SourceGenerator* mk(const Cfg& c, unsigned n)
{ return new SourceGenerator(KN[c.kind][c.cs], DN[c.distro][c.cs], n, c.e1, c.e2, c.dp, c.dt, c.dd, tv(c.pos), tv(c.dir), c.track); }

int main()
{
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 64 << 20); // lists reserve 8 MB each
    init(); bool th = thorough();
    std::vector<V> D; for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) for (int k = -1; k < 2; k++) if (i || j || k) D.push_back(V(i, j, k)); D.push_back(V(0.001, -0.002, -1)); D.push_back(V(3, 0.2, 9)); for (V d : {V(2e-3, -1e-3, 1), V(-1e-4, 2e-4, 1), V(1, 1e-3, -2e-3), V(-2e-3, 5, 1e-3)}) D.push_back(d);
    // the length of the direction does not matter
    const double LEN[] = {1, 1e-4, 1, 3e5, 1e-7}; for (size_t i = 0; i < D.size(); i++) D[i] = LEN[i % 5] * D[i];
    auto refPart = [&](const Cfg& c, const ref::Draws& d) {
        ref::Beam b; b.kind = c.kind; b.dPos = c.dp; b.dTau = c.dt; b.dDir = c.dd; b.pos = c.pos; b.fr = beamFrame(c.dir); b.track = c.track;
        double zx = d.z(), zy = d.z(), zz = d.z(), zt = d.z(), u = d.u(), e = c.distro == 0 ? c.e1 : c.distro == 1 ? c.e1 + c.e2 * d.z() : c.e1 + (c.e2 - c.e1) * d.u();
        return ref::primary(b, zx, zy, zz, zt, u, e, d.u()); };
    auto laws = [&](const std::string& key, const Cfg& c, unsigned n, const std::vector<double>& us, const std::vector<double>& zs, bool tiny) {
        if (!begin(key)) return;
        ref::Dist got, want; Choices ch;
        // other sources that were made before: nothing of them may stay behind
        rng_const(0.4, 0.3); for (int i = 0; i < 4; i++)
        {
            Cfg o = c; V d = ref::unit(c.dir), t = ref::unit(ref::cross(d, std::fabs(d[0]) < 0.6 ? V(1, 0, 0) : V(0, 1, 0)));
            // the last one points almost, but not quite, where the one under test points
            if (i == 0) { o.e1 *= 1.5; o.e2 *= 1.4; o.dp += 0.3; o.dt *= 2; o.dd += 0.2; o.pos = c.pos + V(1, 2, 3); } else o.dir = ref::unit(d + (i == 1 ? 0.7 : i == 3 ? 1e-6 : 4e-4) * t);
            if (i == 3 && c.distro) continue;
            SourceGenerator* s = mk(o, n); s->FreeSources(s->GenerateList()); delete s;
        }
        do
        {
            ch.start(); rng_choices(ch, us, zs); SourceGenerator* s = mk(c, n); std::vector<double> o;
            for (unsigned i = 0; i < n; i++)
            {
                ParticleList* l = s->GenerateList(); transition();
                if (l->GetNPart() != 1) fail("not one particle per event");
                else { auto v = vec(l->GetParticle(0)); o.insert(o.end(), v.begin(), v.end()); std::string ty = l->GetParticle(0)->GetType(); if (ty != (c.kind ? "Lepton" : "Photon")) fail("type " + ty); }
                if (l->GetName() != std::to_string(i)) fail("event " + std::to_string(i) + " is named " + l->GetName());
                s->FreeSources(l);
            }
            delete s; got.add(o, prob(ch)); state(hash(ref::str(o)));
        } while (ch.next() && ch.runs < 3000000);
        Choices cr;
        do
        {
            cr.start(); ref::Draws d; d.u = [&] { return us[cr.choose((int)us.size())]; }; d.z = [&] { return zs[cr.choose((int)zs.size())]; }; std::vector<double> o;
            for (unsigned i = 0; i < n; i++) { auto v = vec(refPart(c, d)); o.insert(o.end(), v.begin(), v.end()); }
            want.add(o, prob(cr));
        } while (cr.next() && cr.runs < 3000000);
        count("draw_sequences", ch.runs);
        double sc = std::max(std::max(std::fabs(c.e1), std::fabs(c.e2)) * 1.0, ref::len(c.pos) + c.dp + c.dt);
        // reference tables of draws are independent across particles, so order does not matter
        std::string e = ref::cmp(got, want, 1e-9, 1e-10 * sc); if (!e.empty()) fail(e); (void)tiny; trace();
    };
    for (int kind = 0; kind < 3; kind++) for (int distro = 0; distro < 3; distro++) for (int cs = 0; cs < 2; cs++) for (size_t di = 0; di < D.size(); di++) for (int sh = 0; sh < 9; sh++)
    {
        if (sh > 5 && (int)(di % 3) != kind) continue;
        Cfg c{kind, distro, cs, 5.0, distro == 1 ? 0.8 : 9.0, 0, 0, 0, V(), D[di], di % 2 == 1};
        if (sh == 1) { c.dp = 0.7; c.dt = 3; c.pos = V(1, -20, 3); }
        if (sh == 2) { c.dd = 0.3; c.e1 = 2e3; c.e2 = distro == 1 ? 150 : 2.5e3; }
        if (sh == 3) { c.dp = 1e-2; c.dt = 0.4; c.dd = 1.2; c.pos = V(-5, 0.1, 7); c.e1 = 40; c.e2 = 41; }
        if (sh == 4) { c.dd = 2.6; c.dp = 0.2; c.pos = V(0, 0, 2); }                // far beyond a right angle
        if (sh == 5) { c.dd = 5.5; c.dt = 1; c.e1 = 30; c.e2 = distro == 1 ? 0 : 30; }
        // tiny spreads: they are spreads all the same
        if (sh == 6) { c.dd = 5e-4; c.e1 = 2e3; c.e2 = distro == 1 ? 1e-3 : 2000.01; }
        if (sh == 7) { c.dp = 1e-6; c.dt = 3e-8; c.e2 = distro == 1 ? 2e-6 : 5 + 1e-7; }
        if (sh == 8) { c.dd = 2e-6; c.dp = 5e-4; c.dt = 1e-3; c.e1 = 3e4; c.e2 = distro == 1 ? 0.1 : 3e4 + 1; }
        std::string b = fmt("%s %s dir=%zu shape=%d", KN[kind][cs], DN[distro][cs], di, sh);
        if (cs && di > 1) continue;
        if (sh == 3 && (th || (di == 20 && kind == 1))) laws(b, c, 1, {0.125, 0.375, 0.625, 0.875}, {-1.1, -0.3, 0.3, 1.1}, false);
        else laws(b, c, 1, {0.25, 0.75}, {-0.8, 0.8}, false);
        if (cs == 0 && di == 7 && sh == 3) laws(b + " two", c, 2, {0.3, 0.7}, {-0.8, 0.8}, false);
    }
    // number of requests: depleted sources end the run with an error
    for (int kind = 0; kind < 3; kind++) for (unsigned n = 0; n < 6; n++) for (unsigned ask = 0; ask < 8; ask++)
    {
        if (!begin(fmt("%s n=%u requests=%u", KN[kind][0], n, ask))) continue;
        rng_const(0.3, 0.2); Cfg c{kind, 0, 0, 5, 0, 0.1, 0.1, 0.1, V(), V(0, 0, 1), false};
        int w = forked([&] { SourceGenerator* s = mk(c, n); if (s->GetSourceNumber() != n) return 77; for (unsigned i = 0; i < ask; i++) { ParticleList* l = s->GenerateList(); if (l->GetName() != std::to_string(i) || l->GetNPart() != 1) return 78; s->FreeSources(l); } return 0; });
        transition(ask);
        if (ask <= n ? w != 0 : !(WIFEXITED(w) && WEXITSTATUS(w) != 0 && WEXITSTATUS(w) != 77 && WEXITSTATUS(w) != 78)) fail(fmt("wait status %d after %u of %u", w, ask, n));
        distinct(fmt("%u %u", n, ask));
    }
    // unknown species
    for (const char* t : {"", "proton", "electrons", "ELECTRON", "gamma"})
    {
        if (!begin(fmt("species '%s'", t))) continue;
        int w = forked([&] { rng_const(0.3, 0.2); SourceGenerator s(t, "mono", 1, 5, 0, 0, 0, 0, ThreeVector(), ThreeVector(0, 0, 1)); ParticleList* l = s.GenerateList(); return l->GetNPart() == 1 && l->GetParticle(0)->GetName().size() ? 88 : 0; });
        if (w == 0 || (WIFEXITED(w) && WEXITSTATUS(w) == 88 && std::string(t) != "ELECTRON") || !WIFEXITED(w)) fail(fmt("wait status %d", w));
    }
    // every primary is different from the others and keeps its own numbers whatever the number of primaries
    // (which: only the offsets, only the time, only the angles, only the energy, or all of them vary)
    for (unsigned n : {1u, 2u, 3u, 50u, 1000u, 2500u, 9000u}) for (int distro = 0; distro < 3; distro++) for (int which = 0; which < 5; which++)
    {
        if ((which == 3 && !distro) || (which < 3 && distro) || (which == 4 && n == 2500)) continue;
        static const char* WN[] = {"offsets", "time", "angles", "energy", "all"};
        if (!begin(fmt("separate n=%u %s %s", n, DN[distro][0], WN[which]))) continue;
        long i = 0, j = 0; rng().u = [&] { return (i++ * 0.6180339887498949) - std::floor((i - 1) * 0.6180339887498949); }; rng().z = [&] { return std::sin(1.0 + j++); };
        bool all = which == 4; Cfg c{1, distro, 0, 500, which < 3 ? 500. : distro == 1 ? 30. : 900., which == 0 || all ? 0.5 : 0., which == 1 || all ? 2. : 0., which == 2 || all ? 0.01 : 0., V(1, 2, 3), V(1, 1, 0), false};
        SourceGenerator* s = mk(c, n); std::set<std::string> seen, az; ref::Frame fr = beamFrame(c.dir);
        for (unsigned k = 0; k < n; k++)
        {
            ParticleList* l = s->GenerateList(); auto v = vec(l->GetParticle(0)); seen.insert(ref::str({v[0], v[1], v[2], v[3], v[4], v[5]})); V p(v[3], v[4], v[5]);
            if (which == 2) az.insert(fmt("%.6f", std::fmod(std::atan2(ref::dot(p, fr.e[1]), ref::dot(p, fr.e[0])) + 2 * M_PI, M_PI))); s->FreeSources(l); transition();
        }
        if (seen.size() != n) fail(fmt("%zu different primaries of %u", seen.size(), n));
        if (which == 2 && az.size() < 0.9 * n) fail(fmt("%zu different azimuths of %u", az.size(), n));
        delete s;
    }
    return finish();
}
