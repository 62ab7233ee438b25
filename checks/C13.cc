// C13: every pusher on every state, field and step of the grid against the reference integrator.
#include "physmap.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
using namespace vp; using ref::V; using ref::Part;
static const char* MN[] = {"lorentz", "landau", "gaunt"};
static ParticlePusher* pusher(int m, EMField* f, double dt)
{ if (m == 0) return new LorentzPusher(f, dt); if (m == 1) return new LandauPusher(f, dt); return new ModifiedLandauPusher(f, dt); }
static std::vector<V> dirs()
{ return {V(0, 0, 1), V(0, 0, -1), V(1, 0, 0), V(0, -1, 0), ref::unit(V(1, 2, -3)), ref::unit(V(-1, 0.2, 0.1)), ref::unit(V(0.5, -0.5, 1))}; }

int main()
{
    init(); rng_const(0, 0);
    std::vector<double> mags{0, 1e-12, 1e-4, 0.05, 1, 30, 2e3, 1e5}; if (thorough()) { mags.push_back(7); mags.push_back(3e6); }
    std::vector<double> dts{1e-3, 0.1, 2.0}; std::vector<double> amps{1e-6, 1e-3, 0.3}; int steps = thorough() ? 12 : 5;
    if (thorough()) { amps.push_back(5); dts.push_back(37.5); }
    for (int m = 0; m < 3; m++) for (double a : amps) for (auto& nf : testFields(a)) for (int kind = 0; kind < 3; kind++)
    for (double mag : mags) for (size_t di = 0; di < dirs().size(); di++) for (double dt : dts) for (int tr = 0; tr < 2; tr++)
    {
        if ((mag == 0 && di) || (tr && dt != 0.1)) continue;
        if (!begin(fmt("%s a=%g field=%s kind=%d p=%g dir=%zu dt=%g track=%d", MN[m], a, nf.name, kind, mag, di, dt, tr))) continue;
        Part r; r.kind = kind; r.x = V(0.3, -1, 2); r.p = mag * dirs()[di]; r.w = 0.25; r.t = 0.4; r.od = 0.7; r.track = tr;
        FnField f(nf.f); ParticlePusher* p = pusher(m, &f, dt); Particle* q = make(r);
        for (int s = 0; s < steps; s++)
        {
            double p0 = ref::len(r.p); Part before = r;
            ref::push(r, nf.f, dt, m); p->PushParticle(q);
            // a step that does not resolve the damping amplifies without limit: outside the domain
            if (!(ref::len(r.p - before.p) <= 1e3 * (1 + p0))) { count("unresolved_steps"); break; }
            auto g = vec(q), w = vec(r); bool fin = true; for (double d : g) fin = fin && std::isfinite(d);
            if (!fin) { fail(fmt("step %d: undefined number in %s", s, ref::str(g).c_str())); break; }
            double ps = std::max(p0, dt * a * (1 + p0 / (1 + p0))), xs = dt;
            // with strong damping one step changes the momentum by much more than its size
            if (m && kind) { ref::EB e = nf.f(before.t, before.x); V fr = ref::force(kind, before.charge(), before.p, e, m); ps = std::max(ps, dt * ref::len(fr)); }
            std::string e = diffPart(g, w, 1e-9, xs, ps); if (!e.empty()) { fail(fmt("step %d: %s", s, e.c_str())); break; }
            r = before; // resynchronise: each step is judged on its own
            { ref::push(r, nf.f, dt, m); }
            transition(); state(hash(ref::str(w)));
        }
        distinct(ref::str(vec(q))); delete q; delete p;
    }
    // dead particles, lists
    for (int m = 0; m < 3; m++) for (auto& nf : testFields(0.01)) for (int mask = 0; mask < 27; mask++) for (int dead = 0; dead < 8; dead++)
    {
        if (!begin(fmt("list %s field=%s kinds=%d dead=%d", MN[m], nf.name, mask, dead))) continue;
        FnField f(nf.f); ParticlePusher* p = pusher(m, &f, 0.2); ParticleList l("l", 5); std::vector<Part> rs;
        for (int i = 0, k = mask; i < 3; i++, k /= 3)
        { Part r; r.kind = k % 3; r.x = V(i, 2 * i, 1); r.p = V(i + 1, 0.5, -2); r.w = i + 1; r.t = i; r.od = 0.1 * i; r.alive = !(dead >> i & 1); r.track = i == 1; rs.push_back(r); l.AddParticle(make(r)); }
        p->PushParticleList(&l);
        for (int i = 0; i < 3; i++)
        { ref::push(rs[i], nf.f, 0.2, m); std::string e = diffPart(vec(l.GetParticle(i)), vec(rs[i]), 1e-9, 0.1, 0.1); if (!e.empty()) fail(fmt("particle %d of the list: %s", i, e.c_str())); }
        if (l.GetNPart() != 3) fail("the list changed its length");
        distinct(fmt("L%d %d %d", m, mask, dead)); delete p;
    }
    // long lists
    for (int m = 0; m < 3; m++) for (int n : {70, 300, 1500, 5000})
    {
        if (!begin(fmt("long list %s n=%d", MN[m], n))) continue;
        auto nf = testFields(0.01)[3]; FnField f(nf.f); ParticlePusher* p = pusher(m, &f, 0.2); ParticleList l("l", n); std::vector<Part> rs;
        for (int i = 0; i < n; i++)
        { Part r; r.kind = i % 3; r.x = V(i % 7, 2 - i % 5, 1); r.p = V(i % 11 + 1, 0.5, -2 - i % 3); r.w = i + 1; r.t = i % 13; r.od = 0.1; r.alive = i % 9 != 4; r.track = i % 50 == 1; rs.push_back(r); l.AddParticle(make(r)); }
        for (int s = 0; s < 3; s++)
        {
            p->PushParticleList(&l); bool bad = l.GetNPart() != (unsigned)n; if (bad) fail("the list changed its length"); transition(n);
            for (int i = 0; i < n && !bad; i++) { ref::push(rs[i], nf.f, 0.2, m); std::string e = diffPart(vec(l.GetParticle(i)), vec(rs[i]), 1e-9, 0.1, 0.1); if (!e.empty()) { fail(fmt("push %d, particle %d of the list: %s", s, i, e.c_str())); bad = true; } }
            if (bad) break;
        }
        distinct(fmt("LL%d %d", m, n)); delete p;
    }
    // other rest masses under the Lorentz force
    for (double mass : {0.5, 3.0, 1836.0}) for (auto& nf : testFields(0.1)) for (double q : {-1.0, 1.0, 2.0}) for (double mag : {0.1, 5.0, 4e3})
    {
        if (!begin(fmt("mass=%g charge=%g field=%s p=%g", mass, q, nf.name, mag))) continue;
        FnField f(nf.f); LorentzPusher p(&f, 0.3); V mom = mag * ref::unit(V(1, -2, 0.5)), x(0.1, 0.2, 0.3); Lepton l(mass, q, tv(x), tv(mom), 1, 0.5);
        p.PushParticle(&l);
        V kx[4], kp[4]; double c[4] = {0, .5, .5, 1}, dt = 0.3;
        for (int i = 0; i < 4; i++) { V xx = x, pp = mom; if (i) { xx = xx + (c[i] * dt) * kx[i - 1]; pp = pp + (c[i] * dt) * kp[i - 1]; }
            kx[i] = (1 / std::sqrt(mass * mass + ref::dot(pp, pp))) * pp; kp[i] = ref::force(1, q, pp, nf.f(0.5 + c[i] * dt, xx), 0, mass); }
        V xn = x + (dt / 6) * (kx[0] + kx[3] + 2 * (kx[1] + kx[2])), pn = mom + (dt / 6) * (kp[0] + kp[3] + 2 * (kp[1] + kp[2]));
        V gx = rv(l.GetPosition()), gp = rv(l.GetMomentum());
        if (ref::len(gx - xn) > 1e-9 || ref::len(gp - pn) > 1e-9 * (1 + mag)) fail(fmt("position %s momentum %s instead of %s %s", ref::str({gx[0], gx[1], gx[2]}).c_str(), ref::str({gp[0], gp[1], gp[2]}).c_str(), ref::str({xn[0], xn[1], xn[2]}).c_str(), ref::str({pn[0], pn[1], pn[2]}).c_str()));
        distinct(fmt("M%g %g %g", mass, q, mag));
    }
    // convergence against closed solutions, energy, mirror symmetry, energy loss: run to t = 1 (in gyration units)
    for (int kind : {1, 2}) for (double mag : {0.5, 20.0, 1e3}) for (int cfg = 0; cfg < 2; cfg++)
    {
        if (!begin(fmt("order cfg=%s kind=%d p=%g", cfg ? "E" : "B", kind, mag))) continue;
        double q = kind == 1 ? -1 : 1, g0 = std::sqrt(1 + mag * mag), a = 0.02, err[3];
        for (int h = 0; h < 3; h++)
        {
            double T = cfg ? mag / a : 2 * g0 / a; int n = 20 << h; double dt = T / n;
            FnField f(cfg ? ref::staticField(V(0, a, 0), V()) : ref::staticField(V(), V(0, 0, a))); LorentzPusher p(&f, dt);
            Lepton l(1, q, ThreeVector(), ThreeVector(mag, 0, 0));
            for (int i = 0; i < n; i++) { p.PushParticle(&l); transition(); }
            V ex; if (cfg) ex = V(mag, q * a * T, 0); else { double w = a * T / g0; ex = V(mag * std::cos(w), -q * mag * std::sin(w), 0); }
            V xe; if (cfg) { double s = q * a * T; xe = V(mag / a * std::asinh(a * T / g0), (std::sqrt(g0 * g0 + s * s) - g0) / (q * a), 0); } else xe = V(mag / a * std::sin(a * T / g0), q * mag / a * (std::cos(a * T / g0) - 1), 0);
            err[h] = ref::len(rv(l.GetPosition()) - xe) / (mag / a) + (cfg ? 0 : ref::len(rv(l.GetMomentum()) - ex) / mag);
            if (cfg && ref::len(rv(l.GetMomentum()) - ex) > 1e-9 * mag) fail("wrong momentum in a uniform electric field");
            if (std::fabs(l.GetTime() - T) > 1e-9 * T) fail("the clock is not the sum of the steps");
        }
        double r1 = err[0] / err[1], r2 = err[1] / err[2];
        if (!(err[0] < 1e-3) || !((r1 > 11 && r1 < 40 && r2 > 11 && r2 < 40) || err[1] < 1e-11)) fail(fmt("errors %g %g %g do not fall with the fourth power of the step", err[0], err[1], err[2]));
        distinct(fmt("O%d %d %g", kind, cfg, mag));
    }
    for (int m = 0; m < 3; m++) for (double mag : {0.5, 50.0, 5e3}) for (double a : {1e-5, 1e-3, 0.05}) for (size_t di = 0; di < dirs().size(); di++)
    {
        if (!begin(fmt("invariants %s p=%g a=%g dir=%zu", MN[m], mag, a, di))) continue;
        FnField f(ref::staticField(V(), V(0.3 * a, -a, 0.5 * a))); double g0 = std::sqrt(1 + mag * mag), dt = 0.02 * g0 / a;
        double loss = (2. / 3) * ref::ALPHA * g0 * g0 * a * a * 1.34; if (m) dt = std::min(dt, 0.05 * mag / loss);
        ParticlePusher* p = pusher(m, &f, dt); V m0 = mag * dirs()[di]; Lepton e(1, -1, ThreeVector(), tv(m0)), o(1, 1, ThreeVector(), tv(m0));
        double last = e.GetGamma();
        for (int i = 0; i < 40; i++)
        {
            p->PushParticle(&e); p->PushParticle(&o); transition(2);
            double g = e.GetGamma();
            if (m == 0 && std::fabs(g - last) > 1e-8 * last) { fail(fmt("step %d: a magnetic field changed the energy from %.12g to %.12g", i, last, g)); break; }
            if (m && g > last * (1 + 1e-8)) { fail(fmt("step %d: radiation raised the energy from %.12g to %.12g", i, last, g)); break; }
            last = g;
        }
        // charge conjugation: the bending components are opposite
        V b(0.3 * a, -a, 0.5 * a); V n = ref::cross(m0, b); V pe = rv(e.GetMomentum()), po = rv(o.GetMomentum());
        if (ref::len(n) > 0 && std::fabs(ref::dot(pe, n) + ref::dot(po, n)) > 1e-9 * mag * ref::len(n)) fail("electron and positron do not bend oppositely");
        distinct(fmt("I%d %g %g %zu", m, mag, a, di)); delete p;
    }
    return finish();
}
