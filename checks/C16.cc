// C16: pair production, every history over the draw alphabet and state grid against the reference.
#include "procmap.hh"
#include "NonLinearBreitWheeler.hh"
int main()
{
    init(); bool th = thorough();
    auto go = [&](const std::string& key, const ref::Field& F, const Part& r, int steps, double dt, bool track, const std::vector<double>& us) {
        if (!begin(key)) return;
        compare([&](EMField* f) { return new NonLinearBreitWheeler(f, dt, track); },
            [&](Part& a, std::vector<Part>& out, const ref::Draws& d) { ref::breitWheeler(a, out, F, dt, track, d); }, F, r, steps, dt, us);
    };
    auto conserved = [&](const std::string& key, const ref::Field& F, const Part& r, double dt, double u) {
        if (!begin(key)) return;
        rng_const(u, 0); FnField f(F); NonLinearBreitWheeler p(&f, dt); Particle* q = make(r); ParticleList l("l", 9); p.Interact(q, &l); transition();
        if (q->IsAlive() == (l.GetNPart() != 0) || (l.GetNPart() != 0 && l.GetNPart() != 2)) fail(fmt("%u products, photon alive %d", l.GetNPart(), q->IsAlive()));
        if (l.GetNPart() == 2)
        {
            Particle *a = l.GetParticle(0), *b = l.GetParticle(1); double e = a->GetEnergy() + b->GetEnergy(), e0 = ref::len(r.p);
            if (std::fabs(e - e0) > 1e-11 * e0) fail(fmt("pair of energy %.15g from a photon of %.15g", e, e0));
            if (a->GetEnergy() < 1 || b->GetEnergy() < 1 || a->GetCharge() + b->GetCharge() != 0 || a->GetCharge() == 0) fail("not one electron and one positron");
            for (Particle* x : {a, b}) { for (double d : vec(x)) if (!std::isfinite(d)) { fail("undefined number in " + ref::str(vec(x))); break; }
                V m = rv(x->GetMomentum()); if (ref::len(ref::cross(m, r.p)) > 1e-9 * ref::len(m) * e0 || ref::dot(m, r.p) < 0) fail("not along the photon"); }
            distinct(fmt("%.6g", a->GetEnergy() / e0));
        }
        delete q;
    };
    std::vector<double> ens{0.5, 1.999, 2.001, 3, 40, 5e3, 1e6}, chis{0, 3e-4, 0.02, 0.3, 2, 50, 600}; if (th) { ens.push_back(2.1); ens.push_back(7e8); chis.push_back(0.006); chis.push_back(8); }
    for (double en : ens) for (double chi : chis) for (size_t di = 0; di < someDirs().size(); di++) for (int fi = 0; fi < 6; fi++) for (int kind = 0; kind < 3; kind++) for (int alive = 0; alive < 2; alive++)
    {
        if ((kind || !alive) && (di || en != 40)) continue;
        Part r; r.kind = kind; r.alive = alive; r.p = en * someDirs()[di]; { static const double W[] = {0.5, 3, 1, 1e6, 1e-9}; static const V X[] = {V(0.2, -0.1, 0.3), V(), V(-3, 2, 7)}; r.x = X[(di + fi + kind) % 3]; r.t = (di + 2 * fi) % 4 * 0.25; r.w = W[(di + fi + 2 * kind + (alive ? 0 : 1)) % 5]; } r.track = di == 2;
        ref::EB f1 = testFields(1)[fi].f(r.t, r.x); double c1 = ref::photonChi(r, f1), a = c1 > 0 ? chi / c1 : chi; ref::Field F = testFields(a)[fi].f;
        double rate = chi > 0 ? ref::ALPHA * chi * ref::tab().T(chi) / en : 1; rate = std::max(rate, 1e-30);
        std::string base = fmt("e=%g chi=%g dir=%zu field=%s kind=%d alive=%d", en, chi, di, testFields(1)[fi].name, kind, alive);
        for (double od : {0.5, 1e-6}) for (double x : {0.2, 0.45, 0.55, 3.0, 1e4})
        { r.od = od; go(base + fmt(" one od=%g x=%g", od, x), F, r, 1, x / rate, x == 3, mids(x == 3 ? 9 : 4)); }
        // the depth just above and just below what one step uses up, from tiny steps on
        if (!kind && alive && di < 3 && chi > 0) for (double D : {1e-11, 1e-7, 1e-3, 0.7}) for (double side : {1 - 1e-5, 1 + 1e-5})
        {
            double dt = D / rate; Part a = r; a.od = 100 * D; std::vector<Part> out; ref::Draws d; d.u = [] { return 0.4; }; d.z = [] { return 0.0; };
            try { ref::breitWheeler(a, out, F, dt, false, d); } catch (ref::Beyond&) { continue; }
            if (out.size() || !(a.od < 100 * D)) continue; r.od = (100 * D - a.od) * side; go(base + fmt(" threshold step=%g side=%g", D, side), F, r, 1, dt, false, mids(2));
        }
        if (kind == 0 && alive) for (double od : {0.9, 2.3}) { r.od = od; go(base + fmt(" history od=%g", od), F, r, 4, 0.65 / rate, true, mids(3)); }
        if (kind == 0 && alive && chi > 0) { r.od = 0; for (double u : {0.0, 1e-18, 1e-9, 0.004, 0.1, 0.3, 0.4999, 0.5001, 0.77, 0.99, 0.9999, 1 - 1e-9, 1 - 1.2e-16}) conserved(base + fmt(" draw u=%.17g", u), F, r, 5 / rate, u); }
    }
    return finish();
}
