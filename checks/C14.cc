// C14: stochastic emission, every history over the draw alphabet and state grid against the reference.
#include "procmap.hh"
#include "StochasticEmission.hh"
int main()
{
    init(); bool th = thorough();
    auto go = [&](const std::string& key, const ref::Field& F, const Part& r, int steps, double dt, double frac, double eMin, bool track, const std::vector<double>& us) {
        if (!begin(key)) return;
        compare([&](EMField* f) { return new StochasticEmission(f, dt, frac, eMin, track); },
            [&](Part& a, std::vector<Part>& out, const ref::Draws& d) { ref::stochastic(a, out, F, dt, frac, eMin, track, d); }, F, r, steps, dt, us);
    };
    std::vector<double> gammas{1.003, 8, 300, 4e4}, etas{1e-7, 1e-3, 0.08, 1.3, 6}; if (th) { gammas.push_back(2e7); etas.push_back(1e-10); etas.push_back(3e-5); etas.push_back(0.4); }
    for (double g : gammas) for (double eta : etas) for (size_t di = 0; di < someDirs().size(); di++) for (int fi = 0; fi < 6; fi++) for (int kind = 0; kind < 3; kind++) for (int alive = 0; alive < 2; alive++)
    {
        if ((kind == 0 || !alive) && (di || g != 300)) continue;
        Part r; r.kind = kind; r.alive = alive; r.p = std::sqrt(g * g - 1) * someDirs()[di]; { static const double W[] = {0.5, 3, 1, 1e6, 1e-9}; static const V X[] = {V(0.2, -0.1, 0.3), V(), V(-3, 2, 7)}; r.x = X[(di + fi + kind) % 3]; r.t = (di + 2 * fi) % 4 * 0.25; r.w = W[(di + fi + 2 * kind + (alive ? 0 : 1)) % 5]; } r.track = di == 2;
        double e1 = etaNow(r, testFields(1)[fi].f), a = e1 > 0 ? eta / e1 : eta; ref::Field F = testFields(a)[fi].f;
        double rate = std::sqrt(3.0) * ref::ALPHA * eta * 3 / (2 * ref::PI * g);
        std::string base = fmt("g=%g eta=%g dir=%zu field=%s kind=%d alive=%d", g, eta, di, testFields(1)[fi].name, kind, alive);
        // one interaction: below, at and beyond the depth; fractions, thresholds, fine draws
        double x[3] = {0.2, 1.7, 20}; int k = 0;
        for (double od : {0.5, 1e-3}) for (int xi = 0; xi < 3; xi++) for (double frac : {0.0, 0.25, 1.0}) for (double em : {0.0, 0.3, 1e9})
        {
            k++; if (!th && fi != 3 && (k + di + kind) % 5) continue;
            r.od = od; double dt = std::min(x[xi], 20.0) / rate; bool tr = xi == 1;
            go(base + fmt(" one od=%g x=%g frac=%g emin=%g", od, x[xi], frac, em), F, r, 1, dt, frac, em < 1 ? em * g * eta * 0.1 : em, tr, mids(em == 0 && frac == 0.25 ? 8 : 4));
        }
        // the depth just above and just below what one step uses up, from tiny steps on
        if (kind && alive && di < 3 && (th || fi == 3 || fi == 5)) for (double D : {1e-11, 1e-7, 1e-3, 0.7}) for (double side : {1 - 1e-5, 1 + 1e-5})
        {
            double dt = D / rate; Part a = r; a.od = 100 * D; std::vector<Part> out; ref::Draws d; d.u = [] { return 0.4; }; d.z = [] { return 0.0; };
            try { ref::stochastic(a, out, F, dt, 1, 0, false, d); } catch (ref::Beyond&) { continue; }
            if (out.size() || !(a.od < 100 * D)) continue; r.od = (100 * D - a.od) * side; go(base + fmt(" threshold step=%g side=%g", D, side), F, r, 1, dt, 1, 0, false, mids(2));
        }
        // the sampling decision just above and just below the fraction
        if (kind && alive && di == 2 && (th || fi == 3)) for (double frac : {1e-12, 1e-6, 5e-4, 0.03, 0.97, 0.9995, 1 - 1e-6}) for (double side : {-1e-3, 1e-3})
        { r.od = 1e-3; double u = frac + side * std::min(frac, 1 - frac); go(base + fmt(" decision frac=%.9g side=%g", frac, side), F, r, 1, 1.7 / rate, frac, 0, false, {u, 1 - u}); }
        // histories
        if (kind && alive && (th || di < 3) && eta < 5)
            for (double frac : {0.5, 1.0})
            { r.od = 0.4; go(base + fmt(" history frac=%g", frac), F, r, th ? 4 : 3, 1.1 / rate, frac, 0, true, mids(2)); }
    }
    // extreme draws: the ends of the tables
    for (double g : gammas) for (double eta : etas) for (double u : {0.0, 1e-18, 1e-9, 1 - 1e-9, 1 - 1.2e-16})
    {
        Part r; r.kind = 1; r.p = V(0, 0, std::sqrt(g * g - 1)); r.od = 1e-12; double e1 = etaNow(r, testFields(1)[3].f);
        go(fmt("extreme g=%g eta=%g u=%.17g", g, eta, u), testFields(eta / e1)[3].f, r, 3, 2 * ref::PI * g / (ref::ALPHA * eta), 1, 0, false, {u});
    }
    return finish();
}
