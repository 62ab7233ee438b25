// C15: continuous emission, every draw of the alphabet on the state grid against the reference.
#include "procmap.hh"
#include "ContinuousEmission.hh"
int main()
{
    init(); bool th = thorough();
    auto go = [&](const std::string& key, const ref::Field& F, const Part& r, int steps, double dt, bool cl, double frac, double eMin, bool track, const std::vector<double>& us) {
        if (!begin(key)) return;
        compare([&](EMField* f) { return new ContinuousEmission(f, dt, cl, frac, eMin, track); },
            [&](Part& a, std::vector<Part>& out, const ref::Draws& d) { ref::continuous(a, out, F, dt, cl, frac, eMin, track, d); }, F, r, steps, dt, us, 1e-8, !cl);
    };
    std::vector<double> gammas{1.003, 8, 300, 4e4}, etas{0, 1e-14, 1e-7, 1e-3, 0.08, 1.3, 6}; if (th) { gammas.push_back(2e7); etas.push_back(1e-10); etas.push_back(3e-5); etas.push_back(0.4); }
    for (double g : gammas) for (double eta : etas) for (size_t di = 0; di < someDirs().size(); di++) for (int fi = 0; fi < 6; fi++) for (int kind = 0; kind < 3; kind++) for (int alive = 0; alive < 2; alive++)
    {
        if ((kind == 0 || !alive) && (di || g != 300)) continue;
        Part r; r.kind = kind; r.alive = alive; r.p = std::sqrt(g * g - 1) * someDirs()[di]; { static const double W[] = {0.5, 3, 1, 1e6, 1e-9}; static const V X[] = {V(0.2, -0.1, 0.3), V(), V(-3, 2, 7)}; r.x = X[(di + fi + kind) % 3]; r.t = (di + 2 * fi) % 4 * 0.25; r.w = W[(di + fi + 2 * kind + (alive ? 0 : 1)) % 5]; } r.track = di == 2; r.od = 0.3;
        double e1 = etaNow(r, testFields(1)[fi].f), a = e1 > 0 ? eta / e1 : eta; ref::Field F = testFields(a)[fi].f;
        std::string base = fmt("g=%g eta=%g dir=%zu field=%s kind=%d alive=%d", g, eta, di, testFields(1)[fi].name, kind, alive);
        int k = 0;
        for (int cl = 0; cl < 2; cl++) for (double dt : {1e-4, 0.5, 40.0}) for (double frac : {0.0, 0.125, 0.5, 1.0}) for (double em : {0.0, 0.3, 1e9})
        {
            k++; if (!th && fi != 3 && (k + di + kind) % 7) continue;
            go(base + fmt(" one classical=%d dt=%g frac=%g emin=%g", cl, dt, frac, em), F, r, 1, dt, cl, frac, em < 1 ? em * g * eta * 0.1 : em, dt == 0.5, mids(8));
        }
        // fine draws of the spectrum and of the sampling decision
        if (kind && alive && di == 2 && (th || fi == 3)) for (int cl = 0; cl < 2; cl++) for (double frac : {0.25, 0.99})
            go(base + fmt(" fine classical=%d frac=%g", cl, frac), F, r, 1, 0.5, cl, frac, 0, false, mids(th ? 40 : 15));
        // the sampling decision just above and just below the fraction
        if (kind && alive && di == 2 && (th || fi == 3)) for (int cl = 0; cl < 2; cl++) for (double frac : {1e-12, 1e-6, 5e-4, 0.03, 0.97, 0.9995, 1 - 1e-6}) for (double side : {-1e-3, 1e-3})
        { double u = frac + side * std::min(frac, 1 - frac); go(base + fmt(" decision classical=%d frac=%.9g side=%g", cl, frac, side), F, r, 1, 0.5, cl, frac, 0, false, {u, 1 - u}); }
        if (kind && alive && di < 3) for (int cl = 0; cl < 2; cl++)
            go(base + fmt(" history classical=%d", cl), F, r, th ? 5 : 3, 0.5, cl, 0.5, 0, true, mids(2));
    }
    for (double g : gammas) for (double eta : etas) for (int cl = 0; cl < 2; cl++) for (double u : {0.0, 1e-18, 1e-9, 1 - 1e-9, 1 - 1.2e-16})
    {
        Part r; r.kind = 1; r.p = V(0, 0, std::sqrt(g * g - 1)); r.od = 1e-12; double e1 = etaNow(r, testFields(1)[3].f);
        go(fmt("extreme classical=%d g=%g eta=%g u=%.17g", cl, g, eta, u), testFields(eta / e1)[3].f, r, 3, 1, cl, 1, 0, false, {u});
    }
    return finish();
}
