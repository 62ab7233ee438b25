// Ties the repository's particles and fields to the reference ones.
#ifndef PHYSMAP_HH
#define PHYSMAP_HH
#include "vp.hh"
#include "ref.hh"
#include <sstream>
#include <iostream>
#include "EMField.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"
inline ThreeVector tv(ref::V v) { return ThreeVector(v[0], v[1], v[2]); }
inline ref::V rv(const ThreeVector& v) { return ref::V(v[0], v[1], v[2]); }
struct FnField: EMField
{
    ref::Field f; FnField(ref::Field g): f(g) {}
    void GetField(double t, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const override
    { ref::EB r = f(t, rv(x)); e = tv(r.e); b = tv(r.b); }
};
// needs rng_const or choices to be set (the constructor draws a depth)
inline Particle* make(const ref::Part& p)
{
    Particle* q;
    if (p.kind == ref::PHOTON) q = new Photon(tv(p.x), tv(p.p), p.w, p.t, p.track);
    else q = new Lepton(1.0, p.kind == ref::ELECTRON ? -1.0 : 1.0, tv(p.x), tv(p.p), p.w, p.t, p.track);
    q->UpdateOpticalDepth(q->GetOpticalDepth() - p.od);
    if (!p.alive) q->Kill();
    return q;
}
inline int kindOf(Particle* q) { std::string n = q->GetName(); return n == "Photon" ? ref::PHOTON : n == "Electron" ? ref::ELECTRON : n == "Positron" ? ref::POSITRON : 9; }
inline std::vector<double> vec(const ref::Part& p, bool hist = true)
{
    std::vector<double> r{p.x[0], p.x[1], p.x[2], p.p[0], p.p[1], p.p[2], p.w, p.t, p.od, (double)p.alive, (double)p.kind, (double)p.track, (double)p.h.size()};
    if (hist) for (auto& h : p.h) { for (int i = 0; i < 3; i++) r.push_back(h.x[i]); for (int i = 0; i < 3; i++) r.push_back(h.p[i]); r.push_back(h.t); r.push_back(h.g); }
    return r;
}
inline std::vector<double> vec(Particle* q, bool hist = true)
{
    ThreeVector x = q->GetPosition(), p = q->GetMomentum(); auto hx = q->GetPosHist(), hp = q->GetMomHist(); auto ht = q->GetTimeHist(), hg = q->GetGammaHist();
    std::vector<double> r{x[0], x[1], x[2], p[0], p[1], p[2], q->GetWeight(), q->GetTime(), q->GetOpticalDepth(), (double)q->IsAlive(), (double)kindOf(q), (double)q->GetTracking(), (double)hx.size()};
    if (hist) for (size_t k = 0; k < hx.size(); k++)
    {
        for (int i = 0; i < 3; i++) r.push_back(hx[k][i]);
        for (int i = 0; i < 3; i++) r.push_back(k < hp.size() ? hp[k][i] : NAN);
        r.push_back(k < ht.size() ? ht[k] : NAN); r.push_back(k < hg.size() ? hg[k] : NAN);
    }
    return r;
}
// components of 3-vectors are compared against the vector's size
inline std::string diffPart(const std::vector<double>& g, const std::vector<double>& w, double tol, double xs, double ps)
{
    static const char* N[] = {"x", "y", "z", "px", "py", "pz", "weight", "time", "depth", "alive", "kind", "tracking", "entries"};
    if (g.size() != w.size()) return vp::fmt("%g history entries instead of %g", g[12], w[12]);
    for (size_t i = 0; i < g.size(); i++)
    {
        size_t j = i < 13 ? i : 13 + (i - 13) % 8; double s = std::fabs(w[i]);
        size_t base = i < 13 ? 0 : i - (i - 13) % 8, o = i < 13 ? i : (i - 13) % 8; (void)j;
        if (o < 3) { s = std::sqrt(w[base] * w[base] + w[base + 1] * w[base + 1] + w[base + 2] * w[base + 2]); s = std::max(s, xs); }
        else if (o < 6) { s = std::sqrt(w[base + 3] * w[base + 3] + w[base + 4] * w[base + 4] + w[base + 5] * w[base + 5]); s = std::max(s, ps); }
        if (!(std::fabs(g[i] - w[i]) <= tol * s + 1e-14)) return vp::fmt("%s%s is %.15g instead of %.15g", i < 13 ? "" : "history ", i < 13 ? N[i] : (o < 3 ? N[o] : o < 6 ? N[o] : o == 6 ? "time" : "gamma"), g[i], w[i]);
    }
    return "";
}
// several fields that depend on everything they may depend on
struct NamedField { const char* name; ref::Field f; };
inline std::vector<NamedField> testFields(double a)
{
    using namespace ref;
    return {{"none", noField()},
        {"E", staticField(V(0.3 * a, -0.2 * a, a), V())},
        {"B", staticField(V(), V(-0.4 * a, a, 0.7 * a))},
        {"EB", staticField(V(a, 0, 0.1 * a), V(0.2 * a, -a, 0.5 * a))},
        {"wave", [a](double t, V x) { EB r; double s = std::cos(0.9 * (x[2] - t) + 0.3 * x[0]); r.e = V(a * s, 0.5 * a * s, -0.2 * a); r.b = V(-0.5 * a * s, a * s, 0.1 * a * x[1]); return r; }},
        {"switch", [a](double t, V x) { EB r; double s = std::exp(-t * t) * (1 + 0.1 * x[0] - 0.2 * x[1]); r.e = V(0, a * s, 0); r.b = V(a * s, 0, a * std::sin(t)); return r; }}};
}
#endif
