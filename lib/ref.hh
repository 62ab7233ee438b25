// Independent reference implementation of the documented model, natural units
// (electron mass, speed of light, Schwinger field).  Shares no code with the
// repository; only the numbers of the interpolation tables are read from it.
#ifndef VP_REF_HH
#define VP_REF_HH
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
namespace ref
{
    static const double PI = 3.14159265358979323846, ALPHA = 0.0072973525664;
    struct V
    {
        double v[3];
        V(double x = 0, double y = 0, double z = 0) { v[0] = x; v[1] = y; v[2] = z; }
        double operator[](int i) const { return v[i]; }
        double& operator[](int i) { return v[i]; }
    };
    inline V operator+(V a, V b) { return V(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
    inline V operator-(V a, V b) { return V(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
    inline V operator*(double s, V a) { return V(s * a[0], s * a[1], s * a[2]); }
    inline double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    inline V cross(V a, V b) { return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
    inline double len(V a) { return std::hypot(std::hypot(a[0], a[1]), a[2]); }
    inline V unit(V a) { double l = len(a); return l == 0 ? V() : (1 / l) * a; }

    // Columns: images of x, y, z under the smallest rotation taking z to d.
    struct Frame { V e[3]; V local(V x) const { return V(dot(e[0], x), dot(e[1], x), dot(e[2], x)); }
        V global(V l) const { return l[0] * e[0] + (l[1] * e[1] + l[2] * e[2]); } };
    inline Frame frame(V d)
    {
        d = unit(d); double c = d[2], s = std::hypot(d[0], d[1]); Frame f;
        if (s == 0)
        {
            f.e[0] = V(1, 0, 0); f.e[1] = V(0, c < 0 ? -1 : 1, 0); f.e[2] = V(0, 0, c < 0 ? -1 : 1); // no direction: no rotation
            return f;
        }
        V a(-d[1] / s, d[0] / s, 0);
        for (int i = 0; i < 3; i++)
        {
            V x; x[i] = 1;
            f.e[i] = c * x + (s * cross(a, x) + ((1 - c) * dot(a, x)) * a);
        }
        return f;
    }

    struct EB { V e, b; };
    typedef std::function<EB(double, V)> Field;
    inline Field noField() { return [](double, V) { return EB(); }; }
    inline Field staticField(V e, V b) { return [=](double, V) { EB r; r.e = e; r.b = b; return r; }; }
    inline Field planeField(double a, double wl, double pol, Frame f)
    {
        return [=](double t, V x) {
            double A = a * std::cos(2 * PI / wl * (dot(f.e[2], x) - t)); EB r;
            r.e = f.global(V(A * std::cos(pol), A * std::sin(pol), 0)); r.b = cross(f.e[2], r.e); return r; };
    }
    inline Field gaussField(double a, double wl, double tau, double w0, double pol, V start, V focus, Frame f)
    {
        return [=](double t, V x) {
            V q = f.local(x - focus); double k = 2 * PI / wl, t0 = len(start - focus), zr = k * w0 * w0 / 2, z = q[2], r2 = q[0] * q[0] + q[1] * q[1];
            double w = w0 * std::sqrt(1 + z * z / (zr * zr)), iR = z / (z * z + zr * zr), s = z - (t - t0);
            double A = a * w0 / w * std::exp(-r2 / (w * w) - s * s / (tau * tau)) * std::cos(k * s + k * r2 * iR / 2); EB r;
            r.e = f.global(V(A * std::cos(pol), A * std::sin(pol), 0)); r.b = cross(f.e[2], r.e); return r; };
    }
    // Salamin, Appl. Phys. B 86, 319 (2007), to fourth order in the diffraction angle
    inline Field focusField(double a, double wl, double tau, double w0, double pol, V start, V focus, Frame f)
    {
        return [=](double t, V x) {
            V q = f.local(x - focus); double k = 2 * PI / wl, t0 = len(start - focus), zr = k * w0 * w0 / 2, eps = w0 / zr, z = q[2];
            double cp = std::cos(pol), sp = std::sin(pol), xi = (cp * q[0] + sp * q[1]) / w0, up = (cp * q[1] - sp * q[0]) / w0;
            double rho2 = xi * xi + up * up, r4 = rho2 * rho2, r6 = r4 * rho2, r8 = r4 * r4;
            double w = w0 * std::sqrt(1 + z * z / (zr * zr)), iR = z / (z * z + zr * zr), s = t - t0 - z, g = std::atan(z / zr);
            double psi = k * s - k * rho2 * w0 * w0 * iR / 2;
            double A = a * std::exp(-rho2 * w0 * w0 / (w * w) - s * s / (tau * tau)); EB r;
            if (std::fabs(A) < 1e-15) return r;
            double S[7], C[7]; for (int n = 0; n < 7; n++) { double m = std::pow(w0 / w, n + 1); S[n] = m * std::sin(psi + (n + 1) * g); C[n] = m * std::cos(psi + (n + 1) * g); }
            double e2 = eps * eps, e3 = e2 * eps, e4 = e2 * e2, x2 = xi * xi;
            double ex = A * (S[0] + e2 * (x2 * S[2] - r4 * S[3] / 4) + e4 * (S[2] / 8 - rho2 * S[3] / 4 - rho2 * (rho2 - 16 * x2) * S[4] / 16 - r4 * (rho2 + 2 * x2) * S[5] / 8 + r8 * S[6] / 32));
            double ey = A * xi * up * (e2 * S[2] + e4 * (rho2 * S[4] - r4 * S[5] / 4));
            double ez = A * xi * (eps * C[1] + e3 * (-C[2] / 2 + rho2 * C[3] - r4 * C[4] / 4));
            double by = A * (S[0] + e2 * (rho2 * S[2] / 2 - r4 * S[3] / 4) + e4 * (-S[2] / 8 + rho2 * S[3] / 4 + 5 * r4 * S[4] / 16 - r6 * S[5] / 4 + r8 * S[6] / 32));
            double bz = A * up * (eps * C[1] + e3 * (C[2] / 2 + rho2 * C[3] / 2 - r4 * C[4] / 4));
            r.e = f.global(V(cp * ex - sp * ey, sp * ex + cp * ey, ez)); r.b = f.global(V(-sp * by, cp * by, bz)); return r; };
    }

    // ---- tables ----
    inline double line(const std::vector<double>& x, const std::vector<double>& y, double q)
    {   // piecewise linear, straight continuation; of repeated nodes the last counts
        size_t n = x.size(), i = std::upper_bound(x.begin(), x.end(), q) - x.begin();
        i = i == 0 ? 1 : i >= n ? n - 1 : i;
        return y[i - 1] + (q - x[i - 1]) * (y[i] - y[i - 1]) / (x[i] - x[i - 1]);
    }
    inline double lineAt(const std::vector<double>& x, const std::vector<double>& y, double q, bool& ok)
    { size_t n = x.size(); if (q >= x[n - 1]) ok = false; return line(x, y, q); }
    struct Tables
    {
        std::vector<double> hx, hy, tx, ty, eta, eps, lchi; std::vector<std::vector<double>> chiAx, cdf, split;
        static std::vector<double> nums(const std::string& p)
        { std::ifstream f(p); std::vector<double> r; double d; while (f >> d) r.push_back(d); if (r.empty()) { fprintf(stderr, "no table %s\n", p.c_str()); exit(99); } return r; }
        Tables()
        {
            std::string p = getenv("QED_TABLES_PATH"); auto v = nums(p + "/hsokolov.table"); size_t n = (size_t)v[0];
            for (size_t i = 0; i < n; i++) { hx.push_back(v[1 + 2 * i]); hy.push_back(v[2 + 2 * i]); }
            v = nums(p + "/pairprod.table"); n = (size_t)v[0];
            for (size_t i = 0; i < n; i++) { tx.push_back(v[1 + 2 * i]); ty.push_back(v[2 + 2 * i]); }
            v = nums(p + "/ksi_sokolov.table"); size_t ne = (size_t)v[0], nc = (size_t)v[1]; double lo = v[2], hi = v[3];
            auto cm = nums(p + "/chimin.table");
            for (size_t i = 0; i < ne; i++)
            {
                eta.push_back(lo + i * (hi - lo) / (ne - 1)); double l = std::log10(cm[i]), d = (eta[i] - std::log10(2.0) - l) / (ne - 1);
                chiAx.emplace_back(); cdf.emplace_back();
                for (size_t j = 0; j < nc; j++) { chiAx[i].push_back(l + j * d); cdf[i].push_back(v[4 + i * nc + j]); }
            }
            v = nums(p + "/e_split.table"); n = (size_t)v[0]; eps = nums(p + "/epsilon.table"); lchi = nums(p + "/log_chi.table"); eps.resize(n); lchi.resize(n);
            for (size_t i = 0; i < n; i++) split.emplace_back(v.begin() + 1 + i * n, v.begin() + 1 + (i + 1) * n);
        }
        static int bracket(const std::vector<double>& x, double q, double& f)
        {
            int i = 0; while (i + 1 < (int)x.size() && x[i + 1] < q) i++;
            if (i + 2 >= (int)x.size()) return -1;
            f = (q - x[i]) / (x[i + 1] - x[i]); return i;
        }
        double h(double e) const { return e < 1e-12 ? std::pow(10, 0.7193) : std::pow(10, line(hx, hy, std::log10(e))); }
        double T(double c) const { return std::pow(10, line(tx, ty, std::log10(c))); }
        double chi(double e, double u) const   // -1: beyond the tables
        {
            double f; int i = bracket(eta, std::log10(e), f); if (i < 0) return -1;
            return std::pow(10, (1 - f) * line(cdf[i], chiAx[i], u) + f * line(cdf[i + 1], chiAx[i + 1], u));
        }
        double eSplit(double c, double u) const
        {
            double f; int i = bracket(lchi, std::log10(c), f); if (i < 0) return -1;
            return (1 - f) * line(split[i], eps, u) + f * line(split[i + 1], eps, u);
        }
    };
    inline const Tables& tab() { static Tables t; return t; }

    // ---- particles ----
    enum Kind { PHOTON = 0, ELECTRON = 1, POSITRON = 2 };
    struct Hist { V x, p; double t, g; };
    struct Part
    {
        int kind; V x, p; double w = 1, t = 0, od = 0; bool alive = true, track = false; std::vector<Hist> h;
        double charge() const { return kind == PHOTON ? 0 : kind == ELECTRON ? -1 : 1; }
        double energy() const { return kind == PHOTON ? len(p) : std::sqrt(1 + dot(p, p)); }
        void note() { if (track) h.push_back(Hist{x, p, t, energy()}); }
    };
    struct Draws { std::function<double()> u, z; };
    inline double freshDepth(double u) { return -std::log1p(-u); }

    // ---- dynamics ----
    enum Push { LORENTZ, LANDAU, GAUNT };
    inline double etaOf(V p, V e, V b)
    {
        double g = std::sqrt(1 + dot(p, p)); V d = unit(p); V ep = e - dot(e, d) * d; double bt = len(p) / g;
        V s = ep + bt * cross(d, b); double l = dot(d, e);
        return g * std::sqrt(dot(s, s) + l * l / (g * g));
    }
    inline V force(int kind, double q, V p, EB f, int model, double m = 1)
    {
        double g = std::sqrt(1 + dot(p, p) / (m * m)); V r = q * (f.e + (1 / (m * g)) * cross(p, f.b));
        if (model != LORENTZ)
        {
            double n = etaOf(p, f.e, f.b), k = 2. / 3 * ALPHA * n * n;
            if (model == GAUNT) k *= std::pow(1 + 4.8 * (1 + n) * std::log(1 + 1.7 * n) + 2.44 * n * n, -2. / 3);
            r = r - k * unit(p);
        }
        (void)kind; return r;
    }
    inline void push(Part& a, const Field& F, double dt, int model, double m = 1)
    {
        if (!a.alive) return;
        if (a.kind == PHOTON) { a.x = a.x + dt * unit(a.p); a.t += dt; a.note(); return; }
        double q = a.charge(); V kx[4], kp[4]; static const double c[4] = {0, .5, .5, 1};
        for (int i = 0; i < 4; i++)
        {
            V x = a.x, p = a.p; if (i) { x = x + (c[i] * dt) * kx[i - 1]; p = p + (c[i] * dt) * kp[i - 1]; }
            kx[i] = (1 / std::sqrt(m * m + dot(p, p))) * p; kp[i] = force(a.kind, q, p, F(a.t + c[i] * dt, x), model, m);
        }
        a.x = a.x + (dt / 6) * (kx[0] + kx[3] + 2 * (kx[1] + kx[2])); a.p = a.p + (dt / 6) * (kp[0] + kp[3] + 2 * (kp[1] + kp[2]));
        a.t += dt; a.note();
    }
    struct Beyond {};   // the tables do not reach
    inline Part photonFrom(const Part& a, double en, double w, const Draws& d, bool track)
    { Part p; p.kind = PHOTON; p.x = a.x; p.p = en * unit(a.p); p.t = a.t; p.w = w; p.track = track; p.od = freshDepth(d.u()); return p; }
    inline void stochastic(Part& a, std::vector<Part>& out, const Field& F, double dt, double frac, double eMin, bool track, const Draws& d)
    {
        if (a.kind == PHOTON || !a.alive) return;
        EB f = F(a.t, a.x); double g = a.energy(), e = etaOf(a.p, f.e, f.b);
        a.od -= dt * std::sqrt(3.0) * ALPHA * e * tab().h(e) / (2 * PI * g);
        if (!(a.od < 0)) return;
        double chi = tab().chi(e, d.u()); if (chi < 0) throw Beyond();
        double en = 2 * chi * g / e; Part src = a;  // the photon leaves along the motion before the recoil
        a.p = a.p - en * unit(a.p); a.note();
        if (en > eMin && d.u() < frac) out.push_back(photonFrom(src, en, a.w / frac, d, track));
        a.od = freshDepth(d.u());
    }
    inline void continuous(Part& a, std::vector<Part>& out, const Field& F, double dt, bool classical, double frac, double eMin, bool track, const Draws& d)
    {
        if (a.kind == PHOTON || !a.alive) return;
        if (!(d.u() < frac)) return;
        EB f = F(a.t, a.x); double g = a.energy(), e = etaOf(a.p, f.e, f.b); if (e == 0) return;
        double h, chi;
        if (classical || e < 1e-12) { h = std::pow(10, 0.7193); double r = std::exp(tab().hx[0]); chi = tab().chi(r, d.u()) * (e / r) * (e / r); }
        else { h = tab().h(e); chi = tab().chi(e, d.u()); if (chi < 0) throw Beyond(); }
        double en = 2 * chi * g / e, w = a.w * dt * std::sqrt(3.0) * ALPHA * e * h / (2 * PI * g) / frac;
        if (en > eMin) out.push_back(photonFrom(a, en, w, d, track));
    }
    inline double photonChi(const Part& a, EB f) { V k = unit(a.p); V s = (f.e - dot(f.e, k) * k) + cross(k, f.b); return 0.5 * len(a.p) * len(s); }
    inline void breitWheeler(Part& a, std::vector<Part>& out, const Field& F, double dt, bool track, const Draws& d)
    {
        if (a.kind != PHOTON || !a.alive) return;
        double en = len(a.p), c = photonChi(a, F(a.t, a.x)); if (!(c > 0) || en < 2) return;
        a.od -= dt * ALPHA * c * tab().T(c) / en;
        if (!(a.od < 0)) return;
        double s = tab().eSplit(c, d.u()); if (s < -0.5) throw Beyond();
        double ep = std::min(std::max(s * en, 1.0), en - 1.0), E[2] = {ep, en - ep}; V k = unit(a.p);
        for (int i = 0; i < 2; i++)
        { Part p; p.kind = i ? ELECTRON : POSITRON; p.x = a.x; p.t = a.t; p.w = a.w; p.track = track; p.p = std::sqrt(std::max(E[i] * E[i] - 1, 0.0)) * k; p.od = freshDepth(d.u()); out.push_back(p); }
        a.alive = false;
    }

    // ---- sources ----
    struct Beam { int kind = ELECTRON; std::string distro = "mono"; double e1 = 1, e2 = 0, dPos = 0, dTau = 0, dDir = 0; V pos, dir = V(0, 0, 1); Frame fr; bool track = false; };
    inline Part primary(const Beam& b, double zx, double zy, double zz, double zt, double up, double e, double uod)
    {
        Part p; p.kind = b.kind; p.track = b.track; p.x = b.pos + b.fr.global(V(b.dPos * zx, b.dPos * zy, b.dTau * zz));
        double th = b.dDir * zt, ph = 2 * PI * up; V d = b.fr.global(V(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)));
        double m = b.kind == PHOTON ? e : std::sqrt(std::max(e * e - 1, 0.0)); p.p = m * d; p.od = freshDepth(uod); return p;
    }

    // ---- distributions of outcomes over enumerated draws ----
    struct Dist
    {
        struct O { std::vector<double> v; double w; }; std::vector<O> o;
        static bool same(const std::vector<double>& a, const std::vector<double>& b, double tol, double abs)
        {
            if (a.size() != b.size()) return false;
            for (size_t i = 0; i < a.size(); i++)
            { if (a[i] == b[i]) continue; if (!(std::fabs(a[i] - b[i]) <= std::max(abs, tol * std::max(std::fabs(a[i]), std::fabs(b[i]))))) return false; }
            return true;
        }
        void add(const std::vector<double>& v, double w) { o.push_back(O{v, w}); }
    };
    inline std::string str(const std::vector<double>& v) { std::string r = "("; char b[40]; for (double d : v) { snprintf(b, 40, "%s%.12g", r.size() > 1 ? " " : "", d); r += b; } return r + ")"; }
    // "" if both give every outcome the same probability
    inline std::string cmp(const Dist& got, const Dist& want, double tol = 1e-8, double abs = 1e-12)
    {
        struct C { std::vector<double> v; double g, w; }; std::vector<C> cs; std::multimap<double, size_t> ix;
        auto put = [&](const std::vector<double>& v, double p, bool isGot) {
            double k = v.empty() ? 0 : v[0], s = std::max(abs, tol * std::fabs(k)) * 2;
            for (auto it = ix.lower_bound(k - s); it != ix.end() && it->first <= k + s; ++it)
                if (Dist::same(cs[it->second].v, v, tol, abs)) { (isGot ? cs[it->second].g : cs[it->second].w) += p; return; }
            ix.insert(std::make_pair(k, cs.size())); cs.push_back(C{v, isGot ? p : 0, isGot ? 0 : p}); };
        for (auto& x : want.o) put(x.v, x.w, false);
        for (auto& x : got.o) put(x.v, x.w, true);
        for (auto& c : cs) if (!(std::fabs(c.g - c.w) <= 1e-9)) return vp::fmt("outcome %s has probability %.9g instead of %.9g", str(c.v).c_str(), c.g, c.w);
        return "";
    }
}
#endif
