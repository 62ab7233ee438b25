// C17: fields against closed forms, Maxwell's equations and their symmetries on product grids.
#include "physmap.hh"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
using namespace vp; using ref::V; using ref::EB;
static EB at(const EMField& f, double t, V x) { ThreeVector e(7, 7, 7), b(8, 8, 8); f.GetField(t, tv(x), e, b); EB r; r.e = rv(e); r.b = rv(b); return r; }
static std::vector<V> dirs()
{
    std::vector<V> r;
    for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) for (int k = -1; k < 2; k++) if (i || j || k) r.push_back(ref::unit(V(i, j, k)));
    for (V d : {V(0.3, -0.8, 0.1), V(-0.05, 0.02, 1), V(0.1, 0.1, -1), V(5, 1, 0.2), V(2e-3, -1e-3, 1), V(-1e-4, 2e-4, 1), V(0.03, -0.02, -1), V(1, 1e-3, -2e-3)}) r.push_back(ref::unit(d));
    return r;
}
// Frame of the wave: z -> d by the smallest rotation; for d = -z any half turn will do,
// so the frame the field uses is read off the rotation (whose properties C20 decides).
static ref::Frame waveFrame(V d)
{
    if (d[2] > -1 + 1e-12) return ref::frame(d);
    ThreeMatrix m = tv(d).RotateToAxis(ThreeVector(0, 0, 1)).Inverse(); ref::Frame f;
    for (int i = 0; i < 3; i++) { ThreeVector u; u[i] = 1; f.e[i] = rv(m * u); }
    return f;
}
static bool eq(V a, V b, double tol) { return ref::len(a - b) <= tol && std::isfinite(a[0] + a[1] + a[2]); }
static std::string show(V a) { return ref::str({a[0], a[1], a[2]}); }
// Other fields, evaluated at the same place and time just before: nothing of them may stay behind
static std::vector<EMField*> decoys; static size_t turn;
static void forget() { for (auto* d : decoys) delete d; decoys.clear(); }
static V near(V d, double by) { V o = std::fabs(d[0]) < 0.6 ? V(1, 0, 0) : V(0, 1, 0); return ref::unit(ref::unit(d) + by * ref::unit(ref::cross(d, o))); }
static void against(const EMField& f, const ref::Field& r, double t, V x, double a, double tol, const char* what)
{
    if (!decoys.empty()) at(*decoys[turn++ % decoys.size()], t, x);
    EB g = at(f, t, x), w = r(t, x); transition();
    if (!eq(g.e, w.e, tol * a + 1e-14)) fail(fmt("%s: E(%g, %s) is %s instead of %s", what, t, show(x).c_str(), show(g.e).c_str(), show(w.e).c_str()));
    else if (!eq(g.b, w.b, tol * a + 1e-14)) fail(fmt("%s: B(%g, %s) is %s instead of %s", what, t, show(x).c_str(), show(g.b).c_str(), show(w.b).c_str()));
    distinct(show(g.e) + show(g.b));
}
// Largest violation of the four vacuum equations by central differences
static double maxwell(const EMField& f, double t, V x, double h)
{
    EB p[4], m[4]; for (int i = 0; i < 3; i++) { V d; d[i] = h; p[i] = at(f, t, x + d); m[i] = at(f, t, x - d); } p[3] = at(f, t + h, x); m[3] = at(f, t - h, x);
    EB p2[4], m2[4]; for (int i = 0; i < 3; i++) { V d; d[i] = 2 * h; p2[i] = at(f, t, x + d); m2[i] = at(f, t, x - d); } p2[3] = at(f, t + 2 * h, x); m2[3] = at(f, t - 2 * h, x);
    auto dE = [&](int i, int c) { return (8 * (p[i].e[c] - m[i].e[c]) - (p2[i].e[c] - m2[i].e[c])) / (12 * h); };
    auto dB = [&](int i, int c) { return (8 * (p[i].b[c] - m[i].b[c]) - (p2[i].b[c] - m2[i].b[c])) / (12 * h); };
    double w = std::max(std::fabs(dE(0, 0) + dE(1, 1) + dE(2, 2)), std::fabs(dB(0, 0) + dB(1, 1) + dB(2, 2)));
    for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3;
        w = std::max(w, std::fabs(dE(j, k) - dE(k, j) + dB(3, i))); w = std::max(w, std::fabs(dB(j, k) - dB(k, j) - dE(3, i))); }
    transition(16); return w;
}
int main()
{
    init(); rng_const(0, 0); bool th = thorough(); auto D = dirs();
    std::vector<double> pols{0, 0.5235987755982988, 1.5707963267948966, 2.1, -0.7, 3.9, 8.2}; std::vector<double> ts{-3.7, 0, 0.41, 12.9, 1003.3};
    // static
    for (size_t i = 0; i < D.size(); i++) for (size_t j = 0; j < D.size(); j++)
    {
        if (!begin(fmt("static e=%zu b=%zu", i, j))) continue;
        V e = 0.3 * D[i], b = (j % 3 ? 2.0 : 0.0) * D[j]; StaticEMField f(tv(e), tv(b));
        for (double t : ts) for (V x : {V(), V(1e3, -2, 5), V(-1, 1, 1e6)}) against(f, ref::staticField(e, b), t, x, 1, 1e-12, "static");
    }
    // plane
    for (size_t i = 0; i < D.size(); i++) for (double dl : {1.0, 0.02, 300.0}) for (double pol : pols) for (double amp : {2e-6, 0.4, -0.25, 6.0}) for (double wl : {0.7, 55.0})
    {
        if (!begin(fmt("plane dir=%zu length=%g pol=%g a=%g wl=%g", i, dl, pol, amp, wl))) continue;
        double a = std::fabs(amp); V d0 = dl * D[i];
        forget(); decoys = {new PlaneEMField(1.7 * amp, wl, pol, tv(d0)), new PlaneEMField(amp, 1.3 * wl, pol, tv(d0)), new PlaneEMField(amp, wl, pol + 0.4, tv(d0)), new PlaneEMField(amp, wl, pol, tv(near(d0, 0.7))), new PlaneEMField(amp, wl, pol, tv(near(d0, pol < 1 ? 4e-4 : 1e-6)))};
        PlaneEMField f(amp, wl, pol, tv(dl * D[i])); ref::Frame fr = waveFrame(D[i]); ref::Field r = ref::planeField(amp, wl, pol, fr);
        double top = 0;
        for (double t : ts) for (V l : {V(), V(1, 2, 3), V(-20, 5, 0.31 * wl), V(0, 0, -1000), V(3, 0, 0.77 * wl)})
        {
            V x = fr.global(l); against(f, r, t, x, a, 1e-8, "plane"); EB g = at(f, t, x);
            if (std::fabs(ref::dot(g.e, D[i])) > 1e-9 * a || std::fabs(ref::dot(g.e, g.b)) > 1e-9 * a * a || std::fabs(ref::len(g.e) - ref::len(g.b)) > 1e-9 * a) fail("E, B and the direction are not perpendicular or E and B differ in size");
            if (!eq(g.b, ref::cross(D[i], g.e), 1e-9 * a)) fail("B is not direction x E");
            EB s = at(f, t + 1.7, x + 1.7 * D[i]); if (!eq(s.e, g.e, 1e-8 * a)) fail("does not travel at the speed of light along its direction");
            EB n = at(f, t, x + wl * D[i]); if (!eq(n.e, g.e, 1e-8 * a)) fail("wave length");
            double m = maxwell(f, t, x, wl / 400); if (m > 1e-6 * a * 2 * ref::PI / wl) fail(fmt("violates Maxwell's equations by %g", m / (a * 2 * ref::PI / wl)));
            top = std::max(top, ref::len(g.e));
        }
        if (std::fabs(ref::len(at(f, 0, V()).e) - a) > 1e-9 * a || top > a * (1 + 1e-9)) fail("peak field");
    }
    // pulses
    for (int focus = 0; focus < 2; focus++) for (size_t i = 0; i < D.size(); i++) for (double dist : {0.5, 40.0}) for (double pol : pols) for (int shape = 0; shape < 4; shape++)
    {
        if (!begin(fmt("%s dir=%zu distance=%g pol=%g shape=%d", focus ? "focusing" : "gaussian", i, dist, pol, shape))) continue;
        double wl[4] = {1, 1, 0.3, 20}, w0[4] = {2, 0.8, 3, 45}, tau[4] = {6, 1.5, 200, 90}, a = shape == 2 ? 3e-5 : shape == 3 ? 4 : 0.2, amp = shape == 1 ? -a : a; if (shape == 3) dist *= 4;
        V fp = shape == 1 ? V() : V(1.5, -7, 3), st = fp - dist * D[i]; ref::Frame fr = waveFrame(D[i]);
        EMField* f; ref::Field r; forget();
        auto other = [&](double A, double L, double T, double W, double P, V s) { decoys.push_back(focus ? (EMField*)new FocusingField(A, L, T, W, P, tv(s), tv(fp)) : (EMField*)new GaussianEMField(A, L, T, W, P, tv(s), tv(fp))); };
        other(1.7 * amp, wl[shape], tau[shape], w0[shape], pol, st); other(amp, 1.3 * wl[shape], tau[shape], w0[shape], pol, st); other(amp, wl[shape], 1.4 * tau[shape], w0[shape], pol, st); other(amp, wl[shape], tau[shape], 0.7 * w0[shape], pol, st);
        other(amp, wl[shape], tau[shape], w0[shape], pol + 0.4, st); other(amp, wl[shape], tau[shape], w0[shape], pol, fp - 1.2 * dist * D[i]); for (double by : {0.7, pol < 1 ? 4e-4 : 1e-6}) other(amp, wl[shape], tau[shape], w0[shape], pol, fp - dist * near(D[i], by));
        if (focus) { f = new FocusingField(amp, wl[shape], tau[shape], w0[shape], pol, tv(st), tv(fp)); r = ref::focusField(amp, wl[shape], tau[shape], w0[shape], pol, st, fp, fr); }
        else { f = new GaussianEMField(amp, wl[shape], tau[shape], w0[shape], pol, tv(st), tv(fp)); r = ref::gaussField(amp, wl[shape], tau[shape], w0[shape], pol, st, fp, fr); }
        const char* nm = focus ? "focusing" : "gaussian"; double zr = ref::PI * w0[shape] * w0[shape] / wl[shape];
        std::vector<double> zs{-dist, -zr, -0.3 * wl[shape], 0, 0.21, 1.3 * zr}; std::vector<V> off{V(), V(0.4, 0, 0), V(0, -0.9, 0), V(0.7, 0.7, 0), V(-1.6, 0.3, 0), V(2.6, 0.2, 0), V(-2, -2.4, 0)};
        // out to where envelope and profile have fallen by six orders of magnitude
        for (double z : zs) for (double dt : {-3.6, -2.3, -1.1, -0.1, 0.0, 0.13, 0.9, 1.7, 3.1, 8.0}) for (V o : off)
        {   // the pulse's centre passes z at time dist + z
            double t = dist + z + dt * tau[shape]; V l = w0[shape] * o; l[2] = z; V x = fp + fr.global(l);
            against(*f, r, t, x, a, 1e-7, nm);
            EB g = at(*f, t, x);
            if (!focus || (ref::len(o) == 0 && z == 0)) if (std::fabs(ref::dot(g.e, D[i])) > 1e-8 * a || std::fabs(ref::dot(g.e, g.b)) > 1e-8 * a * a) fail("not perpendicular");
            if (!focus && std::fabs(ref::len(g.e) - ref::len(g.b)) > 1e-8 * a) fail("E and B differ in size");
            if (ref::dot(ref::cross(g.e, g.b), D[i]) < -1e-3 * a * a) fail("energy flows backwards");
        }
        // covariance: shift the whole set-up; turn it about the beam's frame axes
        V sh(3, -1, 2.5); EMField* g; if (focus) g = new FocusingField(amp, wl[shape], tau[shape], w0[shape], pol, tv(st + sh), tv(fp + sh)); else g = new GaussianEMField(amp, wl[shape], tau[shape], w0[shape], pol, tv(st + sh), tv(fp + sh));
        EMField* h; V zd(0, 0, dist); if (focus) h = new FocusingField(amp, wl[shape], tau[shape], w0[shape], pol, tv(fp - zd), tv(fp)); else h = new GaussianEMField(amp, wl[shape], tau[shape], w0[shape], pol, tv(fp - zd), tv(fp));
        EMField* k; if (focus) k = new FocusingField(amp, wl[shape], tau[shape], w0[shape], pol + 0.6, tv(fp - zd), tv(fp)); else k = new GaussianEMField(amp, wl[shape], tau[shape], w0[shape], pol + 0.6, tv(fp - zd), tv(fp));
        for (V l : {V(0.3, -0.4, 0.2), V(-1, 0.5, -0.6), V(0, 0, 0.1)}) for (double dt : {-0.2, 0.35})
        {
            V q(l[0] * w0[shape], l[1] * w0[shape], l[2] * zr); double t = dist + q[2] + dt * tau[shape]; EB e = at(*f, t, fp + fr.global(q)), s = at(*g, t, fp + sh + fr.global(q)), z = at(*h, t, fp + q);
            if (!eq(s.e, e.e, 1e-7 * a) || !eq(s.b, e.b, 1e-7 * a)) fail("not covariant under translation");
            if (!eq(fr.global(z.e), e.e, 1e-7 * a) || !eq(fr.global(z.b), e.b, 1e-7 * a)) fail("not covariant under rotation of the set-up");
            // turning the polarisation turns the whole transverse pattern
            double c = std::cos(0.6), si = std::sin(0.6); V qr(c * q[0] - si * q[1], si * q[0] + c * q[1], q[2]); EB p = at(*k, t, fp + qr);
            V er(c * z.e[0] - si * z.e[1], si * z.e[0] + c * z.e[1], z.e[2]), br(c * z.b[0] - si * z.b[1], si * z.b[0] + c * z.b[1], z.b[2]);
            if (!eq(p.e, er, 1e-7 * a) || !eq(p.b, br, 1e-7 * a)) fail("the pattern does not turn with the polarisation angle");
        }
        delete f; delete g; delete h; delete k;
    }
    // Maxwell residuals of the pulses as the diffraction angle falls
    for (int focus = 0; focus < 2; focus++) for (size_t i = 0; i < D.size(); i += th ? 1 : 5) for (double pol : {0.0, 0.7}) for (double eps : {0.2, 0.1, 0.05})
    {
        if (!begin(fmt("maxwell %s dir=%zu pol=%g eps=%g", focus ? "focusing" : "gaussian", i, pol, eps))) continue;
        double wl = 1, k = 2 * ref::PI, w0 = 2 / (k * eps), zr = k * w0 * w0 / 2, tau = 1e7, dist = 10, a = 0.5; V fp(1, 2, -1), st = fp - dist * D[i]; ref::Frame fr = waveFrame(D[i]); EMField* f;
        if (focus) f = new FocusingField(a, wl, tau, w0, pol, tv(st), tv(fp)); else f = new GaussianEMField(a, wl, tau, w0, pol, tv(st), tv(fp));
        double worst = 0;
        for (double z : {-0.7, 0.0, 0.4}) for (V o : {V(), V(0.5, 0, 0), V(0, 0.6, 0), V(-0.4, 0.5, 0)}) for (double t : {0.0, 0.13, 0.31})
        { V q = w0 * o; q[2] = z * zr; worst = std::max(worst, maxwell(*f, dist + q[2] + t, fp + fr.global(q), 1e-2) / (a * k)); }
        note(fmt("residual %s eps=%g", focus ? "focusing" : "gaussian", eps), fmt("%.3g", worst));
        double lim = focus ? 0.5 * std::pow(eps, 5) + 6e-7 : 0.6 * eps; if (worst > lim) fail(fmt("residual %g of the field times the wave number, more than %g", worst, lim));
        delete f;
    }
    return finish();
}
