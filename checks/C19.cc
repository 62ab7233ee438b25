// C19: every small table over a value grid, every query position.
#include "vp.hh"
#include "Numerics.hh"
using namespace vp;

static double ref_interp(const std::vector<double>& x, const std::vector<double>& y, double q)
{
    size_t n = x.size(), i = 0;
    while (i + 2 < n && q > x[i + 1]) i++;
    long double t = ((long double)q - x[i]) / ((long double)x[i + 1] - x[i]);
    return (double)(y[i] + t * ((long double)y[i + 1] - y[i]));
}
static std::vector<double> queries(const std::vector<double>& x)
{
    std::vector<double> q; size_t n = x.size(); double span = x[n - 1] - x[0];
    for (size_t i = 0; i < n; i++) q.push_back(x[i]);
    for (size_t i = 0; i + 1 < n; i++)
        for (double f : {1e-9, 0.25, 0.4999, 0.5, 0.5001, 0.75, 1 - 1e-9}) q.push_back(x[i] + f * (x[i + 1] - x[i]));
    for (double f : {1e-9, 0.5, 3.0, 1e6}) { q.push_back(x[0] - f * span); q.push_back(x[n - 1] + f * span); }
    return q;
}
static std::string str(const std::vector<double>& v) { std::string r = "["; for (double d : v) r += fmt("%g ", d); return r + "]"; }

static void tables(const std::vector<double>& grid, const std::vector<double>& vals, size_t nmin, size_t nmax, size_t datamax)
{
    for (unsigned m = 1; m < (1u << grid.size()); m++)
    {
        std::vector<double> x;
        for (size_t i = 0; i < grid.size(); i++) if (m >> i & 1) x.push_back(grid[i]);
        size_t n = x.size(); if (n < nmin || n > nmax) continue;
        if (!begin("axis " + str(x))) continue;
        // copies of exactly the table's size, so that reading outside is noticed
        double* ax = new double[n]; std::copy(x.begin(), x.end(), ax);
        std::vector<double> qs = queries(x);
        double scale = std::max(std::fabs(x[0]), std::fabs(x[n - 1]));
        for (double q : qs)
        {
            int idx = Numerics::ArrayIndex(ax, n, q);
            double best = 1e308; for (double v : x) best = std::min(best, std::fabs(v - q));
            if (idx < 0 || idx >= (int)n) fail(fmt("ArrayIndex(%.17g) = %d is outside the table", q, idx));
            else if (std::fabs(x[idx] - q) > best + 1e-12 * std::max(scale, std::fabs(q)))
                fail(fmt("ArrayIndex(%.17g) = %d (at %g) is not the closest node", q, idx, x[idx]));
            distinct(fmt("AI %u %d %d", m, idx, (int)(q < x[0]) + 2 * (q > x[n - 1])));
            count("array_index_queries");
            // the bracketing search
            if (n >= 3 && q <= x[n - 2])
            {
                int lo = -77; double fr = -77; Numerics::ClosestPoints(ax, n, q, lo, fr);
                if (lo < 0 || lo > (int)n - 2) fail(fmt("ClosestPoints(%.17g): index %d is outside the table", q, lo));
                else
                {
                    double back = x[lo] + fr * (x[lo + 1] - x[lo]);
                    if (!close(back, q, 1e-9, 1e-9 * scale)) fail(fmt("ClosestPoints(%.17g): interval %d, fraction %g means %g", q, lo, fr, back));
                    if (q >= x[0] && (fr < -1e-9 || fr > 1 + 1e-9)) fail(fmt("ClosestPoints(%.17g): fraction %g of interval %d", q, fr, lo));
                    if (q < x[0] && lo != 0) fail(fmt("ClosestPoints(%.17g): interval %d for a query before the table", q, lo));
                    distinct(fmt("CP %u %d", m, lo));
                }
                count("bracket_queries");
            }
        }
        // beyond the supported range: an error exit, never an answer (in the
        // last interval a right answer is accepted as well)
        for (double f : {-0.5, 1e-6, 0.5, 10.0})
        {
            double q = x[n - 1] + f * (x[n - 1] - x[n - 2]);
            int w = forked([&] {
                int lo = -77; double fr = -77; Numerics::ClosestPoints(ax, n, q, lo, fr);
                if (f > 0) return 0;
                return lo == (int)n - 2 && close(fr, 0.5, 1e-6) ? 5 : 0;
            });
            if (!WIFEXITED(w) || WEXITSTATUS(w) == 0) fail(fmt("ClosestPoints(%.17g) beyond the table does not end the program with an error (status %d)", q, w));
            count("bracket_error_exits");
        }
        // interpolation for every data assignment
        if (n <= datamax)
        {
            std::vector<size_t> d(n, 0); double* dy = new double[n];
            for (;;)
            {
                std::vector<double> y(n); for (size_t i = 0; i < n; i++) dy[i] = y[i] = vals[d[i]];
                for (double q : qs)
                {
                    double r = Numerics::Interpolate1D(ax, dy, n, q), e = ref_interp(x, y, q);
                    double tol = 1e-9 * (1 + std::fabs(e)) * (1 + (q < x[0] || q > x[n - 1] ? 1 : 0));
                    if (!(std::fabs(r - e) <= tol)) fail(fmt("Interpolate1D data %s at %.17g = %.17g, should be %.17g", str(y).c_str(), q, r, e));
                    count("interpolations");
                }
                distinct(fmt("I %u ", m) + str(y));
                size_t k = 0; while (k < n && ++d[k] == vals.size()) d[k++] = 0;
                if (k == n) break;
            }
            // nodes are exact up to rounding, whatever the data
            delete[] dy;
        }
        delete[] ax;
    }
}

int main()
{
    init();
    bool T = thorough();
    tables({-3, -1, -0.5, 0, 0.25, 2, 7}, {-2, 0, 1, 5}, 2, T ? 7 : 6, T ? 7 : 5);
    tables({-1e6, -1, 1e-6, 2e-6, 5e3}, {-1e5, 0, 1e-3}, 2, 5, 5);
    // equally spaced long tables like the ones in use
    for (int n : {10, 60, 100, 101, 400})
        for (double lo : {-3.0, 0.0}) for (double st : {0.05, 1.0})
        {
            if (!begin(fmt("long table %d %g %g", n, lo, st))) continue;
            std::vector<double> x(n), y(n); for (int i = 0; i < n; i++) { x[i] = lo + i * st; y[i] = std::sin(i * 1.7); }
            double* ax = new double[n], *ay = new double[n]; std::copy(x.begin(), x.end(), ax); std::copy(y.begin(), y.end(), ay);
            for (double q : queries(x))
            {
                double r = Numerics::Interpolate1D(ax, ay, n, q), e = ref_interp(x, y, q);
                if (!(std::fabs(r - e) <= 1e-8 * (1 + std::fabs(e)))) fail(fmt("Interpolate1D at %.17g = %.17g, should be %.17g", q, r, e));
                int i = Numerics::ArrayIndex(ax, n, q); double best = 1e308; for (double v : x) best = std::min(best, std::fabs(v - q));
                if (i < 0 || i >= n || std::fabs(x[i] - q) > best + 1e-9 * (1 + std::fabs(q))) fail(fmt("ArrayIndex(%.17g) = %d", q, i));
                if (q <= x[n - 2])
                {
                    int l = -1; double f = 0; Numerics::ClosestPoints(ax, n, q, l, f);
                    if (l < 0 || l > n - 2 || !close(x[l] + f * st, q, 1e-9, 1e-9 * (1 + std::fabs(q)))) fail(fmt("ClosestPoints(%.17g) = %d, %g", q, l, f));
                }
                distinct(fmt("L %d %g %g %.17g", n, lo, st, q)); count("long_table_queries");
            }
            delete[] ax; delete[] ay;
        }
    // Simpson's rule: exact for every cubic of a coefficient grid
    for (int n = 3; n <= (T ? 41 : 21); n += 2)
        for (double a : {-2.0, 0.0, 1.5}) for (double b : {1.0, 4.0})
        {
            double hi = a + b; if (!begin(fmt("simpson n=%d [%g,%g]", n, a, hi))) continue;
            for (double c0 : {-1., 0., 2.}) for (double c1 : {-1., 0., 3.}) for (double c2 : {-2., 0., 1.}) for (double c3 : {-1., 0., 4.})
            {
                std::vector<double> ax(n), f(n);
                for (int i = 0; i < n; i++) { double x = ax[i] = a + (hi - a) * i / (n - 1); f[i] = c0 + x * (c1 + x * (c2 + x * c3)); }
                auto F = [&](long double x) { return x * (c0 + x * (c1 / 2.0L + x * (c2 / 3.0L + x * c3 / 4.0L))); };
                double e = (double)(F(hi) - F(a)), r = Numerics::SimpsonsRule(ax, f);
                if (!close(r, e, 1e-9, 1e-9)) fail(fmt("integral of %g+%gx+%gx2+%gx3 = %.17g, should be %.17g", c0, c1, c2, c3, r, e));
                distinct(fmt("S %d %g %g %g %g %g %g", n, a, hi, c0, c1, c2, c3)); count("integrals");
            }
        }
    return finish();
}
