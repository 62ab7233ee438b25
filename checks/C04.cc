// C04, part 1: the laws of the draws, over grids of the underlying numbers.
#include "vp.hh"
#include "MCTools.hh"
using namespace vp;

static std::string str(const std::vector<double>& v) { std::string r = "["; for (double d : v) r += fmt("%g ", d); return r + "]"; }
int main()
{
    init();
    bool T = thorough();
    int N = T ? 5000 : 997;
    // uniform draws
    struct R { double lo, hi; };
    for (R r : {R{0, 1}, R{-2, 3}, R{5, 5.5}, R{-1e6, 1e-6}, R{0, 6.283185307}, R{100, 1e9}, R{-7, -6}, R{-1e-30, 1e-30}, R{1e-15, 4e-15}, R{5, 5 + 1e-10}, R{-1e30, 1e30}})
        for (int sample = 0; sample < 3; sample++)
        {
            if (!begin(fmt("uniform [%g,%g) %s", r.lo, r.hi, sample == 0 ? "RandDouble" : sample == 1 ? "SampleUniform" : "SampleUniform one by one"))) continue;
            std::vector<double> got, want; int i = 0;
            rng().u = [&] { return (i++ % N + 0.5) / N; }; rng().z = [] { fail("a uniform draw uses the normal law"); return 0.0; };
            if (sample == 1) got = MCTools::SampleUniform(r.lo, r.hi, N);
            else for (int k = 0; k < N; k++)
            {
                i = k; int before = i;
                got.push_back(sample ? MCTools::SampleUniform(r.lo, r.hi, 1).at(0) : MCTools::RandDouble(r.lo, r.hi));
                if (i == before) { fail("a draw without using a random number"); break; }
            }
            for (int k = 0; k < N; k++) want.push_back(r.lo + (r.hi - r.lo) * ((k + 0.5) / N));
            if ((int)got.size() != N) { fail(fmt("%zu entries instead of %d", got.size(), N)); continue; }
            std::sort(got.begin(), got.end());
            for (int k = 0; k < N; k++) if (!close(got[k], want[k], 1e-9, 1e-9 * (r.hi - r.lo))) { fail(fmt("quantile %d of %d is %.12g instead of %.12g", k, N, got[k], want[k])); break; }
            for (double u : {0.0, 0x1p-53, 0.5, 1 - 0x1p-53})
            {
                rng().u = [u] { return u; }; double v = MCTools::RandDouble(r.lo, r.hi);
                // rounding of low+u*(high-low) may reach the upper limit itself
                if (!(v >= r.lo && v <= r.hi)) fail(fmt("%.17g is outside [%g,%g)", v, r.lo, r.hi));
            }
            count("uniform_draws", N); distinct(fmt("U%g %g %d", r.lo, r.hi, sample));
            for (double g : got) distinct(fmt("%a", g));
        }
    // normal draws
    for (double mean : {0.0, -3.0, 1e4, 1e-20}) for (double sig : {0.0, 1.0, 0.25, 100.0, 1e-12, 1e-25, 1e20}) for (int sample = 0; sample < 3; sample++)
    {
        if (!begin(fmt("normal %g %g %s", mean, sig, sample == 0 ? "RandNorm" : sample == 1 ? "SampleNorm" : "SampleNorm one by one"))) continue;
        std::vector<double> got, want; int i = 0;
        auto Z = [&](int k) { return -5 + 10.0 * k / (N - 1); };
        rng().z = [&] { return Z(i++ % N); }; rng().u = [] { fail("a normal draw uses the uniform law"); return 0.5; };
        if (sample == 1) got = MCTools::SampleNorm(mean, sig, N);
        else for (int k = 0; k < N; k++) { i = k; got.push_back(sample ? MCTools::SampleNorm(mean, sig, 1).at(0) : MCTools::RandNorm(mean, sig)); if (i == k) { fail("a draw without using a random number"); break; } }
        for (int k = 0; k < N; k++) want.push_back(mean + sig * Z(k));
        if ((int)got.size() != N) { fail(fmt("%zu entries instead of %d", got.size(), N)); continue; }
        std::sort(got.begin(), got.end());
        for (int k = 0; k < N; k++) if (!close(got[k], want[k], 1e-9, 1e-9 * (sig + std::fabs(mean)))) { fail(fmt("quantile %d of %d is %.12g instead of %.12g", k, N, got[k], want[k])); break; }
        count("normal_draws", N); distinct(fmt("N%g %g %d", mean, sig, sample));
        for (double g : got) distinct(fmt("%a", g));
    }
    // samples of every small size: n entries from n different draws
    std::vector<unsigned> sizes; for (unsigned n = 0; n <= 40; n++) sizes.push_back(n); for (unsigned n : {255, 1000, 4097, 70000}) sizes.push_back(n);
    for (unsigned n : sizes)
    {
        if (!begin(fmt("sample of %u", n))) continue;
        double k = 0; rng().u = [&] { k += 1; return k / 131072; }; rng().z = [&] { k += 1; return k; };
        std::vector<double> a = MCTools::SampleUniform(0, 131072, n); k = 0;
        std::vector<double> b = MCTools::SampleNorm(10, 2, n);
        if (a.size() != n || b.size() != n) { fail("wrong size"); continue; }
        std::set<double> sa(a.begin(), a.end()), sb(b.begin(), b.end());
        if (sa.size() != n || sb.size() != n) fail("entries share a random number");
        for (unsigned i = 1; i <= n; i++) if (!sa.count(i) || !sb.count(10 + 2.0 * i)) { fail(fmt("draw %u is not in the sample", i)); break; }
        count("samples", 2); distinct(fmt("S%u", n));
    }
    // discrete draws: every small weight vector, shares counted over a grid
    for (int len = 1; len <= (T ? 5 : 4); len++)
    {
        std::vector<double> W = {0, 1, 2, 5}; std::vector<size_t> d(len, 0);
        for (;;)
        {
            std::vector<double> w; double sum = 0; for (size_t i : d) { w.push_back(W[i]); sum += W[i]; }
            for (double scale : {1.0, 0.1, 1e3})
                if (sum > 0 && begin(fmt("discrete %s * %g", str(w).c_str(), scale)))
                {
                    std::vector<double> ws = w; for (double& v : ws) v *= scale;
                    int K = (int)(sum * 16); std::vector<int> c(len, 0); bool ok = true;
                    for (int k = 0; k < K && ok; k++)
                    {
                        rng().u = [=] { return (k + 0.5) / K; };
                        unsigned i = MCTools::RandDiscrete(ws);
                        if (i >= (unsigned)len) { fail(fmt("index %u", i)); ok = false; break; }
                        c[i]++;
                    }
                    for (int i = 0; i < len && ok; i++) if (c[i] != (int)(w[i] * 16)) fail(fmt("index %d drawn %d times in %d instead of %d", i, c[i], K, (int)(w[i] * 16)));
                    for (double u : {0.0, 0x1p-53, 1 - 0x1p-53})
                    {
                        rng().u = [u] { return u; }; unsigned i = MCTools::RandDiscrete(ws);
                        if (i >= (unsigned)len || w[i] == 0) fail(fmt("index %u of weight zero drawn for u=%.17g", i, u));
                    }
                    count("discrete_draws", K + 3); distinct("D" + str(ws));
                }
            int k = 0; while (k < len && ++d[k] == W.size()) d[k++] = 0;
            if (k == len) break;
        }
    }
    // discrete draws from long weight vectors
    for (int len : {10, 65, 300, 5000}) for (int shape = 0; shape < 4; shape++)
    {
        if (!begin(fmt("discrete %d weights of shape %d", len, shape))) continue;
        std::vector<double> w(len); std::vector<int> want(len), c(len); double sum = 0; for (int i = 0; i < len; i++) { want[i] = shape == 0 ? 1 : shape == 1 ? i % 3 : shape == 2 ? (i >= len - 2 ? 4 : 0) : (i == 0 ? 9 : i == len - 1); w[i] = want[i] * 0.25; sum += want[i]; }
        for (int k = 0; k < (int)sum; k++) { rng().u = [=] { return (k + 0.5) / sum; }; unsigned i = MCTools::RandDiscrete(w); if (i >= (unsigned)len) { fail(fmt("index %u", i)); break; } c[i]++; }
        for (int i = 0; i < len; i++) if (c[i] != want[i]) { fail(fmt("index %d drawn %d times in %g instead of %d", i, c[i], sum, want[i])); break; }
        count("discrete_draws", (long)sum); distinct(fmt("DL%d %d", len, shape));
    }
    // Poisson draws: all sequences of uniform numbers from a grid, cut off
    // where the remaining probability is negligible
    for (double mean : {0.2, 0.5, 1.0, 1.3})
    {
        if (!begin(fmt("poisson %g", mean))) continue;
        int K = T ? 60 : 36, cut = T ? 5 : 4; std::map<unsigned, double> p; double lost = 0;
        Choices c; double prob = 1; int used = 0;
        do
        {
            c.start(); prob = 1; used = 0; bool over = false;
            rng().u = [&] { if (++used > cut) { over = true; return 1e-12; } prob /= K; return (c.choose(K) + 0.5) / K; };
            unsigned r = MCTools::RandPoisson(mean);
            if (over) lost += prob; else p[r] += prob;
            count("poisson_draws");
        } while (c.next());
        double e = std::exp(-mean);
        for (unsigned k = 0; k < 4; k++)
        {
            double tol = 1.0 / K + lost; if (std::fabs(p[k] - e) > tol) fail(fmt("P(%u) = %.4f instead of %.4f", k, p[k], e));
            e *= mean / (k + 1);
        }
        distinct(fmt("P%g", mean));
    }
    return finish();
}
