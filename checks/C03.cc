// C03: every schedule of MPI runs of the output manager and of the program.
#include "mpisim/mpisim.hh"
#include "vp.hh"
#ifdef VP_CLI
#include "runmap.hh"
#else
#include "h5map.hh"
#endif
#include "OutputManager.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include <sys/stat.h>
#include <dirent.h>
using namespace vp;
typedef std::vector<double> Row;

static std::string base;
static std::string dir(int r) { return base + "/rank" + std::to_string(r); }
static int maxRanks = 16;
static std::string clean() { for (int r = 0; r < maxRanks; r++) for (const char* f : {"/out.h5", "/input-check.txt"}) unlink((dir(r) + f).c_str()); return ""; }
static std::string stray(int n)
{
    for (int r = 1; r < n; r++) { DIR* d = opendir(dir(r).c_str()); std::string s; while (dirent* e = readdir(d)) { std::string x = e->d_name; if (x.size() > 3 && x.substr(x.size() - 3) == ".h5") s = x; } closedir(d); if (s.size()) return vp::fmt("rank %d writes a file of its own", r); }
    return "";
}
// rows of a table in any order
static std::string rows(const H5Map& got, const std::string& name, std::vector<Row> want, double tol, bool empty)
{
    auto it = got.find(name);
    if (it == got.end()) return want.empty() && empty ? "" : "no table " + name;
    const DSet& d = it->second; if (d.dims.size() != 2 || d.dims[1] != 8) return name + " is no table of eight columns";
    if (d.dims[0] != want.size()) return name + vp::fmt(" has %zu rows instead of %zu", d.dims[0], want.size());
    std::vector<bool> used(want.size()); size_t hint = 0;   // tables are mostly in the order of the ranks
    for (size_t r = 0; r < want.size(); r++)
    {
        bool ok = false; const double* g = &d.v[8 * r];
        for (size_t h = 0; h < want.size() && !ok; h++)
        {
            size_t k = (hint + h) % want.size();
            if (used[k]) continue; bool eq = true; double sx = 1e-3, sp = 1e-3;
            for (int c = 2; c < 5; c++) sp = std::max(sp, std::fabs(want[k][c])); for (int c = 5; c < 8; c++) sx = std::max(sx, std::fabs(want[k][c]));
            for (int c = 0; c < 8 && eq; c++) eq = std::fabs(g[c] - want[k][c]) <= tol * (c == 0 ? 0 : c == 1 ? want[k][1] : c < 5 ? sp : sx);
            if (eq) { used[k] = true; ok = true; hint = k + 1; }
        }
        if (!ok) return name + vp::fmt(" row %zu (id %g, energy %.9g, p %.9g %.9g %.9g, x %.9g %.9g %.9g) was stored by no rank", r, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]);
    }
    return "";
}
static mpisim::Stats stats;

#ifndef VP_CLI
// ---------------- the output manager alone ----------------
// content of one rank: events as species words; "-" no events at all
static std::vector<std::string> events(const std::string& c)
{ std::vector<std::string> e; if (c == "-") return e; std::string w; for (char x : c + "|") if (x == '|') { e.push_back(w); w = ""; } else w += x; return e; }
static Row part(double k, double id) { return {id, 0, k + 0.25, 2 * k + 0.5, -3 * k, k + 0.125, -k - 0.375, 7 * k}; }
static Particle* make(char s, const Row& r)
{
    ThreeVector p(r[2], r[3], r[4]), x(r[5], r[6], r[7]);
    if (s == 'g') return new Photon(x, p); return new Lepton(1, s == 'e' ? -1 : 1, x, p);
}
static double energy(char s, const Row& r) { double q = r[2] * r[2] + r[3] * r[3] + r[4] * r[4]; return std::sqrt(q + (s == 'g' ? 0 : 1)); }
// unique number of a particle
static double number(int rank, int op, int ev, int k) { return 1000.0 * (rank + 1) + 100 * op + 10 * ev + k + 1; }
struct Op { char what; std::vector<std::string> content; };   // s: source with output, n: source without, t: source with output and tracking, h: histogram, i: histogram with no entry on some ranks
static int bins(const Op& q) { return q.what == 'l' ? 3000 : 3; }
static double bin(int rank, int op, int b, char what) { return what == 'i' && rank % 2 == 0 ? 0 : (rank + 1) * 10 + op * 100 + b * (rank + 2); }
static int body(int rank, const std::vector<Op>& ops)
{
    if (chdir(dir(rank).c_str())) return 90;
    MPI_Init(NULL, NULL);
    OutputManager* out = new OutputManager("out.h5");
    for (size_t o = 0; o < ops.size(); o++)
    {
        const Op& q = ops[o];
        if (strchr("hil", q.what))
        {
            int nb = bins(q); Histogram h("H" + std::to_string(o), "Electron", "Energy", 0, 1, nb, nb); for (int b = 0; b < nb; b++) h.GetBinValues()[b] = bin(rank, o, b, q.what);
            out->OutputHistMPI(&h); continue;
        }
        auto ev = events(q.content[rank]);
        if (q.what != 'n')
        {
            out->InitSource(ev.size());
            for (size_t e = 0; e < ev.size(); e++)
            {
                ParticleList l("p", 4); l.AddParticle(make('e', part(number(rank, o, e, 0), e))); out->StoreSource(&l, e, true);
                ParticleList f("f", ev[e].size() + 4); int k = 0; for (char s : ev[e]) { Particle* p = make(tolower(s), part(number(rank, o, e, ++k), e)); if (s < 'a') p->Kill(); f.AddParticle(p); } out->StoreSource(&f, e, false);
            }
        }
        out->OutputEventsMPI(q.what != 'n', q.what == 't');
    }
    delete out;
    MPI_Finalize();
    return 0;
}
static std::string check(int n, const std::vector<Op>& ops)
{
    std::string e = stray(n); if (e.size()) return e;
    H5Map got; e = h5read(dir(0) + "/out.h5", got); if (e.size()) return e;
    int ns = 0; std::set<std::string> known;
    for (size_t o = 0; o < ops.size(); o++)
    {
        const Op& q = ops[o];
        if (strchr("hil", q.what))
        {
            std::string g = "Histograms/H" + std::to_string(o); H5Map w, x; Row v(bins(q), 0), cs; for (int b = 0; b < bins(q); b++) { cs.push_back(b + 1); for (int r = 0; r < n; r++) v[b] += bin(r, o, b, q.what); }
            w["c"] = line(cs); w["v"] = line(v); if (got.count(g + "/BinCentres")) x["c"] = got[g + "/BinCentres"]; if (got.count(g + "/BinValues")) x["v"] = got[g + "/BinValues"];
            e = h5cmp(x, w); if (e.size()) return g + ": " + e; known.insert(g + "/BinCentres"); known.insert(g + "/BinValues"); continue;
        }
        if (q.what == 'n') continue;
        ns++; std::string g = "Particles/ParticleSource" + (ns > 1 ? std::to_string(ns) : ""); std::vector<Row> prim, sp[3]; const char* N[3] = {"/Electrons", "/Positrons", "/Photons"};
        for (int r = 0; r < n; r++)
        {
            auto ev = events(q.content[r]);
            for (size_t i = 0; i < ev.size(); i++)
            {
                Row p = part(number(r, o, i, 0), i); p[1] = energy('e', p); prim.push_back(p); int k = 0;
                for (char s : ev[i]) { Row f = part(number(r, o, i, ++k), i); f[1] = energy(tolower(s), f); if (s >= 'a') sp[s == 'e' ? 0 : s == 'p' ? 1 : 2].push_back(f); }
            }
        }
        e = rows(got, g + "/Primary", prim, 1e-9, false); if (e.size()) return e; known.insert(g + "/Primary");
        for (int s = 0; s < 3; s++) { e = rows(got, g + N[s], sp[s], 1e-9, true); if (e.size()) return e; if (sp[s].size()) known.insert(g + N[s]); }
    }
    for (auto& g : got) if (!known.count(g.first)) return "unexpected " + g.first;
    return "";
}
static void one(int n, const std::vector<Op>& ops, const std::string& name = "")
{
    std::string key = vp::fmt("om %d", n); if (name.find("large") != std::string::npos) key += name; else for (auto& o : ops) { key += std::string(" ") + o.what; for (size_t i = 0; i < o.content.size(); i++) key += (i ? "," : ":") + o.content[i]; }
    if (name.find("large") == std::string::npos) key += name;
    if (!vp::begin(key)) return;
    std::string e = mpisim::explore(n, [&](int r) { return body(r, ops); }, clean, [&] { return check(n, ops); }, stats);
    if (e.size()) fail(e); distinct(key);
}
int main()
{
    init(); vp::rng_const(0.5, 0); base = getenv("VP_TMP") ? getenv("VP_TMP") : "/tmp"; for (int r = 0; r < maxRanks; r++) mkdir(dir(r).c_str(), 0700);
    std::vector<std::string> A = {"e", "-", "eep|gppg", "", "pgg|eee"}; if (thorough()) { A.push_back("eeee|"); A.push_back("G|P|e"); }
    // one source, every distribution of contents over the ranks
    for (int n = 1; n <= (thorough() ? 4 : 3); n++)
    {
        int K = n <= 2 ? A.size() : n == 3 ? (thorough() ? A.size() : 4) : 3; long tot = 1; for (int i = 0; i < n; i++) tot *= K;
        for (long k = 0; k < tot; k++) { Op o; o.what = 's'; long x = k; for (int i = 0; i < n; i++) { o.content.push_back(A[x % K]); x /= K; } one(n, {o}); }
    }
    // sequences of operations
    const char* W = "snthi";
    for (int n = 1; n <= 3; n++)
    {
        int depth = n <= 2 ? 3 : thorough() ? 3 : 2; std::vector<std::string> seqs = {""};
        for (int d = 1; d <= depth; d++)
        {
            std::vector<std::string> nx; for (auto& s : seqs) for (int k = 0; k < 5; k++) nx.push_back(s + W[k]); seqs = nx;
            for (auto& s : seqs)
            {
                std::vector<Op> ops; for (size_t j = 0; j < s.size(); j++) { Op o; o.what = s[j]; if (!strchr("hi", s[j])) for (int r = 0; r < n; r++) o.content.push_back(A[(r + j) % 3]); ops.push_back(o); }
                one(n, ops);
            }
        }
    }
    // large contents in fixed orders, and every order of them where all ranks but one have little
    std::string many; for (int i = 0; i < 700; i++) many += i % 3 == 0 ? "e|" : i % 3 == 1 ? "gp|" : "|";
    std::vector<std::string> B = {std::string(1100, 'e') + std::string(2500, 'g') + std::string(1300, 'p'), many, "g|" + std::string(300, 'G') + std::string(1200, 'p'), "eep|gppg"};
    for (int n = 1; n <= 4; n++) for (int k = 0; k < 4; k++) for (int f = 0; f <= 3; f++)
    {
        if (f == 0 && (n > 2 || k > 1)) continue;
        mpisim::fixedOrder() = f; Op o; o.what = 's'; for (int i = 0; i < n; i++) o.content.push_back(B[(k + i) % 4]); Op h; h.what = 'l'; one(n, {o, h}, vp::fmt(" large %d order %d", k, f));
    }
    std::string very; for (int i = 0; i < 8300; i++) very += i % 3 == 0 ? "e|" : i % 3 == 1 ? "gp|" : "|";
    std::vector<std::string> B2 = {very, "e|" + std::string(67000, 'g') + "|" + std::string(67000, 'e') + std::string(67000, 'p')};
    for (int n = 2; n <= 3; n++) for (int k = 0; k < 2; k++)
    { mpisim::fixedOrder() = 1 + (n + k) % 3; Op o; o.what = 's'; for (int i = 0; i < n; i++) o.content.push_back(B2[(k + i) % 2]); one(n, {o}, vp::fmt(" very large %d", k)); }
    // up to 16 ranks in fixed orders
    for (int n = 5; n <= 16; n++) for (int f = 1; f <= 3; f++)
    {
        mpisim::fixedOrder() = f; std::vector<Op> ops; for (size_t j = 0; j < 4; j++) { Op o; o.what = "shti"[j]; if (!strchr("hi", o.what)) for (int r = 0; r < n; r++) o.content.push_back(A[(r + j) % A.size()]); ops.push_back(o); }
        one(n, ops, vp::fmt(" order %d", f));
    }
    mpisim::fixedOrder() = 0;
    // many ranks, histograms only: every order of arrival
    for (std::string s : {"h", "hi", "hih"}) { if (s.size() > 2 && !thorough()) continue; std::vector<Op> ops; for (char c : s) ops.push_back(Op{c, {}}); one(4, ops); if (thorough() && s.size() < 3) one(5, ops); }
    count("schedules", stats.schedules); count("complete_schedules", stats.complete);
    return finish();
}
#else
// ---------------- the whole program ----------------
static double uConst = 0.3;
extern "C" double vp_rng_zs(uint64_t s) { s ^= s >> 29; s *= 0x9e3779b97f4a7c15ull; s ^= s >> 32; return ((double)(s >> 11) / 9007199254740992.0 - 0.5) * 2; }
extern "C" unsigned vp_rng_rd(void) { static unsigned k = 0; return 77777u + 1000u * mpisim::me() + k++; }
static int body(int rank, const run::Cfg& c)
{
    if (chdir(dir(rank).c_str())) return 90;
    vp::rng().u = [] { return uConst; }; vp::rng().z = [] { return 0.0; };
    std::string d = dir(rank) + "/deck.ini"; run::write(d, run::deck(c, "out.h5"));
    char a0[] = "QEDCASC", *av[] = {a0, (char*)d.c_str(), NULL};
    return qedcasc_main(2, av);
}
static std::string check(int n, const run::Cfg& c)
{
    std::string e = stray(n); if (e.size()) return e;
    H5Map got; e = h5read(dir(0) + "/out.h5", got); if (e.size()) return e;
    int ns = 0; std::set<std::string> known; std::vector<std::vector<run::Part>> prim; bool all = true; ref::Field F = run::field(c); ref::Draws dr; dr.u = [] { return uConst; }; dr.z = [] { return 0.0; };
    run::Out o; for (auto& h : c.hist) o.hist.push_back(Row(h.bins, 0));
    for (auto& s : c.src)
    {
        if (!s.output) { all = false; continue; }
        ns++; std::string g = "Particles/ParticleSource" + (ns > 1 ? std::to_string(ns) : ""); auto it = got.find(g + "/Primary"); if (it == got.end()) return "no table " + g + "/Primary";
        const DSet& d = it->second; if (d.dims.size() != 2 || d.dims[1] != 8) return g + "/Primary is no table of eight columns";
        if (d.dims[0] != (size_t)s.n * n) return g + vp::fmt("/Primary has %zu rows instead of %d", d.dims[0], s.n * n);
        known.insert(g + "/Primary"); std::map<int, int> ids; std::vector<Row> sp[3]; const char* N[] = {"/Photons", "/Electrons", "/Positrons"};
        for (size_t i = 0; i < d.dims[0]; i++)
        {
            const double* v = &d.v[8 * i]; ids[(int)v[0]]++; run::Part p; p.kind = run::kind(s.type); p.track = c.track; p.p = run::V(v[2], v[3], v[4]); p.x = run::V(v[5], v[6], v[7]); p.od = ref::freshDepth(uConst);
            for (size_t k = 0; k < i; k++) { const double* w = &d.v[8 * k]; if (w[2] == v[2] && w[3] == v[3] && w[5] == v[5] && w[6] == v[6] && w[7] == v[7]) return g + vp::fmt("/Primary rows %zu and %zu are the same particle", k, i); }
            run::Event ev; ev.p.push_back(p); run::event(c, F, ev, dr, &o);
            for (auto& q : ev.p) if (q.alive) sp[q.kind].push_back(run::row(v[0], q));
        }
        for (int j = 0; j < s.n; j++) if (ids[j] != n) return g + vp::fmt("/Primary: event %d occurs %d times", j, ids[j]);
        for (int k = 0; k < 3; k++) { e = rows(got, g + N[k], sp[k], 1e-7, true); if (e.size()) return e; if (sp[k].size()) known.insert(g + N[k]); }
    }
    for (size_t h = 0; h < c.hist.size(); h++)
    {
        std::string g = "Histograms/Histogram" + std::to_string(h + 1); if (!got.count(g + "/BinCentres") || !got.count(g + "/BinValues")) return "no histogram " + g; known.insert(g + "/BinCentres"); known.insert(g + "/BinValues");
        Row v = got[g + "/BinValues"].v; double sum = 0; for (double x : v) sum += x;
        if (all) { for (int i = 0; i < c.hist[h].bins; i++) if (v[i] != o.hist[h][i]) return g + vp::fmt(" bin %d holds %g instead of %g", i, v[i], o.hist[h][i]); }
        else { int k = 0; for (auto& s : c.src) if (run::kind(s.type) == run::kind(c.hist[h].particle)) k += s.n; if (c.hist[h].time == 0 && c.hist[h].lo < 0 && sum != k * n) return g + vp::fmt(" holds %g particles instead of %d", sum, k * n); }
    }
    for (auto& g : got) if (!known.count(g.first)) return "unexpected " + g.first;
    return "";
}
int main()
{
    init(); run::tune(); base = getenv("VP_TMP") ? getenv("VP_TMP") : "/tmp"; for (int r = 0; r < maxRanks; r++) mkdir(dir(r).c_str(), 0700);
    for (int n : {1, 2, 3, 4, 8, 13})
        for (int srcs = 1; srcs <= 2; srcs++) for (int out = 0; out < (1 << srcs); out++) for (int nh = 0; nh <= 2; nh++) for (int trk = 0; trk < 2; trk++) for (int m = 0; m < 3; m++) for (int ev = 1; ev <= 3; ev += 2)
        {
            if (n == 4 && !thorough()) continue; if (n > 4 && (srcs != 2 || out != 3 || nh != 2 || trk || ev != 3)) continue; mpisim::fixedOrder() = n > 4 ? 1 + m : 0;
            if (n <= 4 && !thorough() && (n == 3 || srcs == 2) && (m + nh + out) % 3 != 0) continue;
            if (!thorough() && n == 3 && (ev != 3 || trk)) continue;
            if (thorough() && n == 4 && (srcs + nh > 2 || ev == 3)) continue;
            static const char* M[] = {"Quantum", "Classical", "Semiclassical"};
            run::Cfg c; c.field = "static"; c.B = run::V(0, 2e-3, 0); c.E = run::V(1e-5, 0, 0); c.dt = 2e3; c.end = 9e3; c.model = M[m]; c.track = trk; c.pairs = m == 0; c.eMin = 1;
            for (int s = 0; s < srcs; s++) { run::Source q; q.type = s ? "photon" : "electron"; q.distro = "gaussian"; q.e1 = 1500; q.e2 = 50; q.n = ev + s; q.radius = 100; q.dur = 10; q.div = 1e-3; q.output = out >> s & 1; c.src.push_back(q); }
            for (int h = 0; h < nh; h++) { run::Histo q; q.particle = h ? "Photon" : "Electron"; q.type = h ? "energy" : "x"; q.time = h ? 1e9 : 0; q.bins = 6; q.lo = h ? 0 : -300; q.hi = h ? 1600 : 300; c.hist.push_back(q); }
            std::string key = vp::fmt("cli n=%d src=%d out=%d hist=%d track=%d %s events=%d", n, srcs, out, nh, trk, M[m], ev); if (!vp::begin(key)) continue;
            for (double u : {0.3, 0.02})
            {
                uConst = u; std::string e; try { e = mpisim::explore(n, [&](int r) { return body(r, c); }, clean, [&] { return check(n, c); }, stats); } catch (ref::Beyond&) { count("beyond_tables"); continue; }
                if (e.size()) { fail(e); break; } distinct(key);
            }
        }
    count("schedules", stats.schedules); count("complete_schedules", stats.complete);
    return finish();
}
#endif
