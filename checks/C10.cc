// C10: every setting reaches the simulation: number, flag and vector notations,
// every subset of the settings of every section, the natural units, the summary
// file, and whole runs in which one setting differs from its default.
#include "pymap.hh"
#include "INIReader.hh"
#include "FileParser.hh"
#include "UnitsSystem.hh"
using namespace vp; using namespace run;

struct Num { std::string s; long double v; };
static std::vector<Num> numbers(bool T)
{
    std::vector<Num> r; std::vector<std::string> I = {"", "0", "7", "12", "345"}, F = {"", ".", ".5", ".125"}, E = {"", "e0", "e3", "E-3", "e+2", "E12", "e-18"};
    if (T) { I.push_back("00"); I.push_back("09"); I.push_back("123456789"); F.push_back(".0"); F.push_back(".000001"); F.push_back(".999999999999"); E.push_back("E+05"); E.push_back("e-30"); E.push_back("e21"); }
    for (std::string sg : {"", "-", "+"}) for (auto& i : I) for (auto& f : F) for (auto& e : E)
    {
        if (i.empty() && f.size() < 2) continue;
        long double v = 0; for (char c : i) v = v * 10 + (c - '0'); long double q = 1; for (size_t k = 1; k < f.size(); k++) { q /= 10; v += (f[k] - '0') * q; }
        if (e.size()) { int x = atoi(e.c_str() + 1); v *= powl(10, x); }
        r.push_back({sg + i + f + e, sg == "-" ? -v : v});
    }
    return r;
}
static std::string file() { return run::tmp() + "/s.ini"; }
static bool same(double a, long double b) { return std::fabs((long double)a - b) <= 4e-16L * std::fabs(b); }

static void notations(bool T)
{
    std::vector<Num> N = numbers(T);
    // numbers
    for (int g = 0; g < 8; g++)
    {
        if (!begin(fmt("number notations, part %d", g))) continue;
        std::string t = "[S]\n"; for (size_t i = g; i < N.size(); i += 8) t += fmt("k%zu = %s\n", i, N[i].s.c_str());
        write(file(), t); INIReader r(file()); if (r.ParseError()) { fail("a file of numbers is malformed"); continue; }
        for (size_t i = g; i < N.size(); i += 8)
        {
            std::string k = fmt("k%zu", i); double x = r.GetReal("S", k, -77); distinct(N[i].s); transition();
            if (!same(x, N[i].v)) fail(fmt("the number %s reads %.17g", N[i].s.c_str(), x));
            if (N[i].v == truncl(N[i].v) && fabsl(N[i].v) < 1e9L && N[i].s.find_first_of("0123456789") < 2 && isdigit(N[i].s[N[i].s[0] == '-' || N[i].s[0] == '+']))
            { long n = r.GetInteger("S", k, -77); if (n != (long)N[i].v) fail(fmt("the count %s reads %ld", N[i].s.c_str(), n)); }
        }
    }
    if (begin("whole numbers"))
    {
        std::string t = "[S]\n"; std::vector<std::pair<std::string, long>> I;
        for (long v : {0L, 1L, 2L, 7L, 8L, 9L, 10L, 15L, 16L, 31L, 64L, 77L, 100L, 255L, 1000L, 4096L, 65535L, 1000000L, 2147483647L})
        { for (const char* f : {"%ld", "0x%lx", "0X%lX", "0%ld", "00%ld", "+%ld", "-%ld", "%ld.0", "%ld.", "%lde0"}) { long w = f[0] == '-' ? -v : v; I.push_back({fmt(f, v), w}); } I.push_back({fmt("%g", (double)v), atof(fmt("%g", (double)v).c_str())}); }
        for (size_t i = 0; i < I.size(); i++) t += fmt("k%zu = %s\n", i, I[i].first.c_str());
        write(file(), t); INIReader r(file());
        for (size_t i = 0; i < I.size(); i++) { long n = r.GetInteger("S", fmt("k%zu", i), -77); transition(); distinct("i" + I[i].first); if (n != I[i].second) fail("the count " + I[i].first + fmt(" reads %ld", n)); }
        for (const char* a : {"none", "k0x", ""}) if (r.GetInteger("S", a, 41) != 41 || r.GetReal("S", a, 4.5) != 4.5) fail("an absent number does not take its default");
    }
    // flags: every mixture of cases
    if (begin("flags"))
    {
        const char* W[] = {"true", "yes", "on", "1", "false", "no", "off", "0"}; std::string t = "[S]\n"; std::vector<std::pair<std::string, bool>> L;
        for (int w = 0; w < 8; w++) for (unsigned m = 0; m < (1u << strlen(W[w])); m++) { std::string s = W[w]; for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i] = toupper(s[i]); L.push_back({s, w < 4}); }
        for (size_t i = 0; i < L.size(); i++) t += fmt("k%zu = %s\n", i, L[i].first.c_str());
        t += "e =\n"; write(file(), t); INIReader r(file());
        for (size_t i = 0; i < L.size(); i++) for (bool d : {false, true}) { transition(); distinct(L[i].first); if (r.GetBoolean("S", fmt("k%zu", i), d) != L[i].second) fail("the flag " + L[i].first + " is misread"); }
        for (bool d : {false, true}) if (r.GetBoolean("S", "none", d) != d || r.GetBoolean("S", "e", d) != d) fail("an absent flag does not take its default");
    }
    // vectors: brackets x separators x every triple of numbers
    std::vector<std::string> tok = {"0", "1", "-2", "+3", ".5", "-.25", "5.", "1e3", "-2.5E-7", "4.0e+12"}; const char* O[] = {"", "[", "(", "{", "[ ", "( "}; const char* C[] = {"", "]", ")", "}", " ]", " )"}; const char* S[] = {" ", ",", ", ", " ,", " , ", "\t", "   "};
    if (T) { tok.push_back("0.000123"); tok.push_back("-1e-30"); tok.push_back("123456789.125"); tok.push_back("+.5e1"); tok.push_back("-0"); }
    for (int b = 0; b < 6; b++) for (int s = 0; s < 7; s++) for (int s2 = 0; s2 < 7; s2++)
    {
        if (!begin(fmt("vectors in \"%s%s\" with \"%s\" and \"%s\"", O[b], C[b], S[s], S[s2]))) continue;
        std::string t = "[S]\n"; size_t n = tok.size(); if (!T && s != s2) n = 5;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) t += fmt("k%zu_%zu_%zu = ", i, j, k) + O[b] + tok[i] + S[s] + tok[j] + S[s2] + tok[k] + C[b] + "\n";
        t += "e =\n"; write(file(), t); INIReader r(file()); if (r.ParseError()) { fail("malformed"); continue; }
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++)
        {
            transition(); ThreeVector v = r.GetThreeVector("S", fmt("k%zu_%zu_%zu", i, j, k), ThreeVector(8, 8, 8)); size_t x[3] = {i, j, k};
            for (int q = 0; q < 3; q++) if (!same(v[q], strtold(tok[x[q]].c_str(), 0))) { fail("the vector " + std::string(O[b]) + tok[i] + S[s] + tok[j] + S[s2] + tok[k] + C[b] + fmt(" reads [%.17g %.17g %.17g]", v[0], v[1], v[2])); break; }
        }
        for (const char* a : {"none", "e"}) { ThreeVector v = r.GetThreeVector("S", a, ThreeVector(1, -2, 3.5)); if (v[0] != 1 || v[1] != -2 || v[2] != 3.5) fail("an absent vector does not take its default"); }
    }
}
static void units()
{
    if (!begin("natural units")) return;
    for (const char* n : {"SI", "si"})
    {   // CODATA values; the Schwinger field is m^2 c^3 / (e hbar)
        UnitsSystem u(n); const double c = 299792458.0, m = 9.1093837e-31, e = 1.602176634e-19, h = 1.054571817e-34, W = m * c * c / h;
        struct { const char* n; double g, w; } L[] = {{"frequency", u.RefFrequency(), W}, {"time", u.RefTime(), 1 / W}, {"length", u.RefLength(), c / W}, {"electric field", u.RefEField(), m * m * c * c * c / (e * h)}, {"magnetic field", u.RefBField(), m * m * c * c / (e * h)},
            {"momentum", u.RefMomentum(), m * c}, {"energy", u.RefEnergy(), m * c * c}, {"Geant time", u.G4Time(), 1e-9 * W}, {"Geant length", u.G4Length(), 1e-3 * W / c}, {"Geant energy", u.G4Energy(), 1e6 * e / (m * c * c)}};
        for (auto& l : L) { transition(); distinct(l.n); if (!close(l.g, l.w, 2e-6)) fail(fmt("the unit of %s is %.10g instead of %.10g", l.n, l.g, l.w)); }
        // relations between the units are exact
        if (!close(u.RefTime() * u.RefFrequency(), 1, 1e-13) || !close(u.RefLength(), 2.99792458e8 * u.RefTime(), 1e-13) || !close(u.RefEField(), 2.99792458e8 * u.RefBField(), 1e-13) || !close(u.RefEnergy(), 2.99792458e8 * u.RefMomentum(), 1e-13)) fail("units do not fit one another");
    }
    if (!close(UnitsSystem::alpha, 7.2973525693e-3, 1e-8) || !close(UnitsSystem::pi, M_PI, 1e-10) || !close(UnitsSystem::e, M_E, 1e-10)) fail("a dimensionless constant is wrong");
}
// ---- every subset of the settings of a section ----
struct Sets { const char *sec, *name; std::function<void(const FileParser&, double*, std::string*)> get; int n; double unit; double dflt[3]; std::string sdflt; int kind; };   // kind 0 number, 1 count, 2 flag, 3 vector, 4 word
#define NUMS(sec, name, where, unit, d) {sec, name, [](const FileParser& f, double* v, std::string*) { v[0] = f.where; }, 1, unit, {d}, "", 0}
#define COUNT(sec, name, where, d) {sec, name, [](const FileParser& f, double* v, std::string*) { v[0] = f.where; }, 1, 1, {d}, "", 1}
#define FLAG(sec, name, where) {sec, name, [](const FileParser& f, double* v, std::string*) { v[0] = f.where; }, 1, 1, {0}, "", 2}
#define VEC(sec, name, where, unit, z) {sec, name, [](const FileParser& f, double* v, std::string*) { ThreeVector t = f.where; for (int i = 0; i < 3; i++) v[i] = t[i]; }, 3, unit, {0, 0, z}, "", 3}
#define WORD(sec, name, where, d) {sec, name, [](const FileParser& f, double*, std::string* s) { *s = f.where; }, 0, 1, {0}, d, 4}
static std::map<std::string, std::string> summary(std::vector<std::string>* order = 0)
{
    std::map<std::string, std::string> r; FILE* f = fopen("input-check.txt", "r"); if (!f) return r; char b[4096]; std::string sec;
    while (fgets(b, sizeof b, f)) { std::string l = b; while (l.size() && isspace((unsigned char)l.back())) l.pop_back(); size_t e = l.find('='); if (e == std::string::npos) { if (l.size()) { sec = l; if (order) order->push_back(l); } continue; } std::string k = l.substr(0, e), v = l.substr(e + 1); while (k.size() && k.back() == ' ') k.pop_back(); while (v.size() && v[0] == ' ') v.erase(0, 1); r[sec + "/" + k] = v; }
    fclose(f); return r;
}
static std::string check(const FileParser& p, const std::vector<Sets>& L, const std::vector<bool>& on, const std::vector<std::string>& val, const std::vector<std::vector<double>>& num)
{
    for (size_t i = 0; i < L.size(); i++)
    {
        double g[3] = {0, 0, 0}; std::string s; L[i].get(p, g, &s); transition();
        if (L[i].kind == 4) { std::string w = on[i] ? val[i] : L[i].sdflt; if (s != w) return std::string(L[i].sec) + "/" + L[i].name + " is \"" + s + "\" instead of \"" + w + "\""; continue; }
        for (int k = 0; k < L[i].n; k++) { double w = (on[i] ? num[i][k] : L[i].dflt[k]) / L[i].unit; if (!close(g[k], w, 1e-9)) return std::string(L[i].sec) + "/" + L[i].name + fmt(" component %d is %.12g instead of %.12g", k, g[k], w); }
    }
    return "";
}
static void values(const std::vector<Sets>& L, std::vector<std::string>& val, std::vector<std::vector<double>>& num, int v)
{
    val.clear(); num.clear();
    for (size_t i = 0; i < L.size(); i++)
    {
        double a = L[i].unit * (1.25 + 0.37 * i + 2.5 * v); std::vector<double> x; std::string s;
        if (L[i].kind == 0) { x = {a}; if (!strcmp(L[i].name, "sample_fraction")) x = {0.2 + 0.3 * (v % 3)}; s = fmt(v % 2 ? "%.15e" : "%.17g", x[0]); }
        if (L[i].kind == 1) { x = {(double)(3 + i + 11 * v)}; s = fmt("%g", x[0]); }
        if (L[i].kind == 2) { x = {v == 3 ? 0. : 1.}; s = v == 3 ? "no" : v == 1 ? "1" : v ? "Yes" : "true"; }
        if (L[i].kind == 3) { x = {a, -2 * a, 0.5 * a}; s = fmt(v % 2 ? "(%.17g, %.17g, %.17g)" : "[%.17g %.17g %.17g]", x[0], x[1], x[2]); }
        if (L[i].kind == 4) { std::string n = L[i].name; s = n == "particle_type" ? (v % 2 ? "positron" : "Photon") : n == "energy_distribution" ? (v % 2 ? "linear" : "Gaussian") : n == "radiation_model" ? (v % 2 ? "Quantum" : "classical") : n == "particle" ? (v % 2 ? "Photon" : "Positron") : n == "type" ? (v % 2 ? "px" : "Energy") : fmt("word%zu_%d", i, v); }
        val.push_back(s); num.push_back(x);
    }
}
static void subsets(const char* title, const char* head, const std::vector<Sets>& L, const std::vector<bool>& must, bool T)
{
    const size_t n = L.size(); long all = 1L << n;
    for (int v = 0; v < (T ? 4 : 2); v++) for (int part = 0; part < 8; part++)
    {
        if (!begin(fmt("%s: every subset of the settings, values %d, part %d", title, v, part))) continue;
        std::vector<std::string> val; std::vector<std::vector<double>> num; values(L, val, num, v);
        for (long m = part; m < all; m += 8)
        {
            std::vector<bool> on(n); bool ok = true; for (size_t i = 0; i < n; i++) { on[i] = m >> i & 1; if (must[i] && !on[i]) ok = false; } if (!ok) continue;
            // settings in rotated order, sections in order of first use
            std::map<std::string, std::string> sec; std::vector<std::string> so; for (size_t k = 0; k < n; k++) { size_t i = (k + m % n) % n; if (!on[i]) continue; if (!sec.count(L[i].sec)) so.push_back(L[i].sec); sec[L[i].sec] += std::string(L[i].name) + " = " + val[i] + "\n"; }
            std::string t = head; for (auto& s : so) t += "[" + s + "]\n" + sec[s]; write(file(), t); distinct(fmt("%s%ld", title, m));
            FileParser p(file()); std::string e = check(p, L, on, val, num); if (e.size()) { fail(e + "\n" + t); break; }
        }
    }
}
static const double WT = TIME, WL = LENGTH, WE = ENERGY;
static std::string general() { return "[General]\nunits = SI\ntime_step = " + num(1e4 * WT) + "\ntime_end = " + num(1e5 * WT) + "\n"; }
static void sections(bool T)
{
    std::vector<Sets> G = {NUMS("General", "time_step", GetGeneral().timeStep, WT, 0), NUMS("General", "time_end", GetGeneral().timeEnd, WT, 0), WORD("General", "file_name", GetGeneral().fileName, "out.h5"), FLAG("General", "tracking", GetGeneral().tracking)};
    subsets("general", "[General]\nunits = SI\n", G, {true, true, false, false}, T);
    std::vector<Sets> st = {VEC("Field", "e_field", GetField().E, EF, 0), VEC("Field", "b_field", GetField().B, BF, 0)}; subsets("static field", (general() + "[Field]\nfield_type = static\n").c_str(), st, {false, false}, T);
    std::vector<Sets> pl = {NUMS("Field", "e_max", GetField().MaxE, EF, 0), NUMS("Field", "wavelength", GetField().Wavelength, WL, 1), VEC("Field", "direction", GetField().Direction, 1, 1), NUMS("Field", "polerisation", GetField().Polerisation, 1, 0)}; subsets("plane field", (general() + "[Field]\nfield_type = plane\n").c_str(), pl, std::vector<bool>(4, false), T);
    std::vector<Sets> ga = {NUMS("Field", "e_max", GetField().MaxE, EF, 0), NUMS("Field", "wavelength", GetField().Wavelength, WL, 1), NUMS("Field", "duration", GetField().Duration, WT, 1), NUMS("Field", "waist", GetField().Waist, WL, 1), NUMS("Field", "polerisation", GetField().Polerisation, 1, 0), VEC("Field", "start", GetField().Start, WL, 0), VEC("Field", "focus", GetField().Focus, WL, 0)};
    for (const char* f : {"gaussian", "focusing"}) subsets((std::string(f) + " field").c_str(), (general() + "[Field]\nfield_type = " + f + "\n").c_str(), ga, std::vector<bool>(7, false), T);
    std::vector<Sets> ph = {WORD("Physics", "radiation_model", GetPhysics().Physics, ""), NUMS("Physics", "min_energy", GetPhysics().MinEnergy, WE, 0), NUMS("Physics", "sample_fraction", GetPhysics().SampleFraction, 1, 1), FLAG("Physics", "pair_production", GetPhysics().PairProduction)}; subsets("physics", general().c_str(), ph, std::vector<bool>(4, false), T);
#define P0 GetParticle().at(0)
    std::vector<Sets> pa = {COUNT("Particle1", "number_particles", P0.Number, 1), WORD("Particle1", "name", P0.Name, "Particle1"), WORD("Particle1", "particle_type", P0.Type, "Electron"), WORD("Particle1", "energy_distribution", P0.Distro, "mono"), VEC("Particle1", "position", P0.Position, WL, 0), VEC("Particle1", "direction", P0.Direction, 1, 1),
        NUMS("Particle1", "energy_mean", P0.Energy1, WE, 0), NUMS("Particle1", "energy_sig", P0.Energy2, WE, 0), NUMS("Particle1", "radius", P0.Radius, WL, 0), NUMS("Particle1", "divergence", P0.Divergence, 1, 0), NUMS("Particle1", "duration", P0.Duration, WT, 0), FLAG("Particle1", "output", P0.Output)};
    subsets("particle", (general() + "[Particle1]\nunknown = 1\n").c_str(), pa, std::vector<bool>(12, false), T);
#define H0 GetHistograms().at(0)
    std::vector<Sets> hi = {WORD("Histogram1", "name", H0.Name, "Histogram1"), WORD("Histogram1", "particle", H0.Particle, ""), WORD("Histogram1", "type", H0.Type, ""), NUMS("Histogram1", "time", H0.Time, WT, 0), COUNT("Histogram1", "bins", H0.Bins, 1), NUMS("Histogram1", "min_bin", H0.MinBin, 1, 0), NUMS("Histogram1", "max_bin", H0.MaxBin, 1, 1)};
    subsets("histogram", general().c_str(), hi, {false, true, true, false, true, false, false}, T);
}
// several sources and histograms, in any order of the file: each takes its own settings
static void numbered(bool T)
{
    for (int n = 0; n <= (T ? 24 : 12); n++) for (int rot = 0; rot < (n < 2 ? 1 : n < 4 ? n : 4); rot++) for (int h = 0; h < 2; h++)
    {
        if (!begin(fmt("%d %s in order %d", n, h ? "histograms" : "sources", rot))) continue;
        std::string t = general(); std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back((rot == 3 ? n - 1 - i : (i * (rot == 2 && n % 2 ? 2 : 1) + rot) % n));
        for (int k : ord) t += h ? fmt("[Histogram%d]\nparticle = Electron\ntype = x\nbins = %d\nmin_bin = %d\n", k + 1, k + 5, -k) : fmt("[Particle%d]\nnumber_particles = %d\nradius = %.17g\nname = beam%d\n", k + 1, k + 2, (k + 1) * WL, k);
        if (n) t += h ? fmt("[Histogram%d]\nparticle = Electron\ntype = x\nbins = 2\n", n + 2) : fmt("[Particle%d]\nnumber_particles = 1\n", n + 2);   // behind a gap
        write(file(), t); FileParser p(file()); distinct(t); transition(n);
        if (p.GetParticle().size() != (size_t)(h ? 0 : n) || p.GetHistograms().size() != (size_t)(h ? n : 0)) { fail("wrong number of sources or histograms\n" + t); continue; }
        for (int k = 0; k < n; k++) if (h ? (p.GetHistograms()[k].Bins != (unsigned)(k + 5) || p.GetHistograms()[k].MinBin != -k || p.GetHistograms()[k].Name != fmt("Histogram%d", k + 1)) : (p.GetParticle()[k].Number != (unsigned)(k + 2) || !close(p.GetParticle()[k].Radius, k + 1) || p.GetParticle()[k].Name != fmt("beam%d", k))) { fail(fmt("number %d has the settings of another\n", k + 1) + t); break; }
    }
}
// the summary of the input the program writes
static void summaries()
{
    for (const char* f : {"static", "plane", "gaussian", "focusing"}) for (int v = 0; v < 6; v++)
    {
        if (!begin(fmt("summary file, %s field, %d", f, v))) continue;
        Cfg c; c.field = f; c.dt = 1.5e4 + v; c.end = 1.25e5 + 10 * v; c.track = v & 1; c.E = V(1e-3, -2e-3 * (v + 1), 3e-3); c.B = V(-4e-3, 5e-3, 6e-3); c.maxE = 7e-3 + 1e-3 * v; c.wl = 8e5; c.tau = 9e6 + v; c.waist = 1.1e6; c.pol = 0.3 + v; c.dir = V(1, 2, 3 + v); c.start = V(1e5, 2e5, 3e5); c.focus = V(4e5, -5e5, 6e5 + v);
        c.model = v % 3 == 0 ? "Quantum" : v % 3 == 1 ? "Classical" : "Semiclassical"; c.eMin = 3.5 + v; c.frac = 0.125 * (v + 1); c.pairs = v & 2;
        for (int k = 0; k < v % 3; k++) { Source s; s.n = 3 + k; s.type = k ? "Positron" : "Photon"; s.e1 = 55.5 + k; s.e2 = 0.5; s.radius = 12 + k; s.div = 0.01; s.dur = 33; s.pos = V(1, 2, 3 + k); s.dir = V(3, 2, 1 + k); s.output = k; s.name = fmt("n%d", k); c.src.push_back(s); }
        for (int k = 0; k < v % 4; k++) { Histo h; h.name = fmt("h%d", k); h.particle = k ? "Photon" : "Electron"; h.time = 5e4 * (k + 1); h.bins = 7 + k; h.lo = -1.5 - k; h.hi = 3.5; c.hist.push_back(h); }
        write(file(), deck(c)); unlink("input-check.txt"); { FileParser p(file(), true); } auto m = summary(); transition(); distinct(deck(c));
        auto vec = [](V x) { return fmt("[%g %g %g]", x[0], x[1], x[2]); }; std::map<std::string, std::string> w;
        std::string G = "General input parameters/", F = "Field input parameters/", P = "Physics parameters/";
        w[G + "Units"] = "SI"; w[G + "Time step"] = fmt("%g", c.dt); w[G + "Time end"] = fmt("%g", c.end); w[G + "Output file"] = "out.h5"; w[G + "Tracking"] = fmt("%d", c.track); w[F + "Field type"] = f;
        if (!strcmp(f, "static")) { w[F + "E strength"] = vec(c.E); w[F + "B strength"] = vec(c.B); }
        else { w[F + "Wavelength"] = fmt("%g", c.wl); if (!strcmp(f, "plane")) { w[F + "Direction"] = vec(c.dir); w[F + "Polerisation"] = fmt("%g", c.pol); } else { w[F + "Max E"] = fmt("%g", c.maxE); w[F + "Duration"] = fmt("%g", c.tau); w[F + "Waist"] = fmt("%g", c.waist); w[F + "Start"] = vec(c.start); w[F + "Focus"] = vec(c.focus); } }
        w[P + "Physics module used"] = c.model; w[P + "Pair production"] = fmt("%d", c.pairs); w[P + "Sample fraction"] = fmt("%g", c.frac); w[P + "Minimum photon energy"] = fmt("%g", c.eMin);
        for (size_t k = 0; k < c.src.size(); k++) { auto& s = c.src[k]; std::string q = fmt("Particle %zu/", k + 1); w[q + "Name"] = s.name; w[q + "Number"] = fmt("%d", s.n); w[q + "Type"] = s.type; w[q + "Energy1"] = fmt("%g", s.e1); w[q + "Energy2"] = fmt("%g", s.e2); w[q + "Radius"] = fmt("%g", s.radius); w[q + "Divergence"] = fmt("%g", s.div); w[q + "Duration"] = fmt("%g", s.dur); w[q + "Output"] = fmt("%d", s.output); w[q + "Direction"] = vec(s.dir); w[q + "Position"] = vec(s.pos); }
        for (size_t k = 0; k < c.hist.size(); k++) { auto& h = c.hist[k]; std::string q = fmt("Histogram %zu/", k + 1); w[q + "Name"] = h.name; w[q + "Particle"] = h.particle; w[q + "Time"] = fmt("%g", h.time); w[q + "Bins"] = fmt("%d", h.bins); w[q + "Min Bin"] = fmt("%g", h.lo); w[q + "Max Bin"] = fmt("%g", h.hi); }
        for (auto& x : w)
        {
            std::string g = m.count(x.first) ? m[x.first] : "(nothing)"; bool ok = g == x.second;
            if (!ok) { const char *a = g.c_str(), *b = x.second.c_str(); ok = true; while (ok && (*a || *b)) { if (*a == *b && !isdigit((unsigned char)*a) && *a != '-' && *a != '.') { a++; b++; continue; } char *ea, *eb; double da = strtod(a, &ea), db = strtod(b, &eb); if (ea == a || eb == b || !close(da, db, 2e-5)) ok = false; a = ea; b = eb; } }
            if (!ok) { fail("the summary gives " + x.first + " = " + g + " instead of " + x.second); break; }
        }
    }
}
// ---- whole runs in which one setting has another value ----
static void runs(bool T)
{
    auto base = [](const std::string& f) { Cfg c; c.field = f; c.E = V(1e-3, 3e-4, 1e-4); c.B = V(1e-4, -2e-4, 3e-5); c.maxE = 1.5e-3; c.wl = 1.5e6; c.pol = 0.4; c.tau = 3e6; c.waist = 6e6; c.start = V(1e5, -2e5, 9e5); c.focus = V(3e4, 1e4, -2e4); c.dir = V(0.1, -0.2, -1); c.dt = 3e4; c.end = 1.3e5; c.model = "Semiclassical"; Source s; s.e1 = 1500; s.pos = V(1e4, -2e4, -1e5); s.dir = V(0.1, 0.2, 1); s.radius = 2e4; s.dur = 3e4; s.div = 0.05; s.e2 = 70; s.distro = "gaussian"; c.src.push_back(s); return c; };
    struct Mod { const char* n; std::function<void(Cfg&, double)> f; };
    std::vector<Mod> mods = {{"time_step", [](Cfg& c, double q) { c.dt *= q; }}, {"time_end", [](Cfg& c, double q) { c.end *= q; }}, {"e_field", [](Cfg& c, double q) { c.E = V(1e-3 * q, 2e-3, -1e-3 * q); }}, {"b_field", [](Cfg& c, double q) { c.B = V(-1e-3 * q, 2e-3, 1e-3 * q); }}, {"e_max", [](Cfg& c, double q) { c.maxE *= q; }},
        {"wavelength", [](Cfg& c, double q) { c.wl *= q; }}, {"duration", [](Cfg& c, double q) { c.tau *= q / 3; }}, {"waist", [](Cfg& c, double q) { c.waist *= q / 4; }}, {"polarisation", [](Cfg& c, double q) { c.pol *= q; }}, {"direction", [](Cfg& c, double q) { c.dir = V(q, 0.3, -0.5); }}, {"start", [](Cfg& c, double q) { c.start = q * V(2e5, 1e5, 7e5); }}, {"focus", [](Cfg& c, double q) { c.focus = q * V(-1e5, 5e4, -5e4); }},
        {"min_energy", [](Cfg& c, double q) { c.eMin = 20 * q; }}, {"sample_fraction", [](Cfg& c, double q) { c.frac = 0.3 * q; }}, {"energy_mean", [](Cfg& c, double q) { c.src[0].e1 *= q; }}, {"energy_sig", [](Cfg& c, double q) { c.src[0].e2 *= q; }}, {"radius", [](Cfg& c, double q) { c.src[0].radius *= q; }}, {"particle duration", [](Cfg& c, double q) { c.src[0].dur *= q; }}, {"divergence", [](Cfg& c, double q) { c.src[0].div *= q; }},
        {"position", [](Cfg& c, double q) { c.src[0].pos = q * V(-3e4, 5e4, 2e4); }}, {"particle direction", [](Cfg& c, double q) { c.src[0].dir = V(0.3 * q, -0.2, 1); }}, {"number_particles", [](Cfg& c, double q) { c.src[0].n = (int)(q * 4); }}, {"tracking", [](Cfg& c, double) { c.track = true; }}, {"no output", [](Cfg& c, double) { c.src[0].output = false; }}};
    for (const char* f : {"static", "plane", "gaussian", "focusing"}) for (auto& m : mods) for (double q : T ? std::vector<double>{0.4, 0.7, 1.6, 2.2} : std::vector<double>{0.7, 1.6})
    {
        if (!begin(fmt("run in a %s field, other %s (%g)", f, m.n, q))) continue;
        Cfg c = base(f); m.f(c, q); const double u = 0.25, z = 0.6; Out o; try { o = simulate(c, primaries(c, u, z), u); } catch (ref::Beyond&) { count("beyond_the_tables"); continue; }
        distinct(fmt("%s%s%g", f, m.n, q)); rng_const(u, z); H5Map h; std::string e = cli(c, h); if (e.empty()) e = compare(c, h, o); transition(o.pushes); if (e.size()) fail("QEDCASC: " + e + "\n" + deck(c));
        if ((low(f) == "gaussian" || low(f) == "focusing") && c.eMin == 0 && !c.track && c.src[0].output) { rng_const(u, z); PyRes r = pyRun(c, c.src[0].n); e = pyCompare(c, r, o); if (e.size()) fail("QEDCascPy: " + e + "\n" + deck(c)); }
    }
    for (const char* n : {"", "file_name = a b.h5\n", "file_name = results.dat\n", "file_name = sub/x.h5\n"})
    {
        if (!begin(std::string("name of the output file: ") + n)) continue;
        mkdir("sub", 0755); std::string d = run::tmp() + "/deck.ini", t = deck(base("static")); size_t a = t.find("file_name"), b = t.find('\n', a); t = t.substr(0, a) + n + t.substr(b + 1); write(d, t);
        std::string w = *n ? std::string(n + 12, strlen(n) - 13) : "out.h5"; unlink(w.c_str()); char a0[] = "QEDCASC", *av[] = {a0, (char*)d.c_str(), NULL}; rng_const(0.25, 0.6); int s = qedcasc_main(2, av); H5Map m; transition();
        if (s) fail(fmt("the program ends with status %d", s)); else { std::string e = h5read(w, m); if (e.empty() && !m.count("Particles/ParticleSource/Primary")) e = "no primaries"; if (e.size()) fail("output file " + w + ": " + e); } unlink(w.c_str());
    }
}
int main()
{
    tune(); init(); pyInit(); if (chdir(run::tmp().c_str())) return 1; bool T = thorough();
    notations(T); units(); sections(T); numbered(T); summaries(); runs(T);
    return finish();
}
