// C11: unusable input is refused with a message and a non-zero status, usable
// input runs: every single defect and every pair of defects on every base
// deck, every pair of valid variations, all short command lines, and every
// missing table. Every run is the real program in a process of its own.
#include "runmap.hh"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace vp; using namespace run;

typedef std::vector<std::pair<std::string, std::string>> KV;
struct Deck
{
    std::vector<std::pair<std::string, KV>> s; std::string tail;
    KV* sec(const std::string& n) { for (auto& x : s) if (x.first == n) return &x.second; return NULL; }
    void set(const std::string& n, const std::string& k, const std::string& v) { KV* p = sec(n); if (!p) { s.push_back({n, {}}); p = &s.back().second; } for (auto& x : *p) if (x.first == k) { x.second = v; return; } p->push_back({k, v}); }
    void drop(const std::string& n, const std::string& k) { KV* p = sec(n); if (!p) return; for (size_t i = 0; i < p->size(); i++) if ((*p)[i].first == k) { p->erase(p->begin() + i); return; } }
    void dropSec(const std::string& n) { for (size_t i = 0; i < s.size(); i++) if (s[i].first == n) { s.erase(s.begin() + i); return; } }
    std::string text(int form) const
    {
        std::string r, nl = form == 3 ? "\r\n" : "\n"; std::vector<std::pair<std::string, KV>> o = s; if (form == 1) std::reverse(o.begin(), o.end());
        for (auto& x : o) { std::string n = x.first; if (form == 2) for (char& c : n) c = toupper(c); r += "[" + n + "]" + nl; for (auto& k : x.second) { std::string a = k.first; if (form == 2) for (char& c : a) c = toupper(c); r += (form == 3 ? a + ":" + k.second : a + " = " + k.second) + nl; } }
        return r + tail;
    }
};
static const char* FIELD[] = {"static", "plane", "gaussian", "focusing"};
static Deck base(int f)
{
    Cfg c; c.dt = 5e3; c.end = 1.4e4; c.field = FIELD[f]; c.E = V(1e-4, 0, 0); c.maxE = 1e-4; c.wl = 1e5; c.tau = 1e5; c.waist = 3e5; c.start = V(0, 0, 1e5); Source s; s.n = 2; s.e1 = 1000; c.src.push_back(s); Histo h; h.hi = 2000; c.hist.push_back(h);
    Deck d; std::string t = deck(c, "out.h5"), cur; size_t p = 0;
    while (p < t.size()) { size_t e = t.find('\n', p); std::string l = t.substr(p, e - p); p = e + 1; if (l[0] == '[') d.s.push_back({l.substr(1, l.size() - 2), {}}); else { size_t q = l.find(" = "); d.s.back().second.push_back({l.substr(0, q), l.substr(q + 3)}); } }
    return d;
}
// A change of a deck: key "" stands for the whole section, value "\1" for removal
struct Mod { std::string name, sec, key, val; int fields = 15; };
static void apply(Deck& d, const Mod& m)
{
    if (m.sec.empty()) d.tail += m.val;
    else if (m.key.empty()) { if (m.val == "\1") d.dropSec(m.sec); else if (!d.sec(m.sec)) d.s.push_back({m.sec, {}}); }
    else if (m.val == "\1") d.drop(m.sec, m.key); else d.set(m.sec, m.key, m.val);
}
static bool gap(const Mod& a, const Mod& b) { return a.key.empty() && a.val == "\1" && !a.sec.empty() && b.sec.size() == a.sec.size() && !b.sec.compare(0, a.sec.size() - 1, a.sec, 0, a.sec.size() - 1); }   // sections are numbered without gaps
static bool clash(const Mod& a, const Mod& b) { return gap(a, b) || gap(b, a) || a.sec == b.sec && (a.key == b.key || a.key.empty() || b.key.empty()); }
static std::vector<Mod> mods(std::string sec, std::string key, std::vector<std::string> vals, int fields = 15)
{ std::vector<Mod> r; for (auto& v : vals) r.push_back({sec + (key.empty() ? "" : "." + key) + (v == "\1" ? " removed" : v.empty() && key.empty() ? " added" : " = \"" + v + "\""), sec, key, v, fields}); return r; }
static void add(std::vector<Mod>& a, std::vector<Mod> b) { a.insert(a.end(), b.begin(), b.end()); }
static std::vector<Mod> defects(bool T)
{
    std::vector<Mod> r; const std::string X = "\1"; std::vector<std::string> vec = {"[]", "1", "[1 2]", "1, 2", "[1 2 3 4]", "1,2,3,4,5,6"}; if (T) { vec.push_back("[a b]"); vec.push_back("(1)"); vec.push_back("1 2 3 0"); }
    add(r, mods("General", "", {X})); add(r, mods("General", "units", {X, "", "cgs", "None", "S", "SIS"})); add(r, mods("General", "time_step", {X, "", "0", "-1e-17", "nan", "inf", "-0.0", "1e-400"})); add(r, mods("General", "time_end", {X, "", "nan", "inf", "1e300"}));
    add(r, mods("Field", "", {X})); add(r, mods("Field", "field_type", {X, "", "laser", "statics", "planegaussian"}));
    add(r, mods("Field", "e_field", vec, 1)); add(r, mods("Field", "b_field", vec, 1)); add(r, mods("Field", "direction", vec, 2)); add(r, mods("Field", "start", vec, 12)); add(r, mods("Field", "focus", vec, 12));
    add(r, mods("Field", "wavelength", {"0", "-1e-6", "nan"}, 14)); add(r, mods("Field", "duration", {"0", "-1e-15", "nan"}, 12)); add(r, mods("Field", "waist", {"0", "-1e-6", "nan"}, 12));
    add(r, mods("Physics", "", {X})); add(r, mods("Physics", "radiation_model", {X, "", "None", "quantumm", "QED"})); add(r, mods("Physics", "sample_fraction", {"-0.1", "1.01", "nan", "inf"}));
    add(r, mods("Particle1", "number_particles", {"-1", "-1000000"})); add(r, mods("Particle1", "particle_type", {"proton", "e", "photons"})); add(r, mods("Particle1", "position", vec)); add(r, mods("Particle1", "direction", vec));
    add(r, mods("Particle2", "particle_type", {"muon"})); add(r, mods("Particle2", "number_particles", {"-2"}));
    add(r, mods("Histogram1", "particle", {X, "", "proton", "Electrons"})); add(r, mods("Histogram1", "type", {X, "", "mass", "energies", "p"})); add(r, mods("Histogram1", "bins", {X, "0", "1", "-5", "1e0"})); add(r, mods("Histogram2", "particle", {"Neutrino"}));
    for (const char* t : {"[General\n", "text without any sign\n", "[Particle1\n", "time_step\n"}) r.push_back({std::string("line \"") + std::string(t, strlen(t) - 1) + "\"", "", "", t});
    return r;
}
static std::vector<Mod> variations(bool T)
{
    std::vector<Mod> r; const std::string X = "\1";
    add(r, mods("General", "units", {"si"})); add(r, mods("General", "time_end", {"0", "-1e-17"})); add(r, mods("General", "tracking", {X, "yes", "1", "maybe"})); add(r, mods("General", "file_name", {"sub/name with blanks.h5", "x"})); add(r, mods("General", "comment", {"anything"}));
    add(r, mods("Field", "e_field", {X, "", "0 0 0", "(1e12, -2e12, 3e12)"}, 1)); add(r, mods("Field", "b_field", {X, "100,0,0"}, 1)); add(r, mods("Field", "direction", {X, "0 0 -1", "1 1 1", "0 0 0"}, 2));
    add(r, mods("Field", "e_max", {X, "0", "-1e13"}, 14)); add(r, mods("Field", "polerisation", {X, "1.6"}, 14)); add(r, mods("Field", "start", {X, "0 0 -1e-5", "1e-5 1e-5 0"}, 12)); add(r, mods("Field", "wavelength", {X}, 6)); add(r, mods("Field", "waist", {X}, 12)); add(r, mods("Field", "duration", {X}, 12));
    add(r, mods("Physics", "radiation_model", {"quantum", "Classical", "classical", "Semiclassical", "semiclassical"})); add(r, mods("Physics", "pair_production", {X, "true"})); add(r, mods("Physics", "sample_fraction", {X, "0", "0.5"})); add(r, mods("Physics", "min_energy", {X, "1e-13"}));
    add(r, mods("Particle1", "", {X})); add(r, mods("Particle1", "number_particles", {X, "0", "1e0", "03"})); add(r, mods("Particle1", "particle_type", {X, "Positron", "photon"})); add(r, mods("Particle1", "energy_distribution", {X, "gaussian", "linear"})); add(r, mods("Particle1", "energy_mean", {X, "0", "1e-14"}));
    add(r, mods("Particle1", "direction", {X, "0 0 -1", "0 0 0", "1,1,0"})); add(r, mods("Particle1", "radius", {X, "1e-6"})); add(r, mods("Particle1", "output", {X, "false"})); add(r, mods("Particle2", "", {""})); add(r, mods("Particle2", "particle_type", {"Photon"})); add(r, mods("Particle2", "output", {"on"}));
    add(r, mods("Histogram1", "", {X})); add(r, mods("Histogram1", "particle", {"photon", "Positron"})); add(r, mods("Histogram1", "type", {"x", "PZ", "Energy"})); add(r, mods("Histogram1", "bins", {"2", "1e3", "007"})); add(r, mods("Histogram1", "time", {X, "1", "-1"})); add(r, mods("Histogram1", "max_bin", {X, "-5"})); add(r, mods("Histogram1", "name", {"my histogram"}));
    add(r, mods("Histogram3", "", {""})); add(r, mods("Notes", "text", {"of no meaning"}));
    if (T) { add(r, mods("Physics", "min_energy", {"0", "1e-16", "1"})); add(r, mods("Particle1", "divergence", {X, "0.1"})); add(r, mods("Particle1", "duration", {X, "1e-15"})); add(r, mods("Particle1", "name", {"beam"})); add(r, mods("Histogram1", "min_bin", {X, "10", "1e9"})); }
    r.push_back({"a comment at the end", "", "", "; no setting\n# nor here\n"});
    return r;
}

struct Got { int status; std::string text; };   // status as of wait, -2 on time-out
static std::string dir;
static Got program(const std::vector<std::string>& args, std::function<void()> before = [] {})
{
    std::string m = dir + "/../msg";
    int w = forked([&] {
        int fd = open(m.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); close(fd);
        if (chdir(dir.c_str())) _exit(99);
        before(); std::vector<char*> av; std::string a0 = "QEDCASC"; av.push_back((char*)a0.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(NULL);
        int s = qedcasc_main(av.size() - 1, av.data()); fflush(0); std::exit(s); return 0; }, 20);
    Got g; g.status = w; FILE* f = fopen(m.c_str(), "rb"); if (f) { char b[4096]; size_t n = fread(b, 1, sizeof b, f); g.text.assign(b, n); fclose(f); }
    return g;
}
static std::string refused(const Got& g)
{
    if (g.status == -2) return "the program does not end";
    if (!WIFEXITED(g.status)) return fmt("the program ends by signal %d", WTERMSIG(g.status));
    if (WEXITSTATUS(g.status) == 0) return "the program reports success";
    if (g.text.find_first_not_of(" \n\t\r") == std::string::npos) return "the program gives no message";
    return "";
}
static std::string usable(const Got& g, const std::string& file)
{
    if (g.status == -2) return "the program does not end";
    if (!WIFEXITED(g.status)) return fmt("the program ends by signal %d", WTERMSIG(g.status));
    if (WEXITSTATUS(g.status)) return fmt("the program ends with status %d: ", WEXITSTATUS(g.status)) + g.text.substr(0, 300);
    H5Map m; std::string e = h5read(dir + "/" + file, m); unlink((dir + "/" + file).c_str()); if (e.size()) return e;
    for (auto& k : m) for (double x : k.second.v) if (!std::isfinite(x)) return k.first + " holds an undefined number";
    distinct(h5hash(m)); return "";
}
static std::string fileOf(const Deck& d) { std::string f = "out.h5"; for (auto& s : d.s) if (s.first == "General") for (auto& k : s.second) if (k.first == "file_name") f = k.second; return f; }
static void bad(const std::string& key, const Deck& d, int form) { (void)key; write(dir + "/d.ini", d.text(form)); Got g = program({"d.ini"}); distinct(g.text); transition(); std::string e = refused(g); if (e.size()) fail(e + "\n" + d.text(form)); }
static void good(const Deck& d, int form) { write(dir + "/d.ini", d.text(form)); Got g = program({"d.ini"}); transition(); std::string e = usable(g, fileOf(d)); if (e.size()) fail(e + "\n" + d.text(form)); }

static void decks(bool T)
{
    std::vector<Mod> D = defects(T), W = variations(T);
    for (int f = 0; f < 4; f++)
    {
        std::vector<const Mod*> d, w; for (auto& m : D) if (m.fields >> f & 1) d.push_back(&m); for (auto& m : W) if (m.fields >> f & 1) w.push_back(&m);
        std::string B = std::string(FIELD[f]) + " deck";
        for (int form = 0; form < 4; form++)
        {
            const char* F[] = {"", ", sections in reverse order", ", capital letters", ", colons and CR LF"};
            if (begin(B + F[form])) good(base(f), form);
            for (auto m : d) if ((m->sec.size() || form == 0) && begin(B + F[form] + ": " + m->name)) { Deck x = base(f); apply(x, *m); bad("", x, form); }
            for (auto m : w) if ((m->sec.size() || form == 0) && begin(B + F[form] + ": " + m->name)) { Deck x = base(f); apply(x, *m); good(x, form); }
        }
        // a defect is not masked by another setting, defective or not
        for (size_t i = 0; i < d.size(); i++) for (size_t j = i + 1; j < d.size(); j++)
        { if (clash(*d[i], *d[j]) || (!T && (i + j) % 4 != (size_t)f)) continue; if (!begin(B + ": " + d[i]->name + " and " + d[j]->name)) continue; Deck x = base(f); apply(x, *d[i]); apply(x, *d[j]); bad("", x, 0); }
        for (auto a : d) for (auto b : w)
        { if (clash(*a, *b) || (!T && ((a - D.data()) + (b - W.data())) % 4 != f)) continue; if (!begin(B + ": " + a->name + " with " + b->name)) continue; Deck x = base(f); apply(x, *b); apply(x, *a); bad("", x, 0); }
        for (size_t i = 0; i < w.size(); i++) for (size_t j = i + 1; j < w.size(); j++)
        { if (clash(*w[i], *w[j]) || (!T && (i + j) % 2 != (size_t)f % 2)) continue; if (!begin(B + ": " + w[i]->name + " and " + w[j]->name)) continue; Deck x = base(f); apply(x, *w[i]); apply(x, *w[j]); good(x, 0); }
    }
}
static void commands(bool T)
{
    // no file of these names exists
    std::string A = T ? ".iniIx/-h " : ".inIx-h"; std::vector<std::string> L = {""}; size_t from = 0;
    for (int n = 1; n <= 4; n++) { size_t to = L.size(); for (size_t i = from; i < to; i++) for (char c : std::string(A)) L.push_back(L[i] + c); from = to; }
    for (size_t i = 0; i < L.size(); i += 64)
    {
        if (!begin(fmt("one argument, strings from \"%s\"", L[i].c_str()))) continue;
        for (size_t j = i; j < L.size() && j < i + 64; j++) { transition(); Got g = program({L[j]}); distinct(g.text); std::string e = refused(g); if (e.size() && L[j] != "-h") fail("argument \"" + L[j] + "\": " + e); if (L[j] == "-h" && (g.status == -2 || !WIFEXITED(g.status))) fail("-h ends the program irregularly"); }
    }
    std::string ok = base(0).text(0);
    std::vector<std::string> args = {"d.ini", "-h", "none.ini", "", "d.txt", ".ini"};
    for (int n = 0; n <= 3; n++)
    {
        if (n == 1) continue; std::vector<int> k(n, 0);
        do
        {
            std::vector<std::string> a; std::string s; for (int i : k) { a.push_back(args[i]); s += " \"" + args[i] + "\""; }
            if (begin(fmt("%d arguments:", n) + s)) { write(dir + "/d.ini", ok); transition(); Got g = program(a); distinct(g.text); std::string e = refused(g); if (e.size()) fail(e); }
            int i = n - 1; while (i >= 0 && ++k[i] == (int)args.size()) k[i--] = 0; if (i < 0) break;
        } while (n);
    }
    struct { const char* name; int good; } N[] = {{"d.ini", 1}, {"./d.ini", 1}, {".ini", 1}, {"a.b.ini", 1}, {"with blank.ini", 1}, {"-h.ini", 1}, {"sub/d.ini", 1}, {"d.txt", 0}, {"d", 0}, {"ini", 0}, {"dini", 0}, {"d.in", 0}, {"d.ini.bak", 0}, {"d.inix", 0}, {"d.ini ", 0}, {"d.h5", 0}};
    for (auto& n : N) if (begin(fmt("a deck named \"%s\"", n.name)))
    { write(dir + "/" + n.name, ok); transition(); Got g = program({n.name}); std::string e = n.good ? usable(g, "out.h5") : refused(g); if (e.size()) fail(e); unlink((dir + "/" + n.name).c_str()); }
    struct { const char* what; std::string text; } X[] = {{"an empty file", ""}, {"blanks", " \n\t\n\n"}, {"comments", "; a\n# b\n"}, {"a section only", "[General]\n"}, {"one byte", "x"}, {"null bytes", std::string(300, '\0')}, {"bytes 128 to 255", ""}, {"a long line", std::string(5000, 'a')}, {"an endless section", "[" + std::string(5000, 'b')}, {"a long setting", "[General]\nunits = " + std::string(5000, '1')}, {"only line ends", std::string(500, '\r')}};
    for (int i = 128; i < 256; i++) X[6].text += char(i);
    for (auto& x : X) if (begin(std::string("a file of ") + x.what)) { write(dir + "/d.ini", x.text); transition(); Got g = program({"d.ini"}); distinct(g.text); std::string e = refused(g); if (e.size()) fail(e); }
    // a deck that is cut off anywhere is refused or runs, but never crashes
    for (int f = 0; f < 4; f++)
    {
        std::string t = base(f).text(0);
        for (size_t n = 0; n < t.size(); n++)
        {
            if (!begin(fmt("%s deck cut after %zu bytes", FIELD[f], n))) continue;
            write(dir + "/d.ini", t.substr(0, n)); transition(); Got g = program({"d.ini"}); distinct(g.text);
            std::string e = WIFEXITED(g.status) && g.status != -2 && WEXITSTATUS(g.status) == 0 ? usable(g, "out.h5") : refused(g); if (e.size()) fail(e);
        }
    }
    if (begin("a directory")) { mkdir((dir + "/e.ini").c_str(), 0700); Got g = program({"e.ini"}); std::string e = refused(g); if (e.size()) fail(e); rmdir((dir + "/e.ini").c_str()); }
    for (const char* o : {"", "nowhere/out.h5", "sub", "/dev/full"})
    { if (!begin(fmt("output to \"%s\"", o))) continue; Deck d = base(0); d.set("General", "file_name", o); if (!*o) d.drop("General", "file_name"); if (*o) bad("", d, 0); else good(d, 0); }
}
static void tables()
{
    const char* T = getenv("QED_TABLES_PATH"); if (!T) return; std::string P = T; std::vector<std::string> names;
    DIR* h = opendir(T); if (h) { while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n.size() > 6 && n.substr(n.size() - 6) == ".table") names.push_back(n); } closedir(h); } std::sort(names.begin(), names.end());
    std::string md = dir + "/tables"; const char* M[] = {"Quantum", "Classical", "Semiclassical"}; const char* S[] = {"electron", "photon"};
    for (int m = 0; m < 3; m++) for (int pr = 0; pr < 2; pr++) for (int s = 0; s < 2; s++)
    {
        Deck d = base(0); d.set("Physics", "radiation_model", M[m]); d.set("Physics", "pair_production", pr ? "true" : "false"); d.set("Particle1", "particle_type", S[s]); d.set("Field", "e_field", "[1e16 0 0]"); if (s) { d.set("Particle1", "energy_mean", "3e-10"); d.set("Field", "e_field", "[3e15 0 0]"); } std::string what = std::string(M[m]) + (pr ? ", pair production, " : ", no pair production, ") + S[s]; std::string text = d.text(0);
        if (begin(what + ": tables path not set")) { write(dir + "/d.ini", text); transition(); Got g = program({"d.ini"}, [] { unsetenv("QED_TABLES_PATH"); }); distinct(g.text); std::string e = refused(g); if (e.size()) fail(e); }
        for (std::string p : {std::string(""), dir + "/nowhere", dir + "/empty"}) if (begin(what + ": tables at \"" + p.substr(std::min(p.size(), dir.size())) + "\"")) { mkdir((dir + "/empty").c_str(), 0700); write(dir + "/d.ini", text); transition(); Got g = program({"d.ini"}, [p] { setenv("QED_TABLES_PATH", p.c_str(), 1); }); distinct(g.text); std::string e = refused(g); if (e.size()) fail(e); }
        // without one of the tables the run is refused or does not need it
        for (auto& n : names)
        {
            if (!begin(what + ": without " + n)) continue;
            write(dir + "/d.ini", text); transition(2); Got g0 = program({"d.ini"}); H5Map a, b; std::string e = usable(g0, "out.h5"); if (e.size()) { fail("with all tables: " + e); continue; }
            program({"d.ini"}); h5read(dir + "/out.h5", a); unlink((dir + "/out.h5").c_str());
            mkdir(md.c_str(), 0700); for (auto& k : names) if (k != n && symlink((P + "/" + k).c_str(), (md + "/" + k).c_str())) {}
            Got g = program({"d.ini"}, [&] { setenv("QED_TABLES_PATH", md.c_str(), 1); });
            if (g.status != -2 && WIFEXITED(g.status) && WEXITSTATUS(g.status) == 0) { e = h5read(dir + "/out.h5", b); if (e.empty()) e = h5cmp(b, a, 0); if (e.size()) e = "the run succeeds with other results: " + e; count("tables not needed"); } else e = refused(g);
            unlink((dir + "/out.h5").c_str()); for (auto& k : names) unlink((md + "/" + k).c_str()); rmdir(md.c_str());
            distinct(g.text); if (e.size()) fail(e);
        }
    }
}
int main()
{
    init(); tune(); dir = tmp() + "/d"; mkdir(dir.c_str(), 0700); mkdir((dir + "/sub").c_str(), 0700); rng_const(0.5, 0); bool T = thorough();
    commands(T); rng_const(0.003, 0); tables(); rng_const(0.5, 0); decks(T);
    return finish();
}
