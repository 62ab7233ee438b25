// C09: the input-file reader against a reference reader: every file of up to
// n lines over an alphabet of line shapes, every line of up to n characters,
// and every reordering / respelling of a complete deck through FileParser.
#include "vp.hh"
#include <iostream>
#include <sstream>
#include "INIReader.hh"
#include "FileParser.hh"
using namespace vp;

static std::string TMP;
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'; }
static std::string strip(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; return s.substr(a, b - a); }
static std::string low(std::string s) { for (char& c : s) c = tolower(c); return s; }

// Reference reader: section, last setting, values and first malformed line.
struct Model
{
    std::string sec, last; bool haveLast = false; int line = 0, error = 0;
    std::map<std::pair<std::string, std::string>, std::string> val; std::set<std::string> secs; bool dup = false;
    void put(const std::string& n, const std::string& v, bool cont)
    {
        auto k = std::make_pair(low(sec), low(n));
        if (!cont && val.count(k)) dup = true;
        std::string& x = val[k];
        x = x.empty() ? v : x + "\n" + v;
        secs.insert(low(sec));
    }
    void feed(std::string l)
    {
        line++;
        if (line == 1 && l.compare(0, 3, "\xEF\xBB\xBF") == 0) l = l.substr(3);
        bool indent = !l.empty() && sp(l[0]);
        l = strip(l);
        if (l.empty() || l[0] == ';' || l[0] == '#') return;
        for (size_t i = 1; i < l.size(); i++) if (l[i] == ';' && sp(l[i - 1])) { l = strip(l.substr(0, i)); break; }
        if (indent && haveLast) { put(last, l, true); return; }
        if (l[0] == '[')
        {
            size_t e = l.find(']');
            if (e == std::string::npos) { if (!error) error = line; return; }
            sec = l.substr(1, e - 1); haveLast = false; return;
        }
        size_t e = l.find_first_of("=:");
        if (e == std::string::npos) { if (!error) error = line; return; }
        last = strip(l.substr(0, e)); haveLast = !last.empty(); put(last, strip(l.substr(e + 1)), false);
    }
    uint64_t h() const
    {
        std::string s = sec + "\1" + (haveLast ? last : "") + fmt("\1%d", error);
        for (auto& v : val) s += "\2" + v.first.first + "\1" + v.first.second + "\1" + v.second;
        return hash(s);
    }
};
static std::string esc(const std::string& s) { return jesc(s); }
static void writeFile(const std::string& p, const std::string& t) { FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }

static std::string check(const std::string& text, const Model& m, const std::vector<std::string>& names)
{
    std::string p = TMP + "/a.ini"; writeFile(p, text);
    INIReader r(p);
    if ((r.ParseError() != 0) != (m.error != 0) || (m.error && r.ParseError() != m.error)) return fmt("reports malformed line %d instead of %d", r.ParseError(), m.error);
    std::set<std::string> secs; for (auto& s : r.GetSections()) secs.insert(low(s));
    if (!m.error && secs != m.secs) return "wrong set of sections";
    if (m.error || m.dup) return "";
    std::set<std::string> ss = m.secs; ss.insert("nosuch"); ss.insert("");
    for (auto& s : ss)
    {
        std::set<std::string> ns(names.begin(), names.end()); for (auto& v : m.val) ns.insert(v.first.second);
        for (auto& n : ns)
        {
            auto it = m.val.find({low(s), low(n)}); bool have = it != m.val.end(); std::string want = have ? it->second : "dflt";
            std::string S = s, N = n; for (char& c : S) c = toupper(c);
            for (int q = 0; q < 2; q++)
            {
                const std::string& sx = q ? S : s; std::string nx = n; if (q) for (char& c : nx) c = toupper(c);
                if (r.HasValue(sx, nx) != have) return "setting " + esc(nx) + " of section " + esc(sx) + (have ? " is lost" : " appears from nowhere");
                if (r.Get(sx, nx, "dflt") != want) return "setting " + esc(nx) + " of section " + esc(sx) + " reads \"" + esc(r.Get(sx, nx, "dflt")) + "\" instead of \"" + esc(want) + "\"";
                if (r.GetString(sx, nx, "other") != (have && want.size() ? want : "other")) return "string setting " + esc(nx) + " reads \"" + esc(r.GetString(sx, nx, "other")) + "\"";
            }
        }
    }
    return "";
}

// --- complete decks through FileParser
struct Set { const char *sec, *name, *val; };
static const std::vector<Set> DECK = {
    {"General", "units", "SI"}, {"General", "time_step", "2.5e-18"}, {"General", "time_end", "3e-17"}, {"General", "file_name", "Some_File.h5"}, {"General", "tracking", "true"},
    {"Field", "field_type", "focusing"}, {"Field", "e_max", "1e15"}, {"Field", "wavelength", "8e-7"}, {"Field", "duration", "3e-14"}, {"Field", "waist", "2e-6"}, {"Field", "polerisation", "0.25"}, {"Field", "start", "1e-6, -2e-6, 3e-6"}, {"Field", "focus", "4e-6 5e-6 6e-6"},
    {"Physics", "radiation_model", "Quantum"}, {"Physics", "min_energy", "1e-13"}, {"Physics", "sample_fraction", "0.75"}, {"Physics", "pair_production", "true"},
    {"Particle1", "name", "Beam_A"}, {"Particle1", "number_particles", "7"}, {"Particle1", "particle_type", "Positron"}, {"Particle1", "energy_distribution", "gaussian"}, {"Particle1", "energy_mean", "2e-10"}, {"Particle1", "energy_sig", "1e-12"}, {"Particle1", "position", "1e-6,2e-6,3e-6"}, {"Particle1", "direction", "0,1,0"}, {"Particle1", "radius", "1e-6"}, {"Particle1", "divergence", "0.01"}, {"Particle1", "duration", "5e-15"}, {"Particle1", "output", "true"},
    {"Particle2", "name", "Beam_B"}, {"Particle2", "number_particles", "9"}, {"Particle2", "particle_type", "Photon"}, {"Particle2", "energy_mean", "3e-10"},
    {"Histogram1", "name", "H_one"}, {"Histogram1", "particle", "Photon"}, {"Histogram1", "type", "energy"}, {"Histogram1", "time", "1e-17"}, {"Histogram1", "bins", "11"}, {"Histogram1", "min_bin", "1"}, {"Histogram1", "max_bin", "100"},
    {"Histogram2", "name", "H_two"}, {"Histogram2", "particle", "Electron"}, {"Histogram2", "type", "x"}, {"Histogram2", "bins", "12"}};
static std::string v3(const ThreeVector& v) { return fmt("(%.12g %.12g %.12g)", v[0], v[1], v[2]); }
static std::string dump(const FileParser& f)
{
    GeneralParameters g = f.GetGeneral(); FieldParameters e = f.GetField(); PhysicsParameters p = f.GetPhysics();
    std::string s = fmt("general %s %.12g %.12g %s %d\n", g.units.c_str(), g.timeStep, g.timeEnd, g.fileName.c_str(), (int)g.tracking);
    s += fmt("field %s %.12g %.12g %.12g %.12g %.12g ", e.Type.c_str(), e.MaxE, e.Wavelength, e.Duration, e.Waist, e.Polerisation) + v3(e.Start) + v3(e.Focus) + "\n";
    s += fmt("physics %s %.12g %.12g %d\n", p.Physics.c_str(), p.MinEnergy, p.SampleFraction, (int)p.PairProduction);
    for (auto& x : f.GetParticle()) s += fmt("particle %u %s %s %s %.12g %.12g %.12g %.12g %.12g %d ", x.Number, x.Name.c_str(), x.Type.c_str(), x.Distro.c_str(), x.Energy1, x.Energy2, x.Radius, x.Divergence, x.Duration, (int)x.Output) + v3(x.Position) + v3(x.Direction) + "\n";
    for (auto& h : f.GetHistograms()) s += fmt("histogram %s %s %s %.12g %u %.12g %.12g\n", h.Name.c_str(), h.Particle.c_str(), h.Type.c_str(), h.Time, h.Bins, h.MinBin, h.MaxBin);
    return s;
}
struct Run { int status; std::string out, err; };
static Run parse(const std::string& text, bool checkFile = false)
{
    std::string p = TMP + "/deck.ini", o = TMP + "/o", e = TMP + "/e"; writeFile(p, text); writeFile(o, "");
    Run r; r.status = forked([&] {
        int fd = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1); close(fd);
        FileParser f(p, checkFile); std::string d = dump(f); writeFile(o, d); return 0; });
    auto rd = [](const std::string& q) { std::string s; FILE* f = fopen(q.c_str(), "rb"); if (f) { char b[4096]; size_t n; while ((n = fread(b, 1, 4096, f))) s.append(b, n); fclose(f); } return s; };
    r.out = rd(o); r.err = rd(e); return r;
}
static std::string deck(const std::vector<Set>& d, const std::function<std::string(const std::string&)>& word, const std::function<std::string(const std::string&, const std::string&)>& line, const std::string& sep = "")
{
    std::string t, cur;
    for (auto& s : d)
    {
        if (cur != s.sec) { t += (t.empty() ? "" : sep) + "[" + word(s.sec) + "]\n"; cur = s.sec; }
        t += line(word(s.name), s.val) + "\n";
    }
    return t;
}

int main()
{
    init(); bool T = thorough();
    TMP = getenv("VP_TMP") ? getenv("VP_TMP") : "/tmp";
    // 1. every file of up to n lines over line shapes; states = reader states
    std::vector<std::string> L = {"", "[A]", "[b]", "[A", "[a] ; note", "k=1", "K = Two words", "j: 3 ; note", "j=4;5", "  more", "\tmore ; note", "  [b]", "; k=9", "# k=9", "  ; k=9", "word", "m =", "=7", "k ;= 3", "[a ;]"};
    size_t depth = T ? 5 : 4;
    for (size_t a = 0; a < L.size(); a++) for (size_t b = 0; b < L.size(); b++)
    {
        if (!begin(fmt("files that start with lines %zu %zu", a, b))) continue;
        for (const char* eol : {"\n", "\r\n"}) for (int bom = 0; bom < 2; bom++)
        {
            if (bom && eol[0] == '\r') continue;
            std::function<bool(const Model&, const std::string&, size_t)> rec = [&](const Model& m, const std::string& text, size_t n) -> bool {
                state(m.h()); transition(); trace();
                std::string e = check(text, m, {"k", "j", "m"});
                if (e.empty() && n >= 2 && !text.empty()) { trace(); e = check(text.substr(0, text.size() - strlen(eol)), m, {"k", "j", "m"}); }
                if (e.size()) { fail("file \"" + esc(text) + "\": " + e); return false; }
                if (n == depth || (eol[0] == '\r' && n >= 3) || (bom && n >= 3)) return true;
                for (auto& l : L) { Model x = m; x.feed(l); if (!rec(x, text + l + eol, n + 1)) return false; }
                return true;
            };
            Model m; std::string t = bom ? "\xEF\xBB\xBF" : "";
            m.feed(t + L[a]); std::string t1 = t + L[a] + eol;
            if (b == 0) { std::string e = check(t1, m, {"k", "j", "m"}); if (e.size()) fail("file \"" + esc(t1) + "\": " + e); }
            m.feed(L[b]); rec(m, t1 + L[b] + eol, 2);
        }
    }
    // 2. every line of up to n characters, after a setting and after a section
    const char AB[] = {'a', ' ', '=', ';', '#', '[', ']', ':', '\t'};
    int len = T ? 6 : 5;
    for (int first = 0; first < 9; first++) for (int second = 0; second < 9; second++)
    {
        if (!begin(fmt("lines that start with characters %d %d", first, second))) continue;
        std::string s; s += AB[first]; s += AB[second];
        std::function<bool()> rec = [&]() -> bool {
            for (int ctx = 0; ctx < 2; ctx++)
            {
                std::vector<std::string> ls = {"[S]"}; if (ctx) ls.push_back("k = v"); ls.push_back(s); ls.push_back("z = 9");
                Model m; std::string t; for (auto& l : ls) { m.feed(l); t += l + "\n"; }
                transition(); trace(); state(m.h());
                std::string e = check(t, m, {"k", "z", "a"}); if (e.size()) { fail("file \"" + esc(t) + "\": " + e); return false; }
            }
            if ((int)s.size() < len) for (char c : AB) { s += c; bool ok = rec(); s.pop_back(); if (!ok) return false; }
            return true;
        };
        rec();
    }
    // 2a. names of every length that is kept whole, and names that only differ in their last letter or in where the section ends
    for (int ns = 1; ns <= 190; ns += ns < 60 ? 1 : 13)
    {
        if (!begin(fmt("section names of %d characters", ns))) continue;
        for (int nk = 1; nk <= 120; nk += nk < 60 ? 1 : 9)
        {
            std::vector<std::string> ls; std::string S(ns - 1, 'S'), K(nk - 1, 'k');
            for (char c : {'a', 'b'}) { ls.push_back("[" + S + c + "]"); for (char d : {'x', 'y'}) { ls.push_back(K + d + " = " + c + d); ls.push_back("   more " + std::string(1, d)); } }
            if (ns + nk < 20) { std::string w = S + K; for (size_t i = 1; i < w.size(); i++) { ls.push_back("[" + w.substr(0, i) + "]"); ls.push_back(w.substr(i) + fmt("=%zu", i)); } }
            Model m; std::string t; for (auto& l : ls) { m.feed(l); t += l + "\n"; }
            transition(); trace(); state(m.h()); std::string e = m.dup ? "" : check(t, m, {"k", K + "x"}); if (e.size()) { fail("file \"" + esc(t) + "\": " + e); break; }
        }
    }
    for (int n : {10, 100, 1000})
        if (begin(fmt("%d sections", n)))
        {
            Model m; std::string t; for (int i = 0; i < n; i++) for (std::string l : {fmt("[Part%d]", i), fmt("name = N%d", i), fmt("k%d = 1", i)}) { m.feed(l); t += l + "\n"; }
            transition(); std::string e = check(t, m, {"name", "k1"}); if (e.size()) fail(e);
        }
    // 2b. lines of every length: comments of any length are skipped as a whole, settings are read as a whole or reported
    for (int shape = 0; shape < 7; shape++) for (int eol = 0; eol < 3; eol++)
    {
        if (!begin(fmt("long lines of shape %d, end of line %d", shape, eol))) continue;
        std::vector<int> lens; for (int n = 150; n < (T ? 850 : 420); n++) lens.push_back(n); for (int n : {599, 600, 797, 1000, 1024, 4095, 4096, 5000}) lens.push_back(n);
        for (int n : lens) for (int ph = 0; ph < 4; ph++)
        {
            const char* H[] = {"; ", "# ", "   ; ", "j = 5 ; ", "j = ", "[", "   "}; std::string l = H[shape], f = "k=7 "; if (shape == 5) f = "Sk=7"; if (shape == 4 || shape == 6) f = "k=7,";
            size_t h = l.size(); for (int i = 0; (int)l.size() < n; i++) l += f[(i + ph) % 4]; if (l.back() == ' ') l.back() = '7';
            const char* E[] = {"\n", "\r\n", ""}; std::string t = "[S]\nk = v\n" + l + E[eol] + (eol == 2 ? "" : "\nz = 9\n"); if (eol != 2 && shape == 5) t += "]\n";
            writeFile(TMP + "/a.ini", t); INIReader r(TMP + "/a.ini"); transition(); distinct(hash(t)); std::string e;
            bool comment = shape < 4; if (shape == 5) { if (r.ParseError() != 3) e = fmt("reports malformed line %d instead of 3", r.ParseError()); }
            else if (comment && r.ParseError()) e = fmt("reports malformed line %d", r.ParseError());
            else if (!comment && r.ParseError() && (n <= 198 || r.ParseError() != 3)) e = fmt("reports malformed line %d", r.ParseError());
            if (e.empty() && !r.ParseError())
            {
                std::string k = "v"; if (shape == 6) k += "\n" + l.substr(h);
                if (r.Get("S", "k", "-") != k) e = "setting k reads \"" + r.Get("S", "k", "-") + "\""; else if (r.Get("S", "z", "-") != (eol == 2 ? "-" : "9")) e = "setting z is lost"; else if (r.GetSections().size() != 1) e = "sections appear from nowhere";
                else if (shape == 3 && r.Get("S", "j", "-") != "5") e = "setting j reads \"" + r.Get("S", "j", "-") + "\""; else if (shape == 4 && r.Get("S", "j", "-") != l.substr(h)) e = "setting j is read in part";
            }
            if (e.size()) { fail(fmt("a line of %d characters: ", n) + e); n = 1 << 30; break; }
        }
    }
    // 3. complete decks: letter case, spacing, comments, order, interleaving
    auto same = [](const std::string& s) { return s; };
    auto upper = [](const std::string& s) { std::string r = s; for (char& c : r) c = toupper(c); return r; };
    auto lower = [](const std::string& s) { return low(s); };
    auto mixed = [](const std::string& s) { std::string r = s; for (size_t i = 0; i < r.size(); i++) r[i] = i % 2 ? toupper(r[i]) : tolower(r[i]); return r; };
    std::vector<std::function<std::string(const std::string&)>> words = {same, upper, lower, mixed};
    typedef std::function<std::string(const std::string&, const std::string&)> LF;
    std::vector<LF> lines = {
        [](const std::string& n, const std::string& v) { return n + "=" + v; }, [](const std::string& n, const std::string& v) { return n + " = " + v; }, [](const std::string& n, const std::string& v) { return n + "\t:\t" + v + "\t "; },
        [](const std::string& n, const std::string& v) { return n + " = " + v + " ; remark = 7"; }, [](const std::string& n, const std::string& v) { return "; " + n + " = 77\n\n# [Field]\n" + n + "=" + v; },
        [](const std::string& n, const std::string& v) { return n + " = " + v + "\r"; }, [](const std::string& n, const std::string& v) { return n + " =\n   " + v + " ; 1 2 3"; }, [](const std::string& n, const std::string& v) { return "\n" + n + "=" + v + "\n   ; later 3"; }};
    Run base = parse(deck(DECK, same, lines[1]));
    if (begin("complete deck")) if (base.status || base.out.find("Beam_B") == std::string::npos || base.out.find("H_two") == std::string::npos) fail("the complete deck is not read: " + base.err);
    auto same_as_base = [&](const std::string& text, const std::string& what, bool cf) {
        Run r = parse(text, cf); count("decks"); distinct(hash(text));
        if (r.status) fail(what + ": refused: " + r.err);
        else if (r.out != base.out) fail(what + ": settings read differ:\n" + r.out + "instead of\n" + base.out);
    };
    if (!base.status) for (size_t w = 0; w < words.size(); w++) for (size_t l = 0; l < lines.size(); l++)
    {
        if (!begin(fmt("deck in letter case %zu, line style %zu", w, l))) continue;
        same_as_base(deck(DECK, words[w], lines[l]), "sections in order", true);
        std::vector<Set> d(DECK.rbegin(), DECK.rend()); same_as_base(deck(d, words[w], lines[l]), "everything in reverse order", false);
        // every section split in two, the halves interleaved
        std::vector<Set> a, b; for (size_t i = 0; i < DECK.size(); i++) (i % 2 ? a : b).push_back(DECK[i]);
        a.insert(a.end(), b.begin(), b.end()); same_as_base(deck(a, words[w], lines[l], "\n; new section\n"), "sections repeated", false);
        // one setting per section header, stride permutations
        for (size_t st : {5, 7, 11, 13}) { std::vector<Set> p; for (size_t i = 0; i < DECK.size(); i++) p.push_back(DECK[i * st % DECK.size()]); if (DECK.size() % st) same_as_base(deck(p, words[w], lines[l]), "interleaved", false); }
        if (T) for (size_t i = 0; i < DECK.size(); i++) { std::vector<Set> p = DECK; Set s = p[i]; p.erase(p.begin() + i); p.push_back(s); same_as_base(deck(p, words[w], lines[l]), fmt("setting %zu last", i), false); p.pop_back(); p.insert(p.begin(), s); same_as_base(deck(p, words[w], lines[l]), fmt("setting %zu first", i), false); }
    }
    if (!base.status) { // sections in every rotation and transposition
        std::vector<std::vector<Set>> secs; for (auto& s : DECK) { if (secs.empty() || strcmp(secs.back()[0].sec, s.sec)) secs.push_back({}); secs.back().push_back(s); }
        std::vector<int> idx; for (size_t i = 0; i < secs.size(); i++) idx.push_back(i);
        long n = 0;
        do { n++; if (!T && n % 13) continue;
            std::string k = "sections ordered"; for (int i : idx) k += fmt(" %d", i);
            if (!vp::begin(k)) continue;
            std::vector<Set> d; for (int i : idx) d.insert(d.end(), secs[i].begin(), secs[i].end());
            same_as_base(deck(d, same, lines[1]), "permuted sections", false);
        } while (std::next_permutation(idx.begin(), idx.end()));
    }
    // absent and empty settings give the same values
    for (size_t i = 0; i < DECK.size(); i++)
    {
        std::string n = DECK[i].name; if (!strcmp(DECK[i].sec, "General") && n != "file_name" && n != "tracking") continue;
        if (n == "field_type" || !strcmp(DECK[i].sec, "Physics") || (!strncmp(DECK[i].sec, "Histogram", 9) && (n == "particle" || n == "type" || n == "bins"))) { if (n != "min_energy" && n != "sample_fraction" && n != "pair_production") continue; }
        if (!begin(fmt("absent or empty: %s %s", DECK[i].sec, DECK[i].name))) continue;
        std::vector<Set> d = DECK; d[i].val = ""; Run e = parse(deck(d, same, lines[1]));
        d.erase(d.begin() + i); Run a = parse(deck(d, same, lines[1])); count("decks", 2);
        if (a.status || e.status) fail("a deck without this setting is refused: " + a.err + e.err);
        else if (a.out != e.out) fail("an absent and an empty setting differ:\n" + a.out + e.out);
        else if (a.out == base.out) fail("the setting has no effect");
        distinct(a.out);
    }
    // malformed lines are reported with their number, wherever they are
    std::string text = deck(DECK, same, lines[1]); std::vector<std::string> ls; { std::istringstream is(text); std::string l; while (std::getline(is, l)) ls.push_back(l); }
    for (const char* bad : {"word", "[Field", "two words", "[Field ;]", "word ; = 3"}) for (size_t at = 0; at <= ls.size(); at++)
    {
        if (!begin(fmt("malformed line \"%s\" as line %zu", bad, at + 1))) continue;
        for (int more = 0; more < 2; more++)
        {
            std::string t; for (size_t i = 0; i <= ls.size(); i++) { if (i == at) t += std::string(bad) + "\n"; if (i < ls.size()) t += ls[i] + "\n"; }
            if (more) t += "other bad line\n";
            Run r = parse(t); count("malformed"); distinct(hash(t));
            if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0) fail(fmt("not refused with an error (status %d)", r.status));
            else
            {   // the number appears in the message as a word of its own
                bool ok = false; std::string w; for (char c : r.err + " ") { if (isdigit(c)) w += c; else { if (w == std::to_string(at + 1)) ok = true; w.clear(); } }
                if (!ok) fail(fmt("the message does not name line %zu: ", at + 1) + r.err);
            }
        }
    }
    return finish();
}
