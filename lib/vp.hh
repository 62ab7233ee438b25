// Harness library: case bookkeeping, exhaustive choice enumeration, controlled
// random numbers.
#ifndef VP_HH
#define VP_HH
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <cmath>
#include <ctime>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace vp
{
    inline std::string fmt(const char* f, ...)
    {
        char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
    }
    inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
        return h;
    }
    inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

    struct State
    {
        std::string out, only; int shard = 0, shards = 1; long index = 0;
        long evals = 0, transitions = 0, traces = 0, failures = 0, skipped = 0; double deadline = 0; bool thorough = false; unsigned seed = 1;
        std::unordered_set<uint64_t> distinct, states; std::vector<std::string> samples;
        std::map<std::string, long> counters; std::map<std::string, std::string> notes;
        FILE* f = nullptr; char* cur = nullptr; std::string key;
    };
    inline State& st() { static State s; return s; }

    inline std::string jesc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    inline void init(bool quiet = true)
    {
        State& s = st(); const char* e;
        s.out = (e = getenv("VP_OUT")) ? e : "/dev/null";
        if ((e = getenv("VP_ONLY"))) s.only = e;
        if ((e = getenv("VP_SHARD"))) sscanf(e, "%d/%d", &s.shard, &s.shards);
        if ((e = getenv("VERIF_TIER"))) s.thorough = !strcmp(e, "thorough");
        if ((e = getenv("VERIF_SEED"))) s.seed = atoi(e);
        if ((e = getenv("VP_DEADLINE"))) s.deadline = atof(e);
        s.f = fopen(s.out.c_str(), "w");
        if ((e = getenv("VP_CUR")))
        {
            int fd = open(e, O_RDWR | O_CREAT, 0600);
            if (ftruncate(fd, 65536) == 0)
                s.cur = (char*)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
        }
        if (quiet && !getenv("VP_NOISY")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
    }
    inline double now() { timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
    // Time is up: what is not reached by then is reported as such.
    inline bool late() { return st().deadline > 0 && now() > st().deadline; }
    inline bool thorough() { return st().thorough; }
    // Starts a case. False: not for this shard / not the one being replayed.
    inline bool begin(const std::string& key)
    {
        State& s = st(); long i = s.index++;
        if (!s.only.empty()) { if (key != s.only) return false; }
        else if (i % s.shards != s.shard) return false;
        if (s.failures >= 12) { s.counters["cases_left_after_failures"]++; return false; }
        if (late()) { s.skipped++; s.counters["cases_not_reached"]++; return false; }
        if (const char* tf = getenv("VP_TIMES")) { static double last = 0; double t = now(); if (FILE* f = fopen(tf, "a")) { if (last) fprintf(f, "%.2f %s\n", t - last, s.key.c_str()); fclose(f); } last = t; }
        s.key = key; s.evals++;
        if (s.samples.size() < 2 || (s.samples.size() < 4 && s.evals % 97 == 0)) s.samples.push_back(key);
        if (s.cur) { size_t n = std::min(key.size(), (size_t)65000); memcpy(s.cur, key.data(), n); s.cur[n] = 0; double t = now(); memcpy(s.cur + 65528, &t, 8); }
        return true;
    }
    inline void fail(const std::string& msg)
    {
        State& s = st(); s.failures++;
        if (s.failures <= 40 && s.f)
        { fprintf(s.f, "{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\"}\n", jesc(s.key).c_str(), jesc(msg).c_str()); fflush(s.f); }
    }
    inline void failk(const std::string& key, const std::string& msg) { State& s = st(); std::string k = s.key; s.key = key; fail(msg); s.key = k; }
    inline void distinct(uint64_t h) { st().distinct.insert(h); }
    inline void distinct(const std::string& h) { st().distinct.insert(hash(h)); }
    inline bool state(uint64_t h) { return st().states.insert(h).second; }
    inline void transition(long n = 1) { st().transitions += n; }
    inline void trace(long n = 1) { st().traces += n; }
    inline void count(const std::string& k, long n = 1) { st().counters[k] += n; }
    inline void note(const std::string& k, const std::string& v) { st().notes[k] = v; }
    inline void sample(const std::string& v) { if (st().samples.size() < 6) st().samples.push_back(v); }
    inline int finish()
    {
        State& s = st(); FILE* f = s.f; if (!f) return 0;
        fprintf(f, "{\"t\":\"done\",\"evals\":%ld,\"transitions\":%ld,\"traces\":%ld,\"failures\":%ld,\"counters\":{", s.evals, s.transitions, s.traces, s.failures);
        bool c = false;
        for (auto& k : s.counters) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(k.first).c_str(), k.second); c = true; }
        fprintf(f, "},\"notes\":{"); c = false;
        for (auto& k : s.notes) { fprintf(f, "%s\"%s\":\"%s\"", c ? "," : "", jesc(k.first).c_str(), jesc(k.second).c_str()); c = true; }
        fprintf(f, "},\"samples\":["); c = false;
        for (auto& k : s.samples) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(k).c_str()); c = true; }
        fprintf(f, "]}\n"); fclose(f); s.f = nullptr;
        FILE* h = fopen((s.out + ".hash").c_str(), "wb");
        if (h)
        {
            for (uint64_t v : s.distinct) { uint64_t r[2] = {0, v}; fwrite(r, 16, 1, h); }
            for (uint64_t v : s.states) { uint64_t r[2] = {1, v}; fwrite(r, 16, 1, h); }
            fclose(h);
        }
        return 0;
    }

    // Depth-first enumeration of every sequence of choices.
    struct Choices
    {
        std::vector<int> path, arity; size_t pos = 0; long runs = 0;
        void start() { pos = 0; }
        int choose(int n)
        {
            if (pos < path.size())
            {
                if (arity[pos] != n) { fprintf(stderr, "vp: nondeterministic replay\n"); abort(); }
                return path[pos++];
            }
            path.push_back(0); arity.push_back(n); pos++; return 0;
        }
        bool next()
        {
            runs++;
            path.resize(pos); arity.resize(pos);
            while (!path.empty())
            {
                if (path.back() + 1 < arity.back()) { path.back()++; return true; }
                path.pop_back(); arity.pop_back();
            }
            return false;
        }
        std::string str() const { std::string r; for (int p : path) r += (r.empty() ? "" : ".") + std::to_string(p); return r; }
    };

    // Source of the random numbers of the code under test (builds with vp_rng.hh)
    struct Rng
    {
        std::function<double()> u, z; long nu = 0, nz = 0;
    };
    inline Rng& rng() { static Rng r; return r; }
    inline void rng_const(double u, double z) { rng().u = [u] { return u; }; rng().z = [z] { return z; }; }
    inline void rng_choices(Choices& c, const std::vector<double>& us, const std::vector<double>& zs)
    {
        rng().u = [&c, us] { return us[c.choose((int)us.size())]; };
        rng().z = [&c, zs] { return zs[c.choose((int)zs.size())]; };
    }

    inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-300)
    {
        if (a == b) return true;
        if (!(std::isfinite(a) && std::isfinite(b))) return std::isnan(a) && std::isnan(b);
        return std::fabs(a - b) <= std::max(abs, rel * std::max(std::fabs(a), std::fabs(b)));
    }

    // Runs f in a forked child; returns the wait status, or -2 on time-out.
    inline int forked(const std::function<int()>& f, double limit = 20)
    {
        fflush(0); pid_t p = fork();
        if (p == 0) { alarm((unsigned)std::ceil(limit)); int r = f(); _exit(r); }
        int w; while (waitpid(p, &w, 0) < 0) {}
        if (WIFSIGNALED(w) && WTERMSIG(w) == SIGALRM) return -2;
        return w;
    }
}
#ifdef VP_RNG_IMPL
extern "C" double vp_rng_u(void) { vp::rng().nu++; return vp::rng().u(); }
extern "C" double vp_rng_z(void) { vp::rng().nz++; return vp::rng().z(); }
#endif
#endif
