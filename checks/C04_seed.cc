// C04, part 2: seeding on the real engine, all short operation sequences.
#include "vp.hh"
#include <thread>
#include "MCTools.hh"
using namespace vp;

static const int NOP = 11;
static const char* NAMES[NOP] = {"seed 0", "seed 1", "seed 2", "seed 123456", "seed -3", "double", "normal", "sample normal 3", "sample uniform 2", "discrete", "poisson"};
static std::string apply(int o)
{
    switch (o)
    {
    case 0: MCTools::SetSeed(0); return "";
    case 1: MCTools::SetSeed(1); return "";
    case 2: MCTools::SetSeed(2); return "";
    case 3: MCTools::SetSeed(123456); return "";
    case 4: MCTools::SetSeed(-3); return "";
    case 5: return fmt("%a ", MCTools::RandDouble(0, 1));
    case 6: return fmt("%a ", MCTools::RandNorm(0, 1));
    case 7: { std::string r; for (double d : MCTools::SampleNorm(1, 2, 3)) r += fmt("%a ", d); return r; }
    case 8: { std::string r; for (double d : MCTools::SampleUniform(1, 2, 2)) r += fmt("%a ", d); return r; }
    case 9: return fmt("%u ", MCTools::RandDiscrete({1, 2, 3, 4, 5, 6, 7, 8, 9, 10}));
    default: return fmt("%u ", MCTools::RandPoisson(4));
    }
}
int main()
{
    init();
    int depth = thorough() ? 6 : 5;
    // draws after a seed depend on the seed and the draws since, on nothing else
    std::map<std::string, std::string> table;
    for (int first = 0; first < NOP; first++)
    {
        if (!begin(fmt("all sequences that start with %s", NAMES[first]))) continue;
        std::vector<int> seq = {first};
        std::function<void()> rec = [&] {
            std::string since, key, out; bool seeded = false;
            for (int o : seq)
            {
                std::string r = apply(o);
                if (o < 5) { seeded = true; key = fmt("%d", o); out.clear(); }
                else { key += fmt(",%d", o); out += r; }
            }
            transition(); trace();
            if (seeded)
            {
                state(hash(key));
                auto it = table.find(key);
                if (it == table.end()) table[key] = out;
                else if (it->second != out) { std::string s; for (int o : seq) s += std::string(NAMES[o]) + "; "; fail("draws after the last seed differ from those of an earlier history: " + s + out + "/ " + it->second); return; }
            }
            if ((int)seq.size() < depth) for (int o = 0; o < NOP; o++) { seq.push_back(o); rec(); seq.pop_back(); }
        };
        rec();
    }
    // different seeds, different draws
    if (begin("different seeds"))
    {
        std::map<std::string, int> seen;
        for (int s = 0; s < 2000; s++)
        {
            MCTools::SetSeed(s); std::string r; for (int i = 0; i < 4; i++) r += fmt("%a ", MCTools::RandDouble(0, 1));
            // the engine itself gives the first two seeds different sequences
            if (seen.count(r)) { fail(fmt("seeds %d and %d give the same draws", seen[r], s)); break; }
            seen[r] = s; state(hash(r)); transition();
        }
        MCTools::SetSeed(7); std::vector<double> a = MCTools::SampleUniform(0, 1, 2000); std::set<double> d(a.begin(), a.end());
        if (d.size() < 1990) fail("a sample repeats itself");
    }
    // two threads, every interleaving of their operations: neither disturbs
    // the other, and threads that are not seeded draw different sequences
    static const int progs[3][4] = {{1, 5, 8, 6}, {2, 6, 5, 9}, {1, 7, 7, 5}};
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
        for (int mask = 0; mask < 256; mask++)
        {
            if (__builtin_popcount(mask) != 4) continue;
            if (!begin(fmt("threads %d %d schedule %d", a, b, mask))) continue;
            std::string out[2], alone[2]; volatile int turn = 0; int pos[2] = {0, 0};
            auto body = [&](int me, const int* prog) {
                for (int k = 0; k < 8; k++)
                {
                    while (__atomic_load_n(&turn, __ATOMIC_ACQUIRE) != k * 2) { if (__atomic_load_n(&turn, __ATOMIC_ACQUIRE) > k * 2) break; std::this_thread::yield(); }
                    if ((mask >> k & 1) == me) { out[me] += apply(prog[pos[me]++]); __atomic_store_n(&turn, (k + 1) * 2, __ATOMIC_RELEASE); }
                    else while (__atomic_load_n(&turn, __ATOMIC_ACQUIRE) <= k * 2) std::this_thread::yield();
                }
            };
            std::thread t0(body, 0, progs[a]), t1(body, 1, progs[b]); t0.join(); t1.join();
            for (int o : progs[a]) alone[0] += apply(o);
            for (int o : progs[b]) alone[1] += apply(o);
            for (int i = 0; i < 2; i++) if (out[i] != alone[i]) fail(fmt("thread %d draws %s instead of %s", i, out[i].c_str(), alone[i].c_str()));
            transition(8); trace(); state(hash(fmt("th %d %d %d", a, b, mask)));
        }
    if (begin("threads that are not seeded"))
    {
        std::set<std::string> s;
        for (int t = 0; t < 6; t++) { std::string r; std::thread([&] { for (int i = 0; i < 4; i++) r += fmt("%a ", MCTools::RandDouble(0, 1)); }).join(); if (!s.insert(r).second) fail("two threads draw the same sequence"); }
        std::string r[2]; auto f = [](std::string* o) { for (int i = 0; i < 4; i++) *o += fmt("%a ", MCTools::RandDouble(0, 1)); };
        std::thread a(f, &r[0]), b(f, &r[1]); a.join(); b.join(); if (r[0] == r[1]) fail("two threads that live together draw the same sequence");
    }
    return finish();
}
