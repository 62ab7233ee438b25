// Force-included (-include) into the sources under test in the builds that own
// the randomness: the standard engines, distributions and random_device are
// replaced by ones whose outcomes the harness decides.  Nothing in the sources
// under test is edited.
#ifndef VP_RNG_HH
#define VP_RNG_HH
#include <random>
#include <cstdint>
#include <limits>

extern "C" double vp_rng_u(void);   // next uniform number in [0,1)
extern "C" double vp_rng_z(void);   // next standard normal number
// optional: normal number as a function of the engine's state, random_device
extern "C" double vp_rng_zs(uint64_t) __attribute__((weak));
extern "C" unsigned vp_rng_rd(void) __attribute__((weak));

namespace std
{
    struct vp_engine
    {
        typedef uint_fast32_t result_type;
        uint64_t s; bool have; uint32_t hi;
        vp_engine(): s(1), have(false), hi(0) {}
        explicit vp_engine(uint64_t v): s(v), have(false), hi(0) {}
        void seed(uint64_t v = 1) { s = v; have = false; }
        void discard(unsigned long long) {}
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return 0xffffffffu; }
        void touch() { s = s * 6364136223846793005ull + 1442695040888963407ull; }
        // two consecutive words (low, high) make one canonical double
        result_type operator()()
        {
            touch();
            if (have) { have = false; return hi; }
            double u = vp_rng_u();
            uint64_t w = (uint64_t)(u * 18446744073709551616.0);
            hi = (uint32_t)(w >> 32); have = true;
            return (uint32_t)w;
        }
        bool operator==(const vp_engine& o) const { return s == o.s; }
    };
    struct vp_random_device
    {
        typedef unsigned int result_type;
        vp_random_device() {}
        template <class S> explicit vp_random_device(const S&) {}
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return 0xffffffffu; }
        result_type operator()() { return vp_rng_rd ? vp_rng_rd() : 12345u; }
        double entropy() const { return 0; }
    };
    template <class E> inline void vp_touch(E&) {}
    inline void vp_touch(vp_engine& e) { e.touch(); }
    template <class E> inline double vp_norm(E&) { return vp_rng_z(); }
    inline double vp_norm(vp_engine& e) { e.touch(); return vp_rng_zs ? vp_rng_zs(e.s) : vp_rng_z(); }

    template <class T = double> struct vp_uniform_real
    {
        typedef T result_type; T a_, b_;
        explicit vp_uniform_real(T a = 0, T b = 1): a_(a), b_(b) {}
        struct param_type { T a, b; explicit param_type(T x = 0, T y = 1): a(x), b(y) {} };
        void reset() {}
        T a() const { return a_; }
        T b() const { return b_; }
        template <class E> T operator()(E& e) { vp_touch(e); return (T)vp_rng_u() * (b_ - a_) + a_; }
        template <class E> T operator()(E& e, const param_type& p) { vp_touch(e); return (T)vp_rng_u() * (p.b - p.a) + p.a; }
    };
    template <class T = double> struct vp_normal
    {
        typedef T result_type; T m_, s_;
        explicit vp_normal(T m = 0, T s = 1): m_(m), s_(s) {}
        struct param_type { T m, s; explicit param_type(T x = 0, T y = 1): m(x), s(y) {} };
        void reset() {}
        T mean() const { return m_; }
        T stddev() const { return s_; }
        template <class E> T operator()(E& e) { return (T)vp_norm(e) * s_ + m_; }
        template <class E> T operator()(E& e, const param_type& p) { return (T)vp_norm(e) * p.s + p.m; }
    };
}
#define mt19937 vp_engine
#define mt19937_64 vp_engine
#define minstd_rand vp_engine
#define minstd_rand0 vp_engine
#define default_random_engine vp_engine
#define ranlux24 vp_engine
#define ranlux48 vp_engine
#define knuth_b vp_engine
#define random_device vp_random_device
#define uniform_real_distribution vp_uniform_real
#define normal_distribution vp_normal
#endif
