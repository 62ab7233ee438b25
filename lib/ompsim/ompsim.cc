// OpenMP and thread runtime under a controlled scheduler, with race detection.
// Linked in place of libgomp and libtsan into sources compiled with
// -fopenmp -fsanitize=thread: the compiler's own instrumentation reports every
// memory access and every atomic operation, and only one thread runs at a
// time; at each synchronisation operation the scheduler decides who goes on.
#include "ompsim.hh"
#include <pthread.h>
#include <semaphore.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <new>
#include <unistd.h>
#include <dlfcn.h>
#include <malloc.h>

extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real___cxa_guard_acquire(char*); void __real___cxa_guard_release(char*); void __real___cxa_guard_abort(char*); }

OmpShared* vp_omp = nullptr;
bool vp_omp_on = false;
int vp_omp_threads = 1;
typedef uintptr_t U;
#define NT OMPSIM_MAXT

static bool live = false;                 // inside a parallel region with several threads
static thread_local int self = -1;        // number in the team, -1 outside
static thread_local int tnum = 0, tsize = 1; // what omp_get_* say
static thread_local int busy = 0;
static int wanted = 0;                    // omp_set_num_threads

static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4); a *= 0xff51afd7ed558ccdull; a ^= a >> 32; return a; }
static void stopWith(int code, const char* f, ...)
{ va_list a; va_start(a, f); if (vp_omp) vsnprintf(vp_omp->msg, sizeof vp_omp->msg, f, a); _exit(code); }

// ---- vector clocks and synchronisation objects ----
struct VC { unsigned c[NT]; };
static void join(VC& a, const VC& b) { for (int i = 0; i < NT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct Obj { U key; VC vc; uint64_t h, rd; int owner, depth; long next; int arrived; };
static Obj objs[4096]; static int nobj = 0;
static Obj& obj(U key)
{
    for (int i = 0; i < nobj; i++) if (objs[i].key == key) return objs[i];
    if (nobj == 4096) stopWith(OMPSIM_BROKEN, "too many synchronisation objects");
    Obj& o = objs[nobj++]; memset(&o, 0, sizeof o); o.key = key; o.owner = -1; o.h = key; return o;
}
enum Kind { START = 1, ATOMIC, LOCK, BARRIER, WORK, ENDED, GUARD, SPIN };
struct Thr { pthread_t p; sem_t sem; VC vc; uint64_t h; Kind op; U key; bool ended, waiting; unsigned bar; } ;
static Thr th[NT]; static int nth = 0, preempt = 0; static uint64_t past = 1;

// ---- shadow memory: per 8 bytes the last accesses ----
struct Rec { unsigned clk; short tid; unsigned char mask, kind; U pc; };   // kind: 1 write, 2 atomic
struct Gran { int n; Rec r[2 * NT]; };
struct Page { U page; Page* next; int nw; Rec w[NT]; Gran** g; };   // w: accesses to all of the page (4 KB)
static Page* pages[65536]; static char* pool = nullptr; static size_t poolLeft = 0;
static void* alloc(size_t n) { n = (n + 15) & ~15ul; if (n > poolLeft) { poolLeft = 8 << 20; pool = (char*)__real_calloc(1, poolLeft); } void* p = pool; pool += n; poolLeft -= n; return p; }
static Page* page(U p, bool make)
{
    size_t b = (p * 0x9e3779b97f4a7c15ull) >> 48; for (Page* q = pages[b]; q; q = q->next) if (q->page == p) return q;
    if (!make) return nullptr; Page* q = (Page*)alloc(sizeof(Page)); q->page = p; q->next = pages[b]; pages[b] = q; return q;
}
static void raceAt(const Rec& r, int kind, U pc, bool freed)
{ stopWith(OMPSIM_RACE, "unsynchronised access to the same data: %s at %lx by thread %d and %s at %lx by thread %d", r.kind & 1 ? "write" : "read", (unsigned long)r.pc, r.tid, freed ? "release" : kind & 1 ? "write" : "read", (unsigned long)pc, self); }
static inline void against(const Rec& r, unsigned char mask, int kind, U pc)
{ if (r.tid != self && (r.mask & mask) && ((r.kind | kind) & 1) && !((r.kind & kind) & 2) && r.clk > th[self].vc.c[r.tid]) raceAt(r, kind, pc, false); }
static void record(Rec* r, int& n, int cap, unsigned char mask, int kind, U pc)
{
    int keep = -1;
    for (int i = 0; i < n; i++) { against(r[i], mask, kind, pc); if (r[i].tid == self && r[i].kind == kind && (r[i].mask & ~mask) == 0) keep = i; }
    if (keep < 0)
    {   // drop own accesses that this one covers
        if (kind & 1) { int k = 0; for (int i = 0; i < n; i++) { if ((r[i].mask & ~mask) == 0 && r[i].tid == self && !(kind & 2 && !(r[i].kind & 2))) continue; r[k++] = r[i]; } n = k; }
        if (n == cap) { int k = 0; for (int i = 1; i < n; i++) r[k++] = r[i]; n = k; }
        keep = n++;
    }
    Rec& q = r[keep]; q.clk = th[self].vc.c[self]; q.tid = self; q.mask = mask; q.kind = kind; q.pc = pc;
}
static void touch1(U gr, unsigned char mask, int kind, U pc)
{
    Page* pg = page(gr >> 9, true); for (int i = 0; i < pg->nw; i++) against(pg->w[i], mask, kind, pc);
    if (!pg->g) pg->g = (Gran**)alloc(512 * sizeof(Gran*));
    Gran*& g = pg->g[gr & 511]; if (!g) g = (Gran*)alloc(sizeof(Gran));
    record(g->r, g->n, 2 * NT, mask, kind, pc);
}
static void touchRange(U a, U e, int kind, U pc)
{
    while (a < e)
    {
        if (!(a & 4095) && e - a >= 4096)
        {
            Page* pg = page(a >> 12, true);
            if (pg->g) for (int i = 0; i < 512; i++) if (Gran* q = pg->g[i]) for (int k = 0; k < q->n; k++) against(q->r[k], 255, kind, pc);
            record(pg->w, pg->nw, NT, 255, kind, pc); a += 4096; continue;
        }
        U g = a >> 3, hi = (g + 1) << 3; if (hi > e) hi = e; unsigned m = ((1u << (hi - (g << 3))) - 1) & ~((1u << (a & 7)) - 1); touch1(g, (unsigned char)m, kind, pc); a = hi;
    }
}
// accesses of a loop over consecutive data are put together before they are looked at
static struct { U from, to, pc; int kind; } runOf[NT];
static void flush() { if (self < 0 || !live) return; auto& r = runOf[self]; if (r.from == r.to) return; U a = r.from, e = r.to; r.from = r.to = 0; touchRange(a, e, r.kind, r.pc); }
static inline void touch(const void* p, size_t n, int kind, U pc)
{
    if (!live || self < 0 || busy || !n) return; U a = (U)p; auto& r = runOf[self];
    if (r.to == a && r.pc == pc && r.kind == kind && r.from != r.to) { r.to = a + n; return; }
    if (r.from != r.to) flush();
    r.from = a; r.to = a + n; r.pc = pc; r.kind = kind;
}
static void forget(void* p, size_t n, bool freed, U pc)
{
    if (!live || self < 0 || busy || !n) return; flush(); U a = (U)p >> 3, e = ((U)p + n + 7) >> 3;
    for (U pgn = a >> 9; pgn <= (e - 1) >> 9; pgn++)
    {
        Page* pg = page(pgn, false); if (!pg) continue; U lo = pgn << 9, hi = lo + 512; if (lo < a) lo = a; if (hi > e) hi = e;
        auto check = [&](const Rec& r) { if (freed && r.tid != self && r.clk > th[self].vc.c[r.tid]) raceAt(r, 1, pc, true); };
        if (pg->nw)
        {   // spread what applies to the whole page unless all of it goes
            for (int i = 0; i < pg->nw; i++) check(pg->w[i]);
            if (hi - lo < 512) { if (!pg->g) pg->g = (Gran**)alloc(512 * sizeof(Gran*)); for (int i = 0; i < 512; i++) { Gran*& g = pg->g[i]; if (!g) g = (Gran*)alloc(sizeof(Gran)); for (int k = 0; k < pg->nw && g->n < 2 * NT; k++) g->r[g->n++] = pg->w[k]; } }
            pg->nw = 0;
        }
        if (!pg->g) continue;
        for (U g = lo; g < hi; g++) { Gran* q = pg->g[g & 511]; if (!q) continue; for (int i = 0; i < q->n; i++) check(q->r[i]); q->n = 0; }
    }
}
static void wipe() { for (auto& b : pages) for (Page* q = b; q; q = q->next) { q->nw = 0; if (q->g) for (int i = 0; i < 512; i++) if (q->g[i]) q->g[i]->n = 0; } memset(runOf, 0, sizeof runOf); }

// ---- scheduling ----
static bool enabled(int i)
{
    Thr& t = th[i]; if (t.ended || t.waiting) return false;
    if (t.op == LOCK || t.op == GUARD) { Obj& o = obj(t.key); return o.owner < 0 || o.owner == i; }
    return true;
}
static bool seen(uint64_t h)
{
    OmpShared* s = vp_omp; size_t k = h & (OMPSIM_TABLE - 1); while (s->table[k]) { if (s->table[k] == h) return true; k = (k + 1) & (OMPSIM_TABLE - 1); }
    if (s->nseen * 2 > OMPSIM_TABLE) stopWith(OMPSIM_BROKEN, "state table full"); s->table[k] = h; s->nseen++;
    if (s->nnew < OMPSIM_NEW) s->fresh[s->nnew++] = h; return false;
}
static const char* opText(int i)
{
    static const char* n[] = {"", "its start", "an atomic operation", "a lock", "a barrier", "a shared loop", "its end", "a static variable", "waiting"};
    return n[th[i].op];
}
// picks who runs next; me: number of the thread that gives up the processor
static int pick(int me, bool can)
{
    int o[NT], n = 0; bool cur = can && enabled(me);
    if (cur && th[me].op != SPIN) o[n++] = me;
    for (int i = 0; i < nth; i++) if (i != me && enabled(i)) o[n++] = i;
    if (cur && th[me].op == SPIN) { if (!n) o[n++] = me; cur = false; }
    if (!n)
    {
        char b[512]; int k = 0; b[0] = 0; for (int i = 0; i < nth && k < 440; i++) if (!th[i].ended) k += snprintf(b + k, sizeof b - k, "%sthread %d waits for %s", k ? ", " : "", i, opText(i));
        stopWith(OMPSIM_DEADLOCK, "dead-lock: %s", b);
    }
    OmpShared* s = vp_omp; s->steps++;
    if (s->steps > s->maxSteps) stopWith(OMPSIM_ENDLESS, "the threads do not come to an end");
    // what a thread does up to its first operation concerns no other: no choice
    for (int i = 0; i < n; i++) if (th[o[i]].op == START) return o[i];
    if (s->bound < 0)
    {   // a fixed order instead of all: 1 as long as possible, lowest first; 2 the same, highest first; 3 in turn; 4 in turn downwards
        if (cur && s->bound >= -2) return me;
        int best = o[0]; auto rank = [&](int i) { return s->bound == -1 ? i : s->bound == -2 ? nth - i : s->bound == -3 ? (i - me - 1 + nth) % nth : (me - 1 - i + nth) % nth; };
        for (int i = 1; i < n; i++) if (rank(o[i]) < rank(best)) best = o[i];
        return best;
    }
    if (cur && preempt >= s->bound) n = 1;
    if (n == 1) return o[0];
    int w;
    if (s->pos < s->len) { if (s->arity[s->pos] != n) stopWith(OMPSIM_BROKEN, "a schedule does not replay"); w = s->path[s->pos++]; }
    else
    {
        if (s->len == OMPSIM_PATH) stopWith(OMPSIM_BROKEN, "schedule too long");
        uint64_t h = mix(past, nth); for (int i = 0; i < nth; i++) h = mix(h, th[i].h + th[i].op * 7 + th[i].waiting + 2 * th[i].ended); h = mix(h, cur ? me + 1 : 0); h = mix(h, preempt); h = mix(h, s->salt); if (!h) h = 1;
        if (seen(h)) _exit(OMPSIM_PRUNED);
        w = 0; s->path[s->len] = 0; s->arity[s->len] = n; s->len++; s->pos++;
    }
    if (cur && o[w] != me) preempt++;
    return o[w];
}
static void waitSem(int i) { while (sem_wait(&th[i].sem) && errno == EINTR) {} }
static void yield(Kind k, U key)
{
    flush(); Thr& t = th[self]; t.op = k; t.key = key; int nx = pick(self, true);
    if (nx != self) { int me = self; sem_post(&th[nx].sem); waitSem(me); }
}
// thread comes to rest (barrier or end) and someone else goes on
static void rest()
{ flush(); int me = self, nx = pick(me, false); sem_post(&th[nx].sem); waitSem(me); }
// history of threads and objects: equal for schedules that differ only in the
// order of operations that do not depend on each other
static void order(Obj& o, int what) { Thr& t = th[self]; t.h = mix(mix(t.h, what), mix(o.h, o.rd)); o.h = mix(o.h, t.h); o.rd = 0; }
static void orderRead(Obj& o) { Thr& t = th[self]; t.h = mix(mix(t.h, 2), o.h); o.rd += mix(t.h, 3); }
static void acquire(Obj& o) { flush(); join(th[self].vc, o.vc); }
static void release(Obj& o) { flush(); join(o.vc, th[self].vc); th[self].vc.c[self]++; }
static bool ruled() { return live && self >= 0 && !busy; }

static void lock(U key) { yield(LOCK, key); Obj& o = obj(key); if (o.owner == self) stopWith(OMPSIM_DEADLOCK, "dead-lock: thread %d enters a critical section it is in", self); o.owner = self; order(o, 1); acquire(o); }
static void unlock(U key) { Obj& o = obj(key); o.owner = -1; release(o); }
static void barrier()
{
    flush(); Thr& t = th[self]; t.op = BARRIER; Obj& o = obj(0x1000 + t.bar); t.bar++; o.arrived++; join(o.vc, t.vc); o.h += mix(t.h, 77);
    int there = 0; for (int i = 0; i < nth; i++) there += !th[i].ended;
    if (o.arrived < nth)
    {
        if (there < nth) stopWith(OMPSIM_DEADLOCK, "dead-lock: a thread waits at a barrier that another one has not reached before its end");
        t.waiting = true; rest(); return;
    }
    for (int i = 0; i < nth; i++) { join(th[i].vc, o.vc); th[i].h = mix(th[i].h, o.h); th[i].vc.c[i]++; th[i].waiting = false; }
    yield(BARRIER, 0);
}
struct Job { void (*fn)(void*); void* data; int id; };
static sem_t allDone;
static void finishThread()
{
    flush(); Thr& t = th[self]; t.ended = true; t.op = ENDED; int left = 0; for (int i = 0; i < nth; i++) left += !th[i].ended;
    if (!left) { sem_post(&allDone); return; }
    int nx = pick(self, false); sem_post(&th[nx].sem);
}
static void* worker(void* p)
{
    Job* j = (Job*)p; waitSem(j->id); self = j->id; tnum = j->id; tsize = nth; j->fn(j->data); finishThread(); self = -1; return nullptr;
}
static struct { U key; long start, end, incr, chunk; } work[NT]; // last shared loop of a thread
static long workNo[NT];

static void region(void (*fn)(void*), void* data, int n)
{
    if (n > NT) n = NT;
    if (!vp_omp_on || n <= 1 || live) { int a = tnum, b = tsize; tnum = 0; tsize = 1; int c = busy; if (live) {} fn(data); busy = c; tnum = a; tsize = b; return; }
    nth = n; nobj = 0; wipe(); static Job jobs[NT]; sem_init(&allDone, 0, 0); memset(workNo, 0, sizeof workNo);
    for (int i = 0; i < n; i++) { Thr& t = th[i]; memset(&t, 0, sizeof t); sem_init(&t.sem, 0, 0); t.vc.c[i] = 1; t.h = mix(past, i + 1); t.op = START; t.key = 0; jobs[i] = {fn, data, i}; }
    for (int i = 1; i < n; i++) if (pthread_create(&th[i].p, nullptr, worker, &jobs[i])) stopWith(OMPSIM_BROKEN, "no thread");
    if (vp_omp->threads < n) vp_omp->threads = n;
    vp_omp->regions++; self = 0; tnum = 0; tsize = n; live = true;
    yield(START, 0); fn(data); finishThread();
    while (sem_wait(&allDone) && errno == EINTR) {}
    live = false; self = -1; tnum = 0; tsize = 1;
    for (int i = 1; i < n; i++) pthread_join(th[i].p, nullptr);
    for (int i = 0; i < n; i++) past = mix(past, th[i].h);
}
void vp_omp_init(OmpShared* s) { vp_omp = s; vp_omp_on = true; }

extern "C" {
// ---- OpenMP ----
static int teamSize(unsigned n) { return n ? (int)n : wanted ? wanted : vp_omp_threads; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn, data, teamSize(n)); }
void GOMP_critical_name_start(void** p) { if (ruled()) lock((U)p); }
void GOMP_critical_name_end(void** p) { if (ruled()) unlock((U)p); }
static char critical0, atomic0;
void GOMP_critical_start() { if (ruled()) lock((U)&critical0); }
void GOMP_critical_end() { if (ruled()) unlock((U)&critical0); }
void GOMP_atomic_start() { if (ruled()) lock((U)&atomic0); }
void GOMP_atomic_end() { if (ruled()) unlock((U)&atomic0); }
void GOMP_barrier() { if (ruled()) barrier(); }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
// shared loops: state per loop instance, numbered in the order each thread meets them
static Obj& loopObj() { return obj(0x100000 + workNo[self]); }
static bool loopNext(long* a, long* b)
{
    if (!ruled()) { auto& w = work[0]; if (w.incr > 0 ? w.start >= w.end : w.start <= w.end) return false; *a = w.start; *b = w.end; w.start = w.end; return true; }
    yield(WORK, 0x100000 + workNo[self]); Obj& o = loopObj(); order(o, 3); auto& w = work[self]; long i = o.next;
    long cnt = w.incr > 0 ? (w.end - w.start + w.incr - 1) / w.incr : (w.start - w.end - w.incr - 1) / -w.incr; if (i >= cnt) return false;
    long c = w.chunk > 0 ? w.chunk : 1; if (i + c > cnt) c = cnt - i; o.next = i + c; *a = w.start + i * w.incr; *b = w.start + (i + c) * w.incr; return true;
}
static bool loopStart(long s, long e, long inc, long chunk, long* a, long* b)
{ int t = ruled() ? self : 0; if (ruled()) workNo[self]++; work[t].start = s; work[t].end = e; work[t].incr = inc; work[t].chunk = chunk; return a ? loopNext(a, b) : true; }
#define LOOPS(X) X(dynamic) X(guided) X(runtime_) X(nonmonotonic_dynamic) X(nonmonotonic_guided) X(ordered_dynamic) X(ordered_guided)
#define DEF(N) bool GOMP_loop_##N##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); } bool GOMP_loop_##N##_next(long* a, long* b) { return loopNext(a, b); } \
 bool GOMP_loop_ull_##N##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return loopStart((long)s, (long)e, (long)i, (long)c, (long*)a, (long*)b); } bool GOMP_loop_ull_##N##_next(unsigned long long* a, unsigned long long* b) { return loopNext((long*)a, (long*)b); } \
 void GOMP_parallel_loop_##N(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { vp_parallel_loop(fn, d, n, s, e, i, c); }
struct PL { void (*fn)(void*); void* d; long s, e, i, c; };
static void plRun(void* p) { PL* q = (PL*)p; loopStart(q->s, q->e, q->i, q->c, nullptr, nullptr); q->fn(q->d); }
static void vp_parallel_loop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) { PL p{fn, d, s, e, i, c}; region(plRun, &p, teamSize(n)); }
LOOPS(DEF)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return loopNext(a, b); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { vp_parallel_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { vp_parallel_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { vp_parallel_loop(fn, d, n, s, e, i, c); }
void GOMP_loop_end() { if (ruled()) barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { if (ruled()) barrier(); return false; }
bool GOMP_single_start() { if (!ruled()) return true; workNo[self]++; yield(WORK, 0x100000 + workNo[self]); Obj& o = loopObj(); order(o, 4); return o.next++ == 0; }
static void* copyOut;
void* GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; barrier(); return copyOut; }
void GOMP_single_copy_end(void* d) { copyOut = d; if (ruled()) barrier(); }
unsigned GOMP_sections_next() { long a, b; return loopNext(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loopStart(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { vp_parallel_loop(fn, d, n, 1, (long)c + 1, 1, 1); }
void GOMP_sections_end() { if (ruled()) barrier(); }
void GOMP_sections_end_nowait() {}
// a task is carried out by the thread that creates it
void GOMP_task(void (*fn)(void*), void* d, void (*cp)(void*, void*), long size, long align, bool, unsigned, void**, int)
{ if (cp) { char* b = (char*)__real_malloc(size + align); char* q = (char*)(((U)b + align - 1) / align * align); cp(q, d); fn(q); __real_free(b); } else fn(d); }
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() {}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
int omp_get_thread_num() { return tnum; }
int omp_get_num_threads() { return tsize; }
int omp_get_max_threads() { return wanted ? wanted : vp_omp_threads; }
int omp_get_num_procs() { return vp_omp_threads; }
int omp_get_thread_limit() { return NT; }
int omp_in_parallel() { return tsize > 1; }
int omp_get_level() { return live; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_schedule(int, int) {}
void omp_set_num_threads(int n) { wanted = n < 1 ? 1 : n; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** p) { if (ruled()) lock((U)p); }
void omp_unset_lock(void** p) { if (ruled()) unlock((U)p); }
int omp_test_lock(void** p) { if (!ruled()) return 1; yield(ATOMIC, (U)p); Obj& o = obj((U)p); order(o, 5); if (o.owner >= 0) return 0; o.owner = self; acquire(o); return 1; }
// ---- mutexes, static variables ----
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (ruled()) { lock((U)m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (ruled()) { unlock((U)m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (ruled()) return omp_test_lock((void**)m) ? 0 : EBUSY; return __real_pthread_mutex_trylock(m); }
int __wrap___cxa_guard_acquire(char* g)
{
    if (!ruled()) return __real___cxa_guard_acquire(g);
    yield(GUARD, (U)g + 1); Obj& o = obj((U)g + 1); order(o, 6); acquire(o); if (*g) return 0; o.owner = self; return 1;
}
void __wrap___cxa_guard_release(char* g) { if (!ruled()) { __real___cxa_guard_release(g); return; } *g = 1; Obj& o = obj((U)g + 1); o.owner = -1; release(o); Obj& p = obj((U)g); join(p.vc, o.vc); p.h = mix(p.h, th[self].h); }
void __wrap___cxa_guard_abort(char* g) { if (!ruled()) { __real___cxa_guard_abort(g); return; } Obj& o = obj((U)g + 1); o.owner = -1; }
// ---- instrumentation ----
#define PC ((U)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { touch(p, N, 0, PC); } void __tsan_write##N(void* p) { touch(p, N, 1, PC); } void __tsan_unaligned_read##N(void* p) { touch(p, N, 0, PC); } void __tsan_unaligned_write##N(void* p) { touch(p, N, 1, PC); } void __tsan_volatile_read##N(void* p) { touch(p, N, 0, PC); } void __tsan_volatile_write##N(void* p) { touch(p, N, 1, PC); } void __tsan_unaligned_volatile_read##N(void* p) { touch(p, N, 0, PC); } void __tsan_unaligned_volatile_write##N(void* p) { touch(p, N, 1, PC); } void __tsan_read_write##N(void* p) { touch(p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { touch(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { touch(p, n, 1, PC); }
// the table pointer of an object under construction or destruction: only a change counts
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { touch(p, 8, 0, PC); }
static void at(volatile void* p, size_t n, int kind, int mo, U pc, bool acq, bool rel)
{
    if (!ruled()) return; yield(ATOMIC, (U)p); Obj& o = obj((U)p); if (kind) order(o, 9); else orderRead(o);
    flush(); touch((void*)p, n, kind | 2, pc); flush();
    if (acq && (mo == 1 || mo == 2 || mo >= 4)) acquire(o);
    if (rel && mo >= 3) release(o);
}
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T* p, int mo) { at((volatile void*)p, sizeof(T), 0, mo, PC, true, false); return *p; } \
 void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, false, true); *p = v; } \
 T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = o & v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = o | v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = o ^ v; return o; } \
 T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; *p = ~(o & v); return o; } \
 bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { at(p, sizeof(T), 1, mo, PC, true, true); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
 bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { at(p, sizeof(T), 1, mo, PC, true, true); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { at(p, sizeof(T), 1, mo, PC, true, true); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (ruled()) { yield(ATOMIC, 0x20); Obj& o = obj(0x20); order(o, 20); acquire(o); release(o); } }
void __tsan_atomic_signal_fence(int) {}
int sched_yield() { if (ruled()) yield(SPIN, 0); return 0; }
// ---- memory ----
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch(s, n, 0, PC); touch(d, n, 1, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch(s, n, 0, PC); touch(d, n, 1, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch(d, n, 1, PC); return __real_memset(d, c, n); }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); forget(p, n, false, PC); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); forget(p, a * b, false, PC); return p; }
void* __wrap_realloc(void* q, size_t n) { if (q) forget(q, malloc_usable_size(q), true, PC); void* p = __real_realloc(q, n); forget(p, n, false, PC); return p; }
void __wrap_free(void* p) { if (p) forget(p, malloc_usable_size(p), true, PC); __real_free(p); }
}
static void* news(size_t n, U pc) { void* p = __real_malloc(n ? n : 1); if (!p) { fprintf(stderr, "out of memory\n"); abort(); } forget(p, n, false, pc); return p; }
static void dels(void* p, U pc) { if (p) { forget(p, malloc_usable_size(p), true, pc); __real_free(p); } }
void* operator new(size_t n) { return news(n, PC); }
void* operator new[](size_t n) { return news(n, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return news(n, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return news(n, PC); }
void operator delete(void* p) noexcept { dels(p, PC); }
void operator delete[](void* p) noexcept { dels(p, PC); }
void operator delete(void* p, size_t) noexcept { dels(p, PC); }
void operator delete[](void* p, size_t) noexcept { dels(p, PC); }
