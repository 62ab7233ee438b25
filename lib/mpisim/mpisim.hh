// Model checker for MPI programs.  The ranks are processes that run the real
// code; every MPI call is a message to the controller, which explores each
// choice the standard leaves open: which sender a wildcard receive or probe
// gets, whether a standard-mode send waits for its receiver, when a rank that
// only contributes to a collective goes on, what a non-blocking test finds.
// Calls whose outcome is determined are carried out first (they commute with
// everything else); choices are only made once every rank is blocked.
#ifndef VP_MPISIM_HH
#define VP_MPISIM_HH
#include "mpi.h"
#include "vp.hh"
#include <poll.h>
#include <cerrno>
#include <sys/socket.h>
#include <signal.h>
#include <list>
#include <deque>
namespace mpisim
{
enum Op { INIT = 1, FINAL, ABORT, SEND, ISEND, RECV, IRECV, PROBE, IPROBE, WAITALL, WAITANY, TESTALL, COLL, SENDRECV };
enum Mode { STANDARD, SYNC, BUFFERED, READY };
enum Kind { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, GATHER, ALLGATHER, SCATTER, DUP };
static const char* opName[] = {"", "MPI_Init", "MPI_Finalize", "MPI_Abort", "MPI_Send", "MPI_Isend", "MPI_Recv", "MPI_Irecv", "MPI_Probe", "MPI_Iprobe", "MPI_Wait", "MPI_Waitany", "MPI_Test", "collective", "MPI_Sendrecv"};
static const char* kindName[] = {"", "MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Gather", "MPI_Allgather", "MPI_Scatter", "MPI_Comm_dup"};
struct Req { int op, peer, tag, comm, mode, id, root, red, type, rtag, rpeer; long bytes, cap; size_t load; };
struct Rep { int source, tag, flag, id; long bytes; size_t load; };

// ---------------- the ranks' side ----------------
inline int& fd() { static int f = -1; return f; }
inline int& me() { static int r = 0; return r; }
inline int& np() { static int n = 1; return n; }
inline void put(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = ::send(fd(), c, n, MSG_NOSIGNAL); if (k <= 0) _exit(97); c += k; n -= k; } }
inline bool get(int f, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = ::read(f, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
inline Rep call(Req q, const void* load, std::string& back)
{
    put(&q, sizeof q); if (q.load) put(load, q.load);
    Rep r; if (!get(fd(), &r, sizeof r)) _exit(97);
    back.resize(r.load); if (r.load && !get(fd(), &back[0], r.load)) _exit(97);
    return r;
}
inline Req req(int op) { Req q; memset(&q, 0, sizeof q); q.op = op; q.rpeer = MPI_PROC_NULL; return q; }
inline size_t tsize(MPI_Datatype t) { return t % 256; }
inline void stat(MPI_Status* s, const Rep& r) { if (s) { s->MPI_SOURCE = r.source; s->MPI_TAG = r.tag; s->MPI_ERROR = 0; s->vp_bytes = r.bytes; } }
struct Pend { bool recv; void* buf; size_t cap; };
inline std::map<int, Pend>& pend() { static std::map<int, Pend> m; return m; }
inline int nextId() { static int n = 0; return ++n; }
inline bool& inited() { static bool b = false; return b; }
inline bool& finalled() { static bool b = false; return b; }
// a rank's process: connect, run, leave
struct Done { int source, tag; long bytes; size_t load; };

// ---------------- the controller ----------------
struct Msg { int src, dst, tag, comm, mode; std::string data; int id; bool blocking; };   // id: request of the sender, 0 for a blocking send
struct Post { int dst, src, tag, comm; long cap; int id; bool sendrecv; };                   // id 0: blocking receive
struct Rank
{
    pid_t pid = -1; int fd = -1; bool blocked = false, ended = false, left = false, early = false; int status = 0; Req q; std::string load;
    std::map<int, Rep> done; std::map<int, std::string> data; std::set<int> open; bool sent = false, got = false; Rep grep; std::string gdata; int polls = 0, spins = 0; uint64_t h = 7; long ncoll = 0; bool finalized = false, inited = false;
};
struct Result { std::string error; bool pruned = false; long steps = 0; std::vector<std::string> trace; };
// 0: every schedule; 1 to 3: one schedule that always makes the first, the last or a changing one of the possible moves
inline int& fixedOrder() { static int f = 0; return f; }
struct Sim
{
    int n; vp::Choices* c; std::set<uint64_t>* seen; double limit = 60; bool early = true; std::vector<Rank> r; std::list<Msg> msgs; std::list<Post> posts; Result res; uint64_t salt = 0; unsigned steps = 0;
    static void up(uint64_t& h, const void* p, size_t k) { h = vp::hash(p, k, h * 31 + k); }
    bool err(const std::string& s) { if (res.error.empty()) res.error = s; return false; }
    void reply(int i, Rep p, const std::string& data)
    {
        Rank& k = r[i]; p.load = data.size(); up(k.h, &p, sizeof p); up(k.h, data.data(), data.size()); k.blocked = false;
        ssize_t w = ::send(k.fd, &p, sizeof p, MSG_NOSIGNAL); (void)w; const char* d = data.data(); size_t m = data.size();
        while (m) { ssize_t x = ::send(k.fd, d, m, MSG_NOSIGNAL); if (x <= 0) break; d += x; m -= x; }
        res.steps++;
    }
    static Rep rep() { Rep p; memset(&p, 0, sizeof p); return p; }
    std::string say(int i) const
    {
        const Rank& k = r[i]; if (k.ended) return vp::fmt("rank %d has ended", i); const Req& q = k.q;
        if (q.op == COLL) return vp::fmt("rank %d is in %s", i, kindName[q.mode]);
        if (q.op == FINAL || q.op == WAITALL || q.op == WAITANY) return vp::fmt("rank %d is in %s", i, opName[q.op]);
        return vp::fmt("rank %d is in %s %s %s, tag %d", i, opName[q.op], q.op == SEND ? "to" : "from", q.peer < 0 ? "any" : std::to_string(q.peer).c_str(), q.tag);
    }
    bool start(const std::function<int(int)>& body)
    {
        r.resize(n);
        for (int i = 0; i < n; i++)
        {
            int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return err("socketpair"); fflush(0);
            pid_t p = fork();
            if (p == 0)
            {
                close(s[0]); for (int k = 0; k < i; k++) close(r[k].fd);
                fd() = s[1]; me() = i; np() = n; alarm((unsigned)limit + 30); int x = body(i); fflush(0); _exit(x);
            }
            close(s[1]); r[i].pid = p; r[i].fd = s[0];
        }
        return true;
    }
    void stop()
    {
        for (auto& k : r) if (k.pid > 0) { if (!k.ended) { kill(k.pid, SIGKILL); int w; while (waitpid(k.pid, &w, 0) < 0 && errno == EINTR) {} } close(k.fd); k.pid = -1; }
    }
    // reads one request of rank i; false: error
    bool read1(int i)
    {
        Rank& k = r[i];
        if (!get(k.fd, &k.q, sizeof k.q))
        {
            int w; while (waitpid(k.pid, &w, 0) < 0 && errno == EINTR) {} k.ended = true; k.status = w; up(k.h, "end", 3);
            if (WIFSIGNALED(w)) return err(WTERMSIG(w) == SIGALRM ? vp::fmt("rank %d does not finish", i) : vp::fmt("rank %d is ended by signal %d", i, WTERMSIG(w)));
            if (WEXITSTATUS(w)) return err(vp::fmt("rank %d ends with status %d", i, WEXITSTATUS(w)));
            if (k.inited && !k.finalized) return err(vp::fmt("rank %d ends without MPI_Finalize", i));
            return true;
        }
        k.load.resize(k.q.load); if (k.q.load && !get(k.fd, &k.load[0], k.q.load)) return err(vp::fmt("rank %d breaks off", i));
        up(k.h, &k.q, sizeof k.q); up(k.h, k.load.data(), k.load.size()); k.blocked = true; k.sent = k.got = k.early = false; vp::transition();
        const Req& q = k.q;
        auto peer = [&](int p, bool any) { if (p == MPI_PROC_NULL) return true; if (any && p == MPI_ANY_SOURCE) return true; return p >= 0 && p < n; };
        if (k.finalized) return err(vp::fmt("rank %d calls MPI after MPI_Finalize", i));
        if (q.op != INIT && !k.inited) return err(vp::fmt("rank %d calls MPI before MPI_Init", i));
        switch (q.op)
        {
        case INIT: if (k.inited) return err("MPI_Init twice"); k.inited = true; reply(i, rep(), ""); break;
        case ABORT: return err(vp::fmt("rank %d calls MPI_Abort", i));
        case ISEND:
            if (!peer(q.peer, false)) return err(vp::fmt("rank %d sends to rank %d", i, q.peer));
            if (q.peer == MPI_PROC_NULL) k.done[q.id] = rep(); else msgs.push_back(Msg{i, q.peer, q.tag, q.comm, q.mode, k.load, q.id, false});
            k.open.insert(q.id); reply(i, rep(), ""); break;
        case IRECV:
            if (!peer(q.peer, true)) return err(vp::fmt("rank %d receives from rank %d", i, q.peer));
            if (q.peer == MPI_PROC_NULL) { Rep p = rep(); p.source = MPI_PROC_NULL; k.done[q.id] = p; } else posts.push_back(Post{i, q.peer, q.tag, q.comm, q.cap, q.id, false});
            k.open.insert(q.id); reply(i, rep(), ""); break;
        case SEND: case SENDRECV:
            if (!peer(q.peer, false)) return err(vp::fmt("rank %d sends to rank %d", i, q.peer));
            if (q.peer == MPI_PROC_NULL) k.sent = true; else msgs.push_back(Msg{i, q.peer, q.tag, q.comm, q.mode, k.load, 0, true});
            if (q.op == SENDRECV) posts.push_back(Post{i, q.rpeer, q.rtag, q.comm, q.cap, 0, true});
            if (q.op == SEND && k.sent) reply(i, rep(), "");
            break;
        case RECV:
            if (!peer(q.peer, true)) return err(vp::fmt("rank %d receives from rank %d", i, q.peer));
            if (q.peer == MPI_PROC_NULL) { Rep p = rep(); p.source = MPI_PROC_NULL; reply(i, p, ""); } else posts.push_back(Post{i, q.peer, q.tag, q.comm, q.cap, 0, false});
            break;
        case PROBE: if (!peer(q.peer, true)) return err(vp::fmt("rank %d probes rank %d", i, q.peer)); break;
        case COLL: if (q.root < 0 || q.root >= n) return err(vp::fmt("%s with root %d", kindName[q.mode], q.root)); k.ncoll++; break;
        default: break;
        }
        return true;
    }
    // rank after rank, so that a schedule replays the same way every time
    bool settle()
    {
        for (int i = 0; i < n; i++)
            while (!r[i].blocked && !r[i].ended)
            {
                pollfd p{r[i].fd, POLLIN, 0}; int x = poll(&p, 1, (int)(limit * 1000)); if (x < 0) continue;
                if (x == 0) return err(vp::fmt("rank %d neither calls MPI nor finishes", i));
                if (!read1(i)) return false;
            }
        return true;
    }
    static bool fits(const Msg& m, int src, int tag, int comm) { return m.comm == comm && (src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag); }
    // first message per source that fits, in order of sending (messages of one source do not overtake)
    std::vector<std::list<Msg>::iterator> cand(int dst, int src, int tag, int comm)
    {
        std::vector<std::list<Msg>::iterator> v; std::set<int> had;
        for (auto m = msgs.begin(); m != msgs.end(); ++m) if (m->dst == dst && fits(*m, src, tag, comm) && had.insert(m->src).second) v.push_back(m);
        return v;
    }
    // may this posted receive take the message now: no earlier one of the same rank wants it
    bool first(std::list<Post>::iterator p, const Msg& m)
    {
        for (auto q = posts.begin(); q != p; ++q) if (q->dst == p->dst && fits(m, q->src, q->tag, q->comm)) return false;
        return true;
    }
    void sendDone(const Msg& m)
    {
        Rank& k = r[m.src];
        if (m.id < 0) return;
        if (m.id) { k.done[m.id] = rep(); return; }
        if (!m.blocking) return;
        k.sent = true; if (k.q.op == SEND) reply(m.src, rep(), ""); else if (k.got) finishSR(m.src);
    }
    void finishSR(int i) { Rep p = r[i].grep; std::string d = r[i].gdata; reply(i, p, d); }
    bool match(std::list<Post>::iterator p, std::list<Msg>::iterator mi)
    {
        Post q = *p; Msg m = *mi; posts.erase(p); msgs.erase(mi);
        res.trace.push_back(vp::fmt("%d>%d t%d %zu bytes", m.src, m.dst, m.tag, m.data.size()));
        if ((long)m.data.size() > q.cap) return err(vp::fmt("message of %zu bytes from rank %d (tag %d) is truncated to %ld bytes by rank %d", m.data.size(), m.src, m.tag, q.cap, m.dst));
        Rep a = rep(); a.source = m.src; a.tag = m.tag; a.bytes = m.data.size(); Rank& k = r[q.dst];
        if (q.id) { k.done[q.id] = a; k.data[q.id] = m.data; }
        else if (q.sendrecv) { k.got = true; k.grep = a; k.gdata = m.data; if (k.sent) finishSR(q.dst); }
        else reply(q.dst, a, m.data);
        sendDone(m); return true;
    }
    bool waitDone(int i)
    {
        Rank& k = r[i]; const int* ids = (const int*)k.load.data(); int m = k.load.size() / sizeof(int); std::vector<int> fin;
        for (int j = 0; j < m; j++) if (k.done.count(ids[j])) fin.push_back(j);
        if (k.q.op == WAITALL || k.q.op == TESTALL) { if ((int)fin.size() < m) return false; answer(i, fin); return true; }
        if (fin.size() == 1) { answer(i, fin); return true; }
        return false;
    }
    void answer(int i, const std::vector<int>& which)
    {
        Rank& k = r[i]; std::vector<int> ids((const int*)k.load.data(), (const int*)k.load.data() + k.load.size() / sizeof(int)); std::string d; Rep a = rep(); a.flag = 1; a.id = which.empty() ? -1 : which[0];
        for (int j : which)
        {
            Rep x = k.done[ids[j]]; std::string& b = k.data[ids[j]]; Done e{x.source, x.tag, x.bytes, b.size()}; d.append((char*)&e, sizeof e); d += b;
            k.done.erase(ids[j]); k.data.erase(ids[j]); k.open.erase(ids[j]);
        }
        k.spins = 0; k.polls = 0; reply(i, a, d);
    }
    bool combine(std::string& a, const std::string& b, int type, int op)
    {
        if (a.size() != b.size()) return false; size_t z = type % 256, m = z ? a.size() / z : 0;
        #define VP_RED(T) { T* x = (T*)&a[0]; const T* y = (const T*)b.data(); for (size_t i = 0; i < m; i++) x[i] = red<T>(x[i], y[i], op); return true; }
        switch (type) { case MPI_CHAR: VP_RED(signed char) case MPI_BYTE: VP_RED(unsigned char) case MPI_SHORT: VP_RED(short) case MPI_UNSIGNED_SHORT: VP_RED(unsigned short) case MPI_INT: VP_RED(int) case MPI_UNSIGNED: VP_RED(unsigned)
            case MPI_LONG: VP_RED(long) case MPI_UNSIGNED_LONG: VP_RED(unsigned long) case MPI_FLOAT: VP_RED(float) case MPI_DOUBLE: VP_RED(double) }
        return false;
    }
    template <class T> static T red(T a, T b, int op)
    { switch (op) { case MPI_SUM: return a + b; case MPI_MAX: return a > b ? a : b; case MPI_MIN: return a < b ? a : b; case MPI_PROD: return a * b; case MPI_LAND: return a && b; case MPI_LOR: return a || b; case MPI_BAND: return (T)((long)a & (long)b); case MPI_BOR: return (T)((long)a | (long)b); } return a; }
    std::map<long, std::vector<std::pair<int, std::pair<Req, std::string>>>> gone;   // contributions of ranks that went on early
    // a collective all ranks have reached
    bool collective(bool& moved)
    {
        // the collective of lowest number not complete
        long lo = -1; for (int i = 0; i < n; i++) if (lo < 0 || colNext[i] < lo) lo = colNext[i];
        std::vector<Req> q(n); std::vector<std::string> d(n); std::vector<bool> early(n, false);
        for (auto& e : gone[lo]) { q[e.first] = e.second.first; d[e.first] = e.second.second; early[e.first] = true; }
        for (int i = 0; i < n; i++) if (!early[i]) { if (!(r[i].blocked && r[i].q.op == COLL && colNext[i] == lo)) { for (int j = 0; j < n; j++) if (!early[j] && j != i && r[j].blocked && r[j].q.op == COLL && colNext[j] == lo && r[i].ended) return err(vp::fmt("rank %d is in %s, rank %d has ended", j, kindName[r[j].q.mode], i)); return true; } q[i] = r[i].q; d[i] = r[i].load; }
        gone.erase(lo); moved = true;
        for (int i = 1; i < n; i++) if (q[i].mode != q[0].mode || q[i].comm != q[0].comm) return err(vp::fmt("rank 0 is in %s, rank %d in %s", kindName[q[0].mode], i, kindName[q[i].mode])); else if (q[i].root != q[0].root || (q[i].mode == REDUCE && q[i].red != q[0].red)) return err(vp::fmt("%s with different roots or operations", kindName[q[0].mode]));
        std::string all, sum = d[0]; std::vector<long> sz(n); for (int i = 0; i < n; i++) { sz[i] = d[i].size(); all += d[i]; }
        int K = q[0].mode, root = q[0].root;
        if (K == REDUCE || K == ALLREDUCE) for (int i = 1; i < n; i++) if (!combine(sum, d[i], q[0].type, q[0].red)) return err(vp::fmt("%s over %zu and %zu bytes", kindName[K], sum.size(), d[i].size()));
        res.trace.push_back(kindName[K]);
        for (int i = 0; i < n; i++)
        {
            colNext[i] = lo + 1; if (early[i]) continue; Rep a = rep(); std::string out;
            if (K == BCAST) { out = d[root]; if (q[i].cap >= 0 && i != root && (long)out.size() != q[i].cap) return err(vp::fmt("MPI_Bcast of %zu bytes into %ld", out.size(), q[i].cap)); }
            else if (K == ALLREDUCE || (K == REDUCE && i == root)) out = sum;
            else if (K == ALLGATHER || (K == GATHER && i == root)) { out.assign((char*)sz.data(), n * sizeof(long)); out += all; }
            else if (K == SCATTER) { size_t z = d[root].size() / n; out = d[root].substr(i * z, z); if ((long)z != q[i].cap) return err(vp::fmt("MPI_Scatter of %zu bytes into %ld", z, q[i].cap)); }
            reply(i, a, out);
        }
        return true;
    }
    std::vector<long> colNext;
    uint64_t state()
    {
        uint64_t h = salt;
        for (auto& k : r) { up(h, &k.h, 8); int f = k.blocked + 2 * k.ended + 4 * k.sent + 8 * k.got + 16 * k.early; up(h, &f, 4); up(h, &k.spins, 4); up(h, &k.polls, 4); for (auto& d : k.done) up(h, &d.first, 4); }
        // order of messages matters per pair of ranks only
        std::vector<std::string> m; for (auto& x : msgs) { int a[6] = {x.src, x.dst, x.tag, x.comm, x.id, x.blocking}; m.push_back(std::string((char*)a, 8) + std::string((char*)a, sizeof a) + x.data); }
        std::stable_sort(m.begin(), m.end(), [](const std::string& a, const std::string& b) { return memcmp(a.data(), b.data(), 8) < 0; });
        for (auto& x : m) up(h, x.data(), x.size());
        for (int i = 0; i < n; i++) for (auto& p : posts) if (p.dst == i) { int a[5] = {p.dst, p.src, p.tag, p.comm, p.id}; up(h, a, sizeof a); }
        for (auto& g : gone) for (auto& e : g.second) { long a[2] = {g.first, e.first}; up(h, a, sizeof a); }
        return h;
    }
    // runs to the end of all ranks, an error, or a state seen before
    bool loop()
    {
        colNext.assign(n, 0);
        for (;;)
        {
            if (!settle()) return false;
            bool moved = false;
            // determined moves
            for (auto p = posts.begin(); p != posts.end() && !moved; ++p)
            {
                if (p->src == MPI_ANY_SOURCE) continue; auto v = cand(p->dst, p->src, p->tag, p->comm);
                if (v.size() && first(p, *v[0])) { moved = true; if (!match(p, v[0])) return false; break; }
            }
            for (int i = 0; i < n && !moved; i++)
            {
                Rank& k = r[i]; if (!k.blocked) continue;
                if (k.q.op == PROBE && k.q.peer != MPI_ANY_SOURCE) { auto v = cand(i, k.q.peer, k.q.tag, k.q.comm); if (v.size()) { Rep a = rep(); a.source = v[0]->src; a.tag = v[0]->tag; a.bytes = v[0]->data.size(); a.flag = 1; reply(i, a, ""); moved = true; } }
                else if ((k.q.op == WAITALL || k.q.op == WAITANY || k.q.op == TESTALL) && waitDone(i)) moved = true;
            }
            if (!moved && !collective(moved)) return false;
            if (!moved)
            {   // all at MPI_Finalize
                int f = 0, e = 0; for (auto& k : r) { f += k.blocked && k.q.op == FINAL; e += k.ended; }
                if (e == n) { for (auto& m : msgs) return err(vp::fmt("the message of rank %d to rank %d (tag %d, %zu bytes) is never received", m.src, m.dst, m.tag, m.data.size())); return true; }
                if (f && f + e == n && e == 0)
                {
                    for (auto& m : msgs) return err(vp::fmt("the message of rank %d to rank %d (tag %d, %zu bytes) is never received", m.src, m.dst, m.tag, m.data.size()));
                    for (auto& p : posts) return err(vp::fmt("rank %d ends with a receive (tag %d) still open", p.dst, p.tag));
                    for (int i = 0; i < n; i++) if (r[i].open.size()) return err(vp::fmt("rank %d ends with a request it never waited for", i));
                    for (int i = 0; i < n; i++) { r[i].finalized = true; reply(i, rep(), ""); } moved = true;
                }
            }
            if (moved) continue;
            // choices
            struct Option { int kind, rank; std::list<Post>::iterator p; std::list<Msg>::iterator m; int k; };
            std::vector<Option> o; bool real = false;
            for (auto p = posts.begin(); p != posts.end(); ++p) for (auto m : cand(p->dst, p->src, p->tag, p->comm)) if (first(p, *m)) { o.push_back({0, p->dst, p, m, 0}); real = true; }
            for (int i = 0; i < n; i++)
            {
                Rank& k = r[i]; if (!k.blocked) continue;
                if (k.q.op == PROBE || k.q.op == IPROBE) { auto v = cand(i, k.q.peer, k.q.tag, k.q.comm); for (auto m : v) { o.push_back({1, i, posts.end(), m, 0}); real = true; } if (k.q.op == IPROBE && v.size() && k.polls < 1) o.push_back({2, i, posts.end(), msgs.end(), 0}); }
                if (k.q.op == WAITANY) { const int* ids = (const int*)k.load.data(); for (size_t j = 0; j < k.load.size() / sizeof(int); j++) if (k.done.count(ids[j])) { o.push_back({3, i, posts.end(), msgs.end(), (int)j}); real = true; } }
            }
            if (early) for (auto m = msgs.begin(); m != msgs.end(); ++m)
                {
                    if (m->mode == SYNC) continue; Rank& k = r[m->src];
                    if (m->id > 0 || (m->id == 0 && m->blocking && !k.sent)) { o.push_back({4, m->src, posts.end(), m, 0}); }
                }
            if (early) for (int i = 0; i < n; i++)
                {
                    Rank& k = r[i]; if (!k.blocked || k.q.op != COLL) continue; int K = k.q.mode; bool can = ((K == BCAST || K == SCATTER) && i == k.q.root) || ((K == REDUCE || K == GATHER) && i != k.q.root);
                    long lo = colNext[0]; for (long x : colNext) lo = std::min(lo, x);
                    if (can && colNext[i] == lo) { o.push_back({5, i, posts.end(), msgs.end(), 0}); }
                }
            // nothing to be found: polling goes on, alone only so often
            for (int i = 0; i < n; i++) { Rank& k = r[i]; if (!k.blocked || !(k.q.op == IPROBE || k.q.op == TESTALL)) continue; if (k.q.op == IPROBE && cand(i, k.q.peer, k.q.tag, k.q.comm).size()) continue; if (k.spins < (real ? 1 : 40)) o.push_back({2, i, posts.end(), msgs.end(), 0}); }
            // sends need not be buffered and collectives may wait for all: what goes on only thanks to that is stuck
            for (auto& x : o) if (x.kind < 4) real = true;
            if (!real)
            {
                std::string s = "dead-lock: "; for (int i = 0; i < n; i++) s += (i ? ", " : "") + say(i); return err(s);
            }
            size_t w = 0;
            if (o.size() > 1 && fixedOrder()) { vp::state(state()); w = fixedOrder() == 1 ? 0 : fixedOrder() == 2 ? o.size() - 1 : (size_t)(steps++ * 7 + 3) % o.size(); }
            else if (o.size() > 1)
            {
                if (c->pos >= c->path.size()) { uint64_t h = state(); vp::state(h); if (!seen->insert(h).second) { res.pruned = true; return true; } }
                w = c->choose((int)o.size());
            }
            Option& x = o[w]; vp::transition(); Rank& k = r[x.rank];
            for (auto& q : r) if (x.kind != 2) q.spins = 0;
            switch (x.kind)
            {
            case 0: if (!match(x.p, x.m)) return false; break;
            case 1: { Rep a = rep(); a.source = x.m->src; a.tag = x.m->tag; a.bytes = x.m->data.size(); a.flag = 1; k.polls = 0; reply(x.rank, a, ""); break; }
            case 2: { k.polls++; k.spins++; Rep a = rep(); reply(x.rank, a, ""); break; }
            case 3: answer(x.rank, {x.k}); break;
            case 4: sendDone(*x.m); break;   // the message is on its way, its sender goes on
            case 5: gone[colNext[x.rank]].push_back({x.rank, {k.q, k.load}}); colNext[x.rank]++; reply(x.rank, rep(), ""); break;
            }
            if (x.kind == 4) { x.m->blocking = false; if (x.m->id) x.m->id = -1; }
        }
    }
};
// Explores every schedule of n ranks running body; after each complete one
// check() looks at what was left behind.  Returns the first error.
struct Stats { long schedules = 0, complete = 0; };
inline std::string explore(int n, const std::function<int(int)>& body, const std::function<std::string()>& before, const std::function<std::string()>& check, Stats& st, double limit = 60, bool early = true, std::string only = "")
{
    vp::Choices c; std::set<uint64_t> seen;
    do
    {
        c.start(); std::string e = before ? before() : ""; if (e.size()) return e;
        Sim s; s.n = n; s.c = &c; s.seen = &seen; s.limit = limit; s.early = early; s.salt = vp::hash(vp::st().key);
        if (s.start(body)) s.loop();
        s.stop(); st.schedules++;
        if (s.res.error.size())
        {
            std::string t; size_t b = s.res.trace.size() > 12 ? s.res.trace.size() - 12 : 0; for (size_t i = b; i < s.res.trace.size(); i++) t += (t.empty() ? "" : ", ") + s.res.trace[i];
            return s.res.error + " (choices " + c.str() + "; last moves: " + t + ")";
        }
        if (!s.res.pruned) { st.complete++; e = check(); vp::trace(); if (e.size()) return e + " (choices " + c.str() + ")"; }
        if (vp::late()) { vp::count("explorations_cut_short"); return ""; }
    } while (c.next());
    return "";
}
}
// ---------------- the MPI functions ----------------
using mpisim::Req; using mpisim::Rep;
extern "C" {
static int vp_mpi_simple(int op) { std::string b; mpisim::call(mpisim::req(op), NULL, b); return MPI_SUCCESS; }
int MPI_Init(int*, char***) { mpisim::inited() = true; return vp_mpi_simple(mpisim::INIT); }
int MPI_Init_thread(int*, char***, int want, int* got) { mpisim::inited() = true; if (got) *got = want; return vp_mpi_simple(mpisim::INIT); }
int MPI_Finalize() { mpisim::finalled() = true; return vp_mpi_simple(mpisim::FINAL); }
int MPI_Initialized(int* f) { *f = mpisim::inited(); return 0; }
int MPI_Finalized(int* f) { *f = mpisim::finalled(); return 0; }
int MPI_Abort(MPI_Comm, int c) { vp_mpi_simple(mpisim::ABORT); _exit(c ? c : 1); }
double MPI_Wtime() { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : mpisim::me(); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == MPI_COMM_SELF ? 1 : mpisim::np(); return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "vp"); *n = 2; return 0; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = t % 256; return 0; }
static int vp_mpi_send(int mode, const void* b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c)
{ Req q = mpisim::req(mpisim::SEND); q.mode = mode; q.peer = peer; q.tag = tag; q.comm = c; q.load = n * mpisim::tsize(t); q.bytes = q.load; std::string back; mpisim::call(q, b, back); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { return vp_mpi_send(mpisim::STANDARD, b, n, t, p, tag, c); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { return vp_mpi_send(mpisim::SYNC, b, n, t, p, tag, c); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { return vp_mpi_send(mpisim::BUFFERED, b, n, t, p, tag, c); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { return vp_mpi_send(mpisim::READY, b, n, t, p, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status* s)
{ Req q = mpisim::req(mpisim::RECV); q.peer = p; q.tag = tag; q.comm = c; q.cap = n * mpisim::tsize(t); std::string back; Rep r = mpisim::call(q, NULL, back); memcpy(b, back.data(), back.size()); mpisim::stat(s, r); return 0; }
int MPI_Probe(int p, int tag, MPI_Comm c, MPI_Status* s) { Req q = mpisim::req(mpisim::PROBE); q.peer = p; q.tag = tag; q.comm = c; std::string back; Rep r = mpisim::call(q, NULL, back); mpisim::stat(s, r); return 0; }
int MPI_Iprobe(int p, int tag, MPI_Comm c, int* f, MPI_Status* s) { Req q = mpisim::req(mpisim::IPROBE); q.peer = p; q.tag = tag; q.comm = c; std::string back; Rep r = mpisim::call(q, NULL, back); *f = r.flag; if (r.flag) mpisim::stat(s, r); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { size_t z = mpisim::tsize(t); *n = s->vp_bytes % z ? MPI_UNDEFINED : (int)(s->vp_bytes / z); return 0; }
int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int p, int tag, void* rb, int rn, MPI_Datatype rt, int rp, int rtag, MPI_Comm c, MPI_Status* s)
{ Req q = mpisim::req(mpisim::SENDRECV); q.peer = p; q.tag = tag; q.comm = c; q.load = n * mpisim::tsize(t); q.rpeer = rp; q.rtag = rtag; q.cap = rn * mpisim::tsize(rt); std::string back; Rep r = mpisim::call(q, b, back); memcpy(rb, back.data(), back.size()); mpisim::stat(s, r); return 0; }
static int vp_mpi_isend(int mode, const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r)
{ Req q = mpisim::req(mpisim::ISEND); q.mode = mode; q.peer = p; q.tag = tag; q.comm = c; q.load = n * mpisim::tsize(t); q.id = mpisim::nextId(); std::string back; mpisim::call(q, b, back); *r = q.id; mpisim::pend()[q.id] = {false, NULL, 0}; return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { return vp_mpi_isend(mpisim::STANDARD, b, n, t, p, tag, c, r); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { return vp_mpi_isend(mpisim::SYNC, b, n, t, p, tag, c, r); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r)
{ Req q = mpisim::req(mpisim::IRECV); q.peer = p; q.tag = tag; q.comm = c; q.cap = n * mpisim::tsize(t); q.id = mpisim::nextId(); std::string back; mpisim::call(q, NULL, back); *r = q.id; mpisim::pend()[q.id] = {true, b, (size_t)q.cap}; return 0; }
static int vp_mpi_wait(int op, int n, MPI_Request* rs, MPI_Status* ss, int* idx)
{
    std::vector<int> ids, at; for (int i = 0; i < n; i++) if (rs[i] != MPI_REQUEST_NULL) { ids.push_back(rs[i]); at.push_back(i); }
    if (ids.empty()) { if (idx) *idx = MPI_UNDEFINED; return 1; }
    Req q = mpisim::req(op); q.load = ids.size() * sizeof(int); std::string back; Rep r = mpisim::call(q, ids.data(), back);
    if (!r.flag) return 0;
    size_t pos = 0; int first = op == mpisim::WAITANY ? r.id : 0, m = op == mpisim::WAITANY ? 1 : (int)ids.size();
    for (int j = 0; j < m; j++)
    {
        int k = first + j; mpisim::Done d; memcpy(&d, back.data() + pos, sizeof d); pos += sizeof d; mpisim::Pend& p = mpisim::pend()[ids[k]];
        if (p.recv && d.load) memcpy(p.buf, back.data() + pos, d.load);
        pos += d.load; mpisim::pend().erase(ids[k]); rs[at[k]] = MPI_REQUEST_NULL; Rep x; x.source = d.source; x.tag = d.tag; x.bytes = d.bytes;
        if (ss) mpisim::stat(op == mpisim::WAITANY ? ss : &ss[at[k]], x); if (idx) *idx = at[k];
    }
    return 1;
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) { vp_mpi_wait(mpisim::WAITALL, 1, r, s, NULL); return 0; }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) { vp_mpi_wait(mpisim::WAITALL, n, r, s, NULL); return 0; }
int MPI_Waitany(int n, MPI_Request* r, int* i, MPI_Status* s) { vp_mpi_wait(mpisim::WAITANY, n, r, s, i); return 0; }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { *f = vp_mpi_wait(mpisim::TESTALL, 1, r, s, NULL); return 0; }
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s) { *f = vp_mpi_wait(mpisim::TESTALL, n, r, s, NULL); return 0; }
static std::string vp_mpi_coll(int kind, MPI_Comm c, const void* b, size_t load, int root = 0, long cap = -1, int type = 0, int op = 0)
{
    if (c == MPI_COMM_SELF) return std::string();
    Req q = mpisim::req(mpisim::COLL); q.mode = kind; q.comm = c; q.load = load; q.root = root; q.cap = cap; q.type = type; q.red = op; std::string back; mpisim::call(q, b, back); return back;
}
int MPI_Barrier(MPI_Comm c) { vp_mpi_coll(mpisim::BARRIER, c, NULL, 0); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { static int k = 100; if (c != MPI_COMM_SELF) vp_mpi_coll(mpisim::DUP, c, NULL, 0); *d = c == MPI_COMM_SELF ? c : ++k; return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{ size_t z = n * mpisim::tsize(t); bool me = mpisim::me() == root; std::string r = vp_mpi_coll(mpisim::BCAST, c, b, me ? z : 0, root, z); if (!me) memcpy(b, r.data(), r.size()); return 0; }
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{ size_t z = n * mpisim::tsize(t); if (s == MPI_IN_PLACE) s = d; if (c == MPI_COMM_SELF) { if (s != d) memcpy(d, s, z); return 0; } std::string r = vp_mpi_coll(mpisim::REDUCE, c, s, z, root, -1, t, op); if (mpisim::me() == root) memcpy(d, r.data(), r.size()); return 0; }
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ size_t z = n * mpisim::tsize(t); if (s == MPI_IN_PLACE) s = d; if (c == MPI_COMM_SELF) { if (s != d) memcpy(d, s, z); return 0; } std::string r = vp_mpi_coll(mpisim::ALLREDUCE, c, s, z, 0, -1, t, op); memcpy(d, r.data(), r.size()); return 0; }
// spread the gathered pieces; a rank's piece must be as long as its place
static void vp_mpi_spread(const std::string& r, void* d, const int* counts, const int* displs, int count, size_t z)
{
    int n = mpisim::np(); if (r.size() < n * sizeof(long)) return; const long* sz = (const long*)r.data(); size_t pos = n * sizeof(long);
    for (int i = 0; i < n; i++)
    {
        size_t room = (counts ? counts[i] : count) * z, at = (displs ? displs[i] : i * count) * z;
        if ((size_t)sz[i] != room) { fprintf(stderr, "gather: piece of %ld bytes for a place of %zu\n", sz[i], room); _exit(96); }
        memcpy((char*)d + at, r.data() + pos, sz[i]); pos += sz[i];
    }
}
static int vp_mpi_gather(int kind, const void* s, int sn, MPI_Datatype st, void* d, const int* counts, const int* displs, int dn, MPI_Datatype dt, int root, MPI_Comm c)
{
    bool get = kind == mpisim::ALLGATHER || mpisim::me() == root; size_t z = get ? mpisim::tsize(dt) : 1; int me = mpisim::me(); size_t len = sn * (s == MPI_IN_PLACE ? 1 : mpisim::tsize(st)); std::string mine;
    if (s == MPI_IN_PLACE) { len = (counts ? counts[me] : dn) * z; mine.assign((char*)d + (displs ? displs[me] : me * dn) * z, len); s = mine.data(); }
    if (c == MPI_COMM_SELF) { memcpy(d, s, len); return 0; }
    std::string r = vp_mpi_coll(kind, c, s, len, root); if (get) vp_mpi_spread(r, d, counts, displs, dn, z); return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* d, int dn, MPI_Datatype dt, int root, MPI_Comm c) { return vp_mpi_gather(mpisim::GATHER, s, sn, st, d, NULL, NULL, dn, dt, root, c); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* d, const int* cn, const int* dp, MPI_Datatype dt, int root, MPI_Comm c) { return vp_mpi_gather(mpisim::GATHER, s, sn, st, d, cn, dp, 0, dt, root, c); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* d, int dn, MPI_Datatype dt, MPI_Comm c) { return vp_mpi_gather(mpisim::ALLGATHER, s, sn, st, d, NULL, NULL, dn, dt, 0, c); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* d, const int* cn, const int* dp, MPI_Datatype dt, MPI_Comm c) { return vp_mpi_gather(mpisim::ALLGATHER, s, sn, st, d, cn, dp, 0, dt, 0, c); }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* d, int dn, MPI_Datatype dt, int root, MPI_Comm c)
{ bool me = mpisim::me() == root; std::string r = vp_mpi_coll(mpisim::SCATTER, c, s, me ? sn * mpisim::tsize(st) * mpisim::np() : 0, root, dn * mpisim::tsize(dt)); if (d != MPI_IN_PLACE) memcpy(d, r.data(), r.size()); return 0; }
}
#endif
