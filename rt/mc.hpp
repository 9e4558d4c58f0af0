// Bounded exploration of the real headers under a cooperative scheduler: schedules, memory-order clocks, tracked
// elements and allocator, history checkers.  Used to replay failed obligations and in the thorough tier.
#ifndef MC_HPP
#define MC_HPP
#include <boost/atomic.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <new>
#include <csignal>
#include <csetjmp>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

namespace mc {
// ---------------------------------------------------------------- random numbers
struct Rng { uint64_t s; uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 16); } uint32_t below(uint32_t n) { return next() % n; } bool chance(uint32_t n) { return below(n) == 0; } };
inline Rng& rng() { static Rng r{88172645463325252ull}; return r; }
inline void seed(uint64_t a) { uint64_t z = a * 0x9E3779B97F4A7C15ull + 0x1234567; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; rng().s = (z ^ (z >> 27)) | 1; for (int i = 0; i < 8; i++) rng().next(); }

// ---------------------------------------------------------------- trace and failures
enum { MAXT = 7 };
struct Ev { int tid; int k; void* a; int ord; uint64_t o, n; char txt[56]; };
struct World {
    std::string filter;          // report only failures of this property ("" = all)
    std::string scenario; uint64_t iter = 0, seed0 = 0;
    std::vector<Ev> trace;
    // fibers
    ucontext_t main, fib[MAXT]; char* stk[MAXT] = {}; bool live[MAXT]; int cur = 0; int nthr = 0; std::function<void()> body[MAXT];
    jmp_buf sysjmp; bool insys = false;
    bool sys = false; std::vector<std::pair<int, int>> path; size_t pos = 0; int preempt = 0, bound = 0;   // systematic exploration
    bool running = false; int solo = 0; uint64_t steps = 0, steplimit = 200000; uint64_t opsteps[MAXT]; uint64_t solo_at = 0; uint64_t solo_limit = 0; bool unfair = false;
    uint32_t pswitch = 4; int mode = 0; uint32_t prio[MAXT]; std::vector<uint64_t> change; bool spur = false;
    uint64_t clk = 0;            // event time
    bool aborted = false;
    uint64_t execs = 0, otherfails = 0, totalsteps = 0;
    // clocks
    int c[MAXT][MAXT];
    struct Loc { int l[MAXT]; uint64_t last; bool has; std::vector<uint64_t> hist; };
    std::unordered_map<void*, Loc> loc;
    // elements
    struct El { bool live; int wt, we; int r[MAXT]; uint32_t id; bool any; };
    std::unordered_map<void*, El> el; long nlive = 0;
    bool track_races = true;
    // allocator
    struct Blk { std::size_t n, sz; int arena; bool live; };
    int own = -1;      // the allocator the container was given
    std::map<char*, Blk> blk; long allocs = 0, deallocs = 0, blocks = 0; long fail_at = -1, copy_fail = -1; bool forbid = false; std::vector<char*> quarantine;
    std::function<void(int, void*, unsigned, uint64_t, uint64_t)> hook;   // sees modifying accesses
    bool inop[MAXT]; int nacc[MAXT];
};
inline World& W() { static World w; return w; }
inline int self() { return W().running ? W().cur : 0; }
inline void tracef(const char* f, ...) {
    Ev e; e.tid = self(); e.k = -1; e.a = 0; va_list ap; va_start(ap, f); vsnprintf(e.txt, sizeof e.txt, f, ap); va_end(ap);
    if (W().trace.size() < 100000) W().trace.push_back(e);
}
inline const char* ordname(int o) { static const char* n[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"}; return o >= 0 && o < 6 ? n[o] : "?"; }
inline void dump(FILE* f) {
    static const char* kn[] = {"load", "store", "rmw", "rmw-fail", "init"};
    World& w = W(); size_t n = w.trace.size(), b = n > 400 ? n - 400 : 0;
    if (b) fprintf(f, "  ... %zu earlier events\n", b);
    for (size_t i = b; i < n; i++) { Ev& e = w.trace[i];
        if (e.k < 0) fprintf(f, "  T%d  %s\n", e.tid, e.txt);
        else fprintf(f, "  T%d      %s %p %s  %llx -> %llx\n", e.tid, kn[e.k], e.a, ordname(e.ord), (unsigned long long)e.o, (unsigned long long)(e.k == 0 ? e.o : e.n)); }
}
struct Abort {};
inline bool wanted(const char* props) { return W().filter.empty() || (std::string(",") + props + ",").find("," + W().filter + ",") != std::string::npos; }
[[noreturn]] inline void leave();
inline void report(const char* props, const char* what) {
    World& w = W();
    printf("FAILURE props=%s scenario=%s seed=%llu iteration=%llu\n  %s\n", props, w.scenario.c_str(), (unsigned long long)w.seed0, (unsigned long long)w.iter, what);
    dump(stdout); fflush(stdout); _exit(1);
}
// a failure that belongs to the properties named; ends this execution
inline void fail(const char* props, const char* f, ...) {
    char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (wanted(props)) report(props, b);
    W().otherfails++; leave();
}

// ---------------------------------------------------------------- scheduler
inline jmp_buf& mainjmp() { static jmp_buf j; return j; }
[[noreturn]] inline void leave() { World& w = W(); w.aborted = true; if (w.running) { setcontext(&w.main); } longjmp(W().insys ? W().sysjmp : mainjmp(), 1); }
// next decision of the systematic exploration: one of n options
inline int choose(int n) {
    World& w = W(); if (n <= 1) return 0;
    if (w.pos < w.path.size()) { auto& p = w.path[w.pos++]; if (p.second != n) { p.second = n; if (p.first >= n) p.first = 0; } return p.first; }
    w.path.push_back({0, n}); w.pos++; return 0;
}
inline bool advance() { World& w = W(); while (!w.path.empty() && w.path.back().first + 1 >= w.path.back().second) w.path.pop_back(); if (w.path.empty()) return false; w.path.back().first++; return true; }
inline int pick() {
    World& w = W(); int c[MAXT], n = 0;
    for (int i = 1; i <= w.nthr; i++) if (w.live[i]) c[n++] = i;
    if (!n) return 0;
    if (w.solo) return w.live[w.solo] ? w.solo : c[0];
    if (w.sys) return c[choose(n)];
    if (w.mode == 0) return c[rng().below(n)];
    int b = c[0]; for (int i = 1; i < n; i++) if (w.prio[c[i]] > w.prio[b]) b = c[i];
    return b;
}
inline void switch_to(int t) { World& w = W(); int o = w.cur; if (t == o) return; w.cur = t; swapcontext(&w.fib[o], t ? &w.fib[t] : &w.main); }
inline void entry() {
    World& w = W(); int me = w.cur; w.body[me]();
    w.live[me] = false; int t = pick(); w.cur = t;
    if (t) setcontext(&w.fib[t]); else setcontext(&w.main);
}
// run the threads added to completion
inline void run(std::vector<std::function<void()>> const& bodies) {
    World& w = W(); w.nthr = (int)bodies.size();
    for (int i = 1; i <= w.nthr; i++) {
        w.body[i] = bodies[i - 1]; w.live[i] = true; w.opsteps[i] = 0; w.inop[i] = false;
        if (!w.stk[i]) w.stk[i] = (char*)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&w.fib[i]); w.fib[i].uc_stack.ss_sp = w.stk[i]; w.fib[i].uc_stack.ss_size = 1 << 18; w.fib[i].uc_link = &w.main;
        makecontext(&w.fib[i], (void (*)())entry, 0);
        for (int k = 0; k < MAXT; k++) w.c[i][k] = w.c[0][k];
        w.c[i][i]++;
    }
    w.mode = rng().below(3) ? 0 : 1; static const uint32_t ps[] = {2, 3, 5, 9, 20}; w.pswitch = ps[rng().below(5)]; w.spur = rng().chance(3);
    w.change.clear();
    if (w.mode) { for (int i = 1; i <= w.nthr; i++) w.prio[i] = 100 + rng().below(1000000); int d = 1 + rng().below(5); static const uint32_t sp[] = {15, 40, 80, 150, 300}; uint32_t span = sp[rng().below(5)]; for (int i = 0; i < d; i++) w.change.push_back(w.steps + rng().below(span)); std::sort(w.change.begin(), w.change.end()); }
    if (w.sys) { w.spur = false; w.pos = 0; w.preempt = 0; }
    for (int i = 1; i <= w.nthr; i++) w.opsteps[i] = 0;
    volatile int first = pick();
    w.cur = first; w.running = true;
    if (first) swapcontext(&w.main, &w.fib[first]);
    w.running = false; w.cur = 0;
    if (w.aborted) longjmp(w.insys ? w.sysjmp : mainjmp(), 1);
    for (int i = 1; i <= w.nthr; i++) for (int k = 0; k < MAXT; k++) w.c[0][k] = std::max(w.c[0][k], w.c[i][k]);
}
} // namespace mc

namespace lfmc {
inline void point(int minor) {
    mc::World& w = mc::W();
    if (!w.running) { if (++w.steps > w.steplimit) mc::fail("C15", "a single-threaded operation does not end (%llu atomic accesses)", (unsigned long long)w.steps); return; }
    ++w.steps; ++w.opsteps[w.cur];
    if (w.steps > w.steplimit) mc::fail("C15", "the operations do not end (%llu atomic accesses)", (unsigned long long)w.steps);
    if (w.solo) { if (w.cur == w.solo && w.inop[w.cur] && w.opsteps[w.cur] > w.solo_limit) mc::fail("C15", "thread %d running alone needs more than %llu steps", w.cur, (unsigned long long)w.solo_limit);
        return; }
    if (w.solo_at && w.steps >= w.solo_at) { int c[mc::MAXT], n = 0; for (int i = 1; i <= w.nthr; i++) if (w.live[i]) c[n++] = i; w.solo = c[mc::rng().below(n)]; w.opsteps[w.solo] = 0; w.spur = false; mc::tracef("-- only T%d runs from here", w.solo); mc::switch_to(w.solo); return; }
    if (w.sys) { if (minor || w.preempt >= w.bound) return; int c[mc::MAXT], n = 1; c[0] = w.cur; for (int i = 1; i <= w.nthr; i++) if (w.live[i] && i != w.cur) c[n++] = i; int k = mc::choose(n); if (k) { w.preempt++; mc::switch_to(c[k]); } return; }
    if (w.mode == 0) { if (mc::rng().chance(w.pswitch)) mc::switch_to(mc::pick()); }
    else { bool ch = false; while (!w.change.empty() && w.steps >= w.change.front()) { w.change.erase(w.change.begin()); w.prio[w.cur] = mc::rng().below(90); ch = true; }
        if (w.steps % 2000 == 0) { for (int i = 1; i <= w.nthr; i++) w.prio[i] = mc::rng().below(1000000); ch = true; }
        if (ch) mc::switch_to(mc::pick()); }
}
inline bool spurious() { mc::World& w = mc::W(); return w.running && w.spur && mc::rng().chance(8); }
inline void access(Acc k, void* a, unsigned size, std::memory_order o, uint64_t oldv, uint64_t newv) {
    mc::World& w = mc::W(); w.clk++; w.nacc[mc::self()]++;
    if (w.trace.size() < 100000) { mc::Ev e; e.tid = mc::self(); e.k = k; e.a = a; e.ord = (int)o; e.o = oldv; e.n = newv; w.trace.push_back(e); }
    mc::World::Loc& l = w.loc[a]; if (!l.has) { l.has = true; std::memset(l.l, 0, sizeof l.l); }
    int t = mc::self(); int* c = w.c[t];
    bool acq = o == std::memory_order_acquire || o == std::memory_order_consume || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
    bool rel = o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
    if (k == INIT) { std::memset(l.l, 0, sizeof l.l); l.hist.clear(); }
    if ((k == LOAD || k == RMW || k == RMWFAIL) && acq) for (int i = 0; i < mc::MAXT; i++) c[i] = std::max(c[i], l.l[i]);
    if (k == STORE) { if (rel) std::memcpy(l.l, c, sizeof l.l); else std::memset(l.l, 0, sizeof l.l); }
    if (k == RMW && rel) for (int i = 0; i < mc::MAXT; i++) l.l[i] = std::max(l.l[i], c[i]);
    c[t]++;
    if ((k == STORE || k == RMW || k == INIT) && w.hook) w.hook(k, a, size, oldv, newv);
}
} // namespace lfmc

namespace mc {
inline bool ordered(int t, int e) { World& w = W(); return t < 0 || t == self() || w.c[self()][t] >= e; }
// ---------------------------------------------------------------- element bookkeeping
extern const char* P_RACE; extern const char* P_LIFE; // properties of races / lifetime errors in this program
inline void el_construct(void* p, uint32_t id) {
    World& w = W(); auto& e = w.el[p];
    if (!e.any) { e.any = true; e.live = false; e.wt = -1; e.we = 0; std::memset(e.r, 0, sizeof e.r); }
    if (e.live) fail(P_LIFE, "element %u is constructed on top of the live element %u", id, e.id);
    if (w.track_races) { if (!ordered(e.wt, e.we)) fail(P_RACE, "element %u is constructed in a place whose last use by T%d is not ordered before", id, e.wt);
        for (int i = 0; i < MAXT; i++) if (e.r[i] && !ordered(i, e.r[i])) fail(P_RACE, "element %u is constructed in a place whose reading by T%d is not ordered before", id, i); }
    e.live = true; e.id = id; e.wt = self(); e.we = w.c[self()][self()]; std::memset(e.r, 0, sizeof e.r); w.nlive++;
}
inline void el_read(void const* p, const char* what) {
    World& w = W(); auto it = w.el.find((void*)p);
    if (it == w.el.end() || !it->second.live) fail(P_LIFE, "%s reads a place which holds no live element", what);
    auto& e = it->second;
    if (w.track_races && !ordered(e.wt, e.we)) fail(P_RACE, "%s of element %u: its construction by T%d is not ordered before", what, e.id, e.wt);
    e.r[self()] = w.c[self()][self()];
}
inline void el_destroy(void* p) {
    World& w = W(); auto it = w.el.find(p);
    if (it == w.el.end() || !it->second.live) fail(P_LIFE, "a place which holds no live element is destroyed");
    auto& e = it->second;
    if (w.track_races) { if (!ordered(e.wt, e.we)) fail(P_RACE, "element %u is destroyed, its construction by T%d is not ordered before", e.id, e.wt);
        for (int i = 0; i < MAXT; i++) if (e.r[i] && !ordered(i, e.r[i])) fail(P_RACE, "element %u is destroyed, its reading by T%d is not ordered before", e.id, i); }
    e.live = false; e.wt = self(); e.we = w.c[self()][self()]; std::memset(e.r, 0, sizeof e.r); w.nlive--;
}
struct CopyFail {};
inline void copypoint() { lfmc::point(1); World& w = W(); if (w.copy_fail >= 0 && w.copy_fail-- == 0) { tracef("copying an element fails"); throw CopyFail(); } }
struct Elem {                      // element with tracked lifetime
    uint32_t id, chk;
    Elem() : id(0), chk(0x5a5a5a5a) { el_construct(this, 0); }
    explicit Elem(uint32_t i) : id(i), chk(~i) { el_construct(this, i); }
    Elem(Elem const& o) { copypoint(); el_read(&o, "copying"); id = o.id; chk = o.chk; lfmc::point(1); el_construct(this, id); }
    Elem& operator=(Elem const& o) { el_read(&o, "assignment"); el_read(this, "assignment"); id = o.id; chk = o.chk; return *this; }
    ~Elem() { el_destroy(this); lfmc::point(1); id = 0xdeadbeef; }
    uint32_t get() const { el_read(this, "a functor"); return id; }
};
struct Triv {                      // trivially destructible and assignable element with tracked copy construction
    uint32_t id; uint32_t chk; uint64_t pad;
    Triv() : id(0), chk(0), pad(0) {}
    explicit Triv(uint32_t i) : id(i), chk(~i), pad(i * 3ull) {}
    Triv(Triv const& o) : id(o.id) { copypoint(); chk = o.chk; lfmc::point(1); pad = o.pad; }
    uint32_t get() const { lfmc::point(1); return id; }
    bool sane() const { return chk == ~id && pad == id * 3ull; }
};
// ---------------------------------------------------------------- allocator
inline void* take(std::size_t n, std::size_t sz, int arena) {
    World& w = W(); lfmc::point(1);
    if (w.forbid) fail("C11", "memory is obtained from the allocator by an operation which must not allocate");
    if (w.fail_at >= 0 && w.fail_at-- == 0) { tracef("allocation fails"); throw std::bad_alloc(); }
    char* p = (char*)aligned_alloc(64, ((n * sz + 63) / 64) * 64 + 64); std::memset(p, 0xdd, ((n * sz + 63) / 64) * 64);
    if (w.own >= 0 && arena != w.own) fail("C10,C04", "memory is obtained from an allocator which is not the container's own");
    w.blk[p] = World::Blk{n, sz, arena, true}; w.allocs++; w.blocks += 1; tracef("allocate %zu x %zu -> %p", n, sz, (void*)p);
    return p;
}
inline void give(void* p, std::size_t n, std::size_t sz, int arena) {
    World& w = W(); lfmc::point(1); auto it = w.blk.find((char*)p); tracef("deallocate %p", p);
    if (it == w.blk.end() || !it->second.live) fail("C10,C04,C17", "memory %p is given back to the allocator which does not own it (any more)", p);
    if (it->second.n != n || it->second.sz != sz) fail("C10,C04", "memory of %zu x %zu is given back as %zu x %zu", it->second.n, it->second.sz, n, sz);
    if (it->second.arena != arena) fail("C10,C04", "memory of one allocator is given back to another one");
    if (w.running) fail("C10", "node memory is given back while the container lives");
    it->second.live = false; w.deallocs++; w.blocks -= 1; std::memset(p, 0xdd, n * sz);
}
template <class T> struct Alloc {
    typedef T value_type; typedef T* pointer; typedef T const* const_pointer; typedef T& reference; typedef T const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    int arena;
    Alloc() : arena(0) {}
    explicit Alloc(int a) : arena(a) {}
    template <class U> Alloc(Alloc<U> const& o) : arena(o.arena) {}
    template <class U> struct rebind { typedef Alloc<U> other; };
    T* allocate(std::size_t n) { return (T*)take(n, sizeof(T), arena); }
    void deallocate(T* p, std::size_t n) { give(p, n, sizeof(T), arena); }
    bool operator==(Alloc const& o) const { return arena == o.arena; }
    bool operator!=(Alloc const& o) const { return arena != o.arena; }
};
// ---------------------------------------------------------------- histories
enum Kind { PUSH, POP, EMPTY, TAKE };      // TAKE: atomic removal of everything (list top first)
struct Op { Kind k; std::vector<uint32_t> v; uint64_t inv, res; int tid; };
inline std::string opstr(Op const& o) { static const char* n[] = {"push", "pop", "empty", "take-all"}; std::string s = n[o.k]; s += "("; for (auto x : o.v) s += std::to_string(x) + " "; s += ")"; return s; }
struct Lin {
    std::vector<Op> const& h; bool fifo; std::set<std::pair<uint64_t, std::vector<uint32_t>>> seen; long nodes = 0;
    Lin(std::vector<Op> const& x, bool f) : h(x), fifo(f) {}
    bool go(uint64_t done, std::vector<uint32_t>& st) {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if (++nodes > 400000) return true;                       // undecided: not a failure
        if (!seen.insert({done, st}).second) return false;
        uint64_t lim = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) lim = std::min(lim, h[i].res);
        for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].inv <= lim) {
            Op const& o = h[i]; std::vector<uint32_t> s2;
            switch (o.k) {
            case PUSH: s2 = st; for (auto x : o.v) s2.push_back(x); break;
            case EMPTY: if (!st.empty()) continue; s2 = st; break;
            case POP: if (st.empty()) continue; s2 = st; if (fifo) { if (st.front() != o.v[0]) continue; s2.erase(s2.begin()); } else { if (st.back() != o.v[0]) continue; s2.pop_back(); } break;
            case TAKE: { std::vector<uint32_t> r(st.rbegin(), st.rend()); if (r != o.v || st.empty()) continue; break; }
            }
            if (go(done | 1ull << i, s2)) return true;
        }
        return false;
    }
    bool ok(std::vector<uint32_t> init) { return h.size() > 62 || go(0, init); }
};
inline void dump_history(std::vector<Op> h) {
    std::sort(h.begin(), h.end(), [](Op const& a, Op const& b) { return a.inv < b.inv; });
    printf("  history (operation, interval):\n"); for (auto& o : h) printf("    T%d %-28s [%llu, %llu]\n", o.tid, opstr(o).c_str(), (unsigned long long)o.inv, (unsigned long long)o.res);
}
// ---------------------------------------------------------------- executions
inline void begin_exec() {
    World& w = W(); w.trace.clear(); w.aborted = false; w.running = false; w.solo = 0; w.solo_at = 0; w.steps = 0; w.clk = 0; w.fail_at = w.copy_fail = -1; w.forbid = false;
    w.hook = nullptr; w.loc.clear(); w.el.clear(); w.nlive = 0; std::memset(w.c, 0, sizeof w.c); w.c[0][0] = 1; w.cur = 0; w.nthr = 0;
    for (auto& b : w.blk) free(b.first);
    w.blk.clear(); w.allocs = w.deallocs = w.blocks = 0; w.track_races = true; w.execs++;
}
inline const char*& sigprops() { static const char* p = "C05,C06,C07,C08,C09,C10"; return p; }
inline void onsig(int s) {
    // async context: only format and leave
    static char b[160]; const char* pr = s == SIGALRM ? "C15" : sigprops();
    snprintf(b, sizeof b, s == SIGALRM ? "the operations do not end (time limit)" : "signal %d: access to memory which is not part of the container", s);
    std::string all = std::string(sigprops()) + ",C15";
    if (wanted(s == SIGALRM ? all.c_str() : sigprops())) { report(pr, b); }
    printf("OTHER signal %d\n", s); fflush(stdout); _exit(3);
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// scenario(iteration) is executed again and again
inline int drive(const char* name, std::function<void()> const& f, uint64_t seed0, uint64_t from, uint64_t n, double secs) {
    World& w = W(); w.scenario = name; w.seed0 = seed0;
    static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; 
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, 0);
    double t0 = now(); volatile uint64_t i;
    for (i = from; i < from + n; i = i + 1) {
        if ((i & 15) == 0 && now() - t0 > secs) break;
        w.iter = i; seed(seed0 * 1000003ull + i); begin_exec(); alarm(10);
        if (setjmp(mainjmp()) == 0) f();
        w.running = false; alarm(0); w.totalsteps += w.steps;
    }
    printf("OK scenario=%s executions=%llu other-failures=%llu\n", name, (unsigned long long)(i - from), (unsigned long long)w.otherfails);
    return 0;
}
}
#endif
