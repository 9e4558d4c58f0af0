// stack and queue under mc.hpp.  -DSTACK or -DQUEUE; -DRT, -DFIXED or -DCAPN=n
#include "mc.hpp"
#ifdef STACK
#include <boost/lockfree/stack.hpp>
#else
#include <boost/lockfree/queue.hpp>
#endif
using namespace mc;
#ifdef STACK
#define TPL boost::lockfree::stack
typedef Elem E; static const bool FIFO = false; static const char* LINP = "C05";
const char* mc::P_RACE = "C18"; const char* mc::P_LIFE = "C09,C10,C16";
#else
#define TPL boost::lockfree::queue
typedef Triv E; static const bool FIFO = true; static const char* LINP = "C08";
const char* mc::P_RACE = "C18"; const char* mc::P_LIFE = "C09,C10,C16";
#endif
using namespace boost::lockfree;
#if defined(CAPN)
typedef TPL<E, capacity<CAPN>> C; static const bool RTK = false;
#elif defined(FIXED)
typedef TPL<E, fixed_sized<true>, boost::lockfree::allocator<Alloc<int>>> C; static const bool RTK = false;
#else
typedef TPL<E, boost::lockfree::allocator<Alloc<int>>> C; static const bool RTK = true;
#endif

struct Ctx {
    C* c = 0; std::vector<Op> h; uint32_t nextid = 1; long nodes = 0; long begun = 0, donepop = 0; int resv = 0; const char* linp = LINP;
    std::map<uint32_t, std::pair<int, int>> epoch; std::set<uint32_t> gone, in; bool allocfail = false, thrown = false; long moved = 0;
};
static Ctx* X;
struct Conv { uint32_t id; Conv() : id(0) {} Conv(E const& e) : id(e.get()) {} };
static void note(Kind k, std::vector<uint32_t> v, uint64_t a, uint64_t b) { X->h.push_back(Op{k, v, a, b, self()}); }
static uint64_t tick() { return ++W().clk; }
static uint64_t opbegin(const char* s) { World& w = W(); lfmc::point(); tracef("%s", s); w.inop[self()] = true; w.opsteps[self()] = 0; if (!w.running) w.steps = 0; return tick(); }
static uint64_t opend(const char* s, uint32_t v) { W().inop[self()] = false; tracef("   %s: %u", s, v); return tick(); }
static void got(uint32_t id, bool sane) {
    if (!sane || !X->in.count(id)) fail((std::string(X->linp) + ",C09").c_str(), "a value which was never pushed is received (%u)", id);
    if (!X->gone.insert(id).second) fail((std::string(X->linp) + ",C09").c_str(), "element %u is received twice", id);
    auto e = X->epoch[id]; if (!ordered(e.first, e.second)) fail("C18", "the push of element %u by T%d is not ordered before its reception", id, e.first);
}
static uint32_t fresh() { uint32_t i = X->nextid++; X->begun++; X->in.insert(i); X->epoch[i] = {self(), W().c[self()][self()]}; return i; }
// a push which found no node: nodes in use at any instant of the call are at most the elements begun minus those gone
static void nonode(long d0, long own, long nodes0, const char* what) {
    if (X->resv || (RTK && nodes0 < 0)) return;             // a reserve in flight holds nodes of its own
    long used = X->begun - own - d0;
    if (used < nodes0) fail(X->thrown ? "C09,C11,C14,C17" : "C11,C14", "%s fails although at most %ld of %ld nodes were in use at any time during the call", what, used, nodes0);
}
static long nodesnow() { if (X->resv) return -1; return RTK ? W().blocks - (FIFO ? 1 : 0) : X->nodes; }
enum PK { P_PUSH, P_BPUSH, P_UPUSH };
static void push1(PK k) {
    uint32_t id = fresh(); long d0 = X->donepop, n0 = nodesnow(); bool ok = false; uint64_t a;
    try {
        E e(id); a = opbegin(k == P_PUSH ? "push" : k == P_BPUSH ? "bounded_push" : "unsynchronized_push"); tracef("   value %u", id);
        if (k == P_BPUSH) W().forbid = true;      // only meaningful when sequential or when all threads are bounded
        if (k == P_BPUSH && W().running) W().forbid = !RTK;
        if (X->allocfail && rng().chance(3)) W().copy_fail = 0;
        ok = k == P_PUSH ? X->c->push(e) : k == P_BPUSH ? X->c->bounded_push(e) : X->c->unsynchronized_push(e);
    } catch (std::bad_alloc&) { W().copy_fail = -1; W().forbid = !RTK; opend("throws", 0); X->begun--; X->in.erase(id); if (!RTK || k == P_BPUSH) fail("C11", "an operation that must not allocate throws bad_alloc"); return; }
    catch (CopyFail&) { W().copy_fail = -1; X->thrown = true; W().forbid = !RTK; opend("throws", 0); X->begun--; X->in.erase(id); return; }
    W().copy_fail = -1; W().forbid = !RTK;
    uint64_t b = opend("returns", ok);
    if (ok) note(PUSH, {id}, a, b);
    else { X->begun--; X->in.erase(id); if (RTK && k != P_BPUSH) fail(k == P_UPUSH ? "C11,C14" : "C11", "an unbounded push fails"); nonode(d0, 0, n0, "a push"); }
}
#ifdef STACK
struct Arr { alignas(E) char m[8 * sizeof(E)]; int n = 0; E* p() { return (E*)m; } void add(uint32_t i) { new (p() + n) E(i); n++; } ~Arr() { while (n) p()[--n].~E(); } };
static void pushn(PK k, uint32_t n) {
    std::vector<uint32_t> ids; for (uint32_t i = 0; i < n; i++) ids.push_back(fresh());
    long d0 = X->donepop, n0 = nodesnow(); uint64_t a = 0; std::size_t r = 0;
    try {
        Arr es; for (auto i : ids) es.add(i);
        a = opbegin(k == P_PUSH ? "push(range)" : k == P_BPUSH ? "bounded_push(range)" : "unsynchronized_push(range)"); for (auto i : ids) tracef("   value %u", i);
        if (k == P_BPUSH && !W().running) W().forbid = true;
        E const* p = es.p();
        if (X->allocfail && rng().chance(3)) W().copy_fail = rng().below(4);
        E const* q = k == P_PUSH ? X->c->push(p, p + n) : k == P_BPUSH ? X->c->bounded_push(p, p + n) : X->c->unsynchronized_push(p, p + n);
        W().forbid = !RTK; W().copy_fail = -1;
        if (q < p || q > p + n) fail("C06", "the iterator returned is outside the range");
        r = q - p;
    } catch (std::bad_alloc&) { W().copy_fail = -1; W().forbid = !RTK; opend("throws", 0); X->begun -= n; for (auto i : ids) X->in.erase(i); if (!RTK || k == P_BPUSH) fail("C11", "an operation that must not allocate throws bad_alloc"); return; }
    catch (CopyFail&) { W().copy_fail = -1; X->thrown = true; W().forbid = !RTK; opend("throws", 0); X->begun -= n; for (auto i : ids) X->in.erase(i); return; }
    uint64_t b = opend("returns", r);
    X->begun -= n - r; for (std::size_t i = r; i < n; i++) X->in.erase(ids[i]);
    if (r) note(PUSH, std::vector<uint32_t>(ids.begin(), ids.begin() + r), a, b);
    if (r < n) { if (RTK && k != P_BPUSH) fail(k == P_UPUSH ? "C06,C11,C14" : "C06,C11", "an unbounded ranged push stops early (%zu of %u)", r, n); nonode(d0, 0, n0, "a ranged push"); }
}
#endif
static void popped1(bool ok, uint32_t id, bool sane, uint64_t a, uint64_t b) { if (ok) { got(id, sane); note(POP, {id}, a, b); X->donepop++; } else note(EMPTY, {}, a, b); }
static bool sane(Elem const& e) { return e.chk == ~e.id; }
static bool sane(Triv const& e) { return e.sane(); }
struct Fn { uint32_t n = 0; std::vector<std::pair<uint32_t, uint64_t>> s; bool bad = false;
    void operator()(E const& e) { lfmc::point(1); uint32_t i = e.get(); if (!sane(e)) bad = true; s.push_back({i, tick()}); tracef("   functor on %u", i); lfmc::point(1); if (e.get() != i) fail("C16,C09", "element %u changes while the functor holds it", i); } };
struct CFn { Fn* f; void operator()(E const& e) const { (*f)(e); } };
static void pop1(int k) {
    uint64_t a; bool ok; 
    if (k == 0 || k == 1) { E r; a = opbegin(k ? "unsynchronized_pop" : "pop"); ok = k ? X->c->unsynchronized_pop(r) : X->c->pop(r); uint64_t b = opend("returns", ok ? r.id : 0); popped1(ok, r.id, sane(r), a, b); }
    else if (k == 2 || k == 3) { Conv r; a = opbegin(k == 3 ? "unsynchronized_pop<U>" : "pop<U>"); ok = k == 3 ? X->c->unsynchronized_pop(r) : X->c->pop(r); uint64_t b = opend("returns", ok ? r.id : 0); popped1(ok, r.id, true, a, b); }
    else { Fn f; CFn g{&f}; a = opbegin("consume_one"); ok = k == 4 ? X->c->consume_one(f) : X->c->consume_one((CFn const&)g); uint64_t b = opend("returns", ok);
        if (f.s.size() != (ok ? 1u : 0u)) fail("C16", "consume_one returns %d and calls the functor %zu times", ok, f.s.size());
        popped1(ok, ok ? f.s[0].first : 0, !f.bad, a, b); }
}
static void popall(int k) {
    Fn f; CFn g{&f}; uint64_t a = opbegin("consume_all"); std::size_t n = k ? X->c->consume_all((CFn const&)g) : X->c->consume_all(f); uint64_t b = opend("returns", n);
    if (n != f.s.size()) fail("C16", "consume_all returns %zu and calls the functor %zu times", n, f.s.size());
    for (auto& s : f.s) { got(s.first, !f.bad); note(POP, {s.first}, a, s.second); a = s.second; }
    X->donepop += n; note(EMPTY, {}, a, b);
}
#ifdef STACK
static void takeall(int k) {
    Fn f; CFn g{&f}; bool rev = k & 2; uint64_t a = opbegin(rev ? "consume_all_atomic_reversed" : "consume_all_atomic");
    std::size_t n = k == 0 ? X->c->consume_all_atomic(f) : k == 1 ? X->c->consume_all_atomic((CFn const&)g) : k == 2 ? X->c->consume_all_atomic_reversed(f) : X->c->consume_all_atomic_reversed((CFn const&)g);
    uint64_t b = opend("returns", n);
    if (n != f.s.size()) fail("C07,C16", "a take-all operation returns %zu and calls the functor %zu times", n, f.s.size());
    std::vector<uint32_t> v; for (auto& s : f.s) { got(s.first, !f.bad); v.push_back(s.first); }
    if (rev) std::reverse(v.begin(), v.end());
    if (n) note(TAKE, v, a, b); else note(EMPTY, {}, a, b);
    X->donepop += n;
}
#endif
static void doreserve(bool unsafe, uint32_t n) {
#if !defined(CAPN) && !defined(FIXED)
    X->resv++; opbegin("reserve"); try { if (unsafe) X->c->reserve_unsafe(n); else X->c->reserve(n); } catch (std::bad_alloc&) {} opend("ends", n); X->resv--;
#endif
}
// ops by class: b basic, r range, t take-all, u unsynchronized, v reserve
static void anyop(std::string const& cls) {
    for (;;) {
        char k = cls[rng().below(cls.size())];
        switch (k) {
        case 'p': push1(rng().chance(3) ? P_BPUSH : P_PUSH); return;
        case 'B': push1(P_BPUSH); return;
        case 'o': { static const int ks[] = {0, 0, 2, 4, 5}; pop1(ks[rng().below(5)]); return; }
        case 'a': popall(rng().below(2)); return;
#ifdef STACK
        case 'r': { uint32_t n = rng().chance(6) ? 0 : 1 + rng().below(3); pushn(rng().chance(3) ? P_BPUSH : P_PUSH, n); return; }
        case 't': takeall(rng().below(4)); return;
        case 'U': if (rng().chance(2)) push1(P_UPUSH); else pushn(P_UPUSH, rng().below(4)); return;
        case 'e': { opbegin("empty"); bool em = X->c->empty(); opend("returns", em); return; }
#else
        case 'U': push1(P_UPUSH); return;
        case 'e': X->c->empty(); return;
#endif
        case 'O': pop1(rng().chance(2) ? 1 : 3); return;
        case 'v': doreserve(rng().below(2), rng().below(3)); return;
        case 'w': doreserve(false, rng().below(3)); return;
        }
    }
}
static void hook(int k, void* a, unsigned size, uint64_t o, uint64_t n) {
    if (size != 8 && size != 4) return;
    auto& l = W().loc[a]; unsigned sh = size == 8 ? 48 : 16; uint64_t to = o >> sh & 0xffff, tn = n >> sh & 0xffff;
    if (k == lfmc::INIT) return;
    if (l.hist.empty()) l.hist.push_back(o);
    if (o != n) for (uint64_t x : l.hist) if (x == n) fail("C13", "the word at %p takes the value %llx again: a stale compare-and-swap would succeed", a, (unsigned long long)n);
    uint64_t lt = l.hist.back() >> sh & 0xffff; (void)to;
#if defined(QUEUE) && defined(MC_POOLWORD)
    bool pool = a == (void*)&X->c->pool.pool_;
    if (!pool && tn != ((lt + 1) & 0xffff)) fail("C13", "the version of the word at %p changes from %llu to %llu when it is written", a, (unsigned long long)lt, (unsigned long long)tn);
#endif
    if (tn != lt && tn != ((lt + 1) & 0xffff)) fail("C13", "the version of the word at %p changes from %llu to %llu", a, (unsigned long long)lt, (unsigned long long)tn);
    l.hist.push_back(n);
}
struct Holder { alignas(128) char m[sizeof(C)]; };
static Holder HOLD;
static bool build(long n) {
    Ctx& x = *X; World& w = W(); std::memset(HOLD.m, 0xcd, sizeof HOLD.m); long b0 = w.blocks;
    int form = rng().below(4) == 0; w.own = form ? 0 : 7;
    try {
#if defined(CAPN)
        x.nodes = CAPN; W().forbid = true; x.c = new (HOLD.m) C(); W().forbid = false;
#elif defined(FIXED)
        x.nodes = n; if (form) x.c = new (HOLD.m) C(n); else x.c = new (HOLD.m) C(n, C::allocator(Alloc<int>(7)));
#else
        x.nodes = n; if (form) x.c = new (HOLD.m) C(n); else x.c = new (HOLD.m) C(n, C::allocator(Alloc<int>(7)));
#endif
    } catch (std::bad_alloc&) { if (w.blocks != b0) fail("C10,C17", "%ld blocks stay allocated after a failed construction", w.blocks - b0); return false; }
    if (RTK) { if (w.blocks != n + (FIFO ? 1 : 0)) fail("C11", "construction for %ld nodes obtains %ld", n, w.blocks); }
    else W().forbid = true;
    if (wanted("C13")) w.hook = hook;
    return true;
}
static void lincheck() {
    if (X->h.size() > 60) return;
    Lin l(X->h, FIFO); if (!l.ok({})) { World& w = W(); const char* p = X->linp; if (wanted(p)) { dump_history(X->h); report(p, FIFO ? "no order of the operations explains the results (first in first out)" : "no order of the operations explains the results (last in first out)"); } w.otherfails++; leave(); }
}
static void finish(bool lin, bool nodecheck) {
    Ctx& x = *X; World& w = W(); w.fail_at = -1; x.allocfail = false; w.forbid = !RTK;
    static char b1[64]; (void)b1;
    int d = rng().below(3);
    if (d || nodecheck) for (;;) { std::size_t n0 = x.h.size(); pop1(d == 2 ? 1 : 0); if (x.h.size() > n0 && x.h.back().k == EMPTY) break; if (x.h.size() > 400) break; }
    if (lin) lincheck();
    if (d || nodecheck) {
        for (auto id : x.in) if (!x.gone.count(id)) { std::string p = std::string(x.linp) + ",C09"; fail(p.c_str(), "element %u was pushed successfully and is lost", id); }
#ifdef STACK
        if (!x.c->empty()) fail(x.linp, "empty() is false for a drained stack");
#endif
        // capacity: every node must be available again
        long n = 0, nn = nodesnow(); bool un = rng().chance(3);
        for (;;) { if (un && !RTK) { long k = x.h.size(); push1(P_UPUSH); if ((long)x.h.size() == k) break; } else { long k = x.h.size(); push1(P_BPUSH); if ((long)x.h.size() == k) break; } if (++n > nn + 4) break; }
        if (n != nn) fail("C09,C11,C17", "the drained container has %ld nodes, but %ld elements can be pushed", nn, n);
        for (;;) { std::size_t n0 = x.h.size(); if (rng().chance(4)) pop1(rng().below(2)); else if (rng().chance(10)) break; else pop1(0); if (x.h.size() > n0 && x.h.back().k == EMPTY) break; }
        if (x.h.size() <= 60 && lin) lincheck();
    }
    opbegin("destruction"); w.forbid = false; w.hook = nullptr; x.c->~C(); opend("ends", 0);
    if (w.blocks) fail("C10,C17", "%ld blocks are not given back by the destructor", w.blocks);
    if (w.nlive) fail("C10,C09,C16", "%ld elements are not destroyed", w.nlive);
}
static void conc(std::string const& seqcls, std::string const& cls, const char* linp, bool solo, bool phases) {
    Ctx x; X = &x; x.linp = linp; long n = rng().below(4); if (!RTK) n++;
    if (RTK && rng().chance(2)) n = 0;
    if (!build(n)) return;
    int pre = rng().below(5); for (int i = 0; i < pre; i++) anyop(seqcls);
    for (int ph = 0; ph < (phases ? 2 : 1); ph++) {
        int nt = 2 + rng().below(3); if (phases) nt = 2;
        std::vector<std::function<void()>> b;
        for (int i = 0; i < nt; i++) { int no = 1 + rng().below(nt > 3 ? 3 : 4); b.push_back([no, cls] { for (int j = 0; j < no; j++) anyop(cls); }); }
        if (solo) { W().solo_at = W().steps = 0; W().solo_at = 5 + rng().below(250); W().solo_limit = 1500; }
        W().steps = 0; run(b);
        if (solo) { W().solo = 0; W().solo_at = 0; }
        if (phases) { int k = rng().below(6); for (int i = 0; i < k; i++) anyop(seqcls); }
    }
    finish(true, true);
}
// every schedule with few preemptions of short programs on few elements (one program at a time)
struct Sys { std::vector<std::string> prog; int pre = 0; long n = 0; bool active = false; long execs = 0; uint64_t sd = 0; int turn = 0; };
static Sys SY;
static void sysrun(std::string const& alphabet, const char* linp) {
    World& w = W();
    if (!SY.active && getenv("PROG")) {            // a program given from outside: explored once
        if (SY.execs) { printf("OK all schedules of the program: %ld executions\n", SY.execs); fflush(stdout); _exit(0); }
        std::string s; SY.prog.clear(); for (const char* q = getenv("PROG");; q++) { if (*q == '/' || !*q) { SY.prog.push_back(s); s.clear(); if (!*q) break; } else s += *q; }
        SY.pre = getenv("PRE") ? atoi(getenv("PRE")) : 0; SY.n = getenv("NODES") ? atoi(getenv("NODES")) : 3; w.bound = getenv("BOUND") ? atoi(getenv("BOUND")) : 3; SY.active = true; w.path.clear(); SY.sd = rng().next();
    } else if (!SY.active && alphabet[0] == '*') {  // one operation against a sequence which removes, recycles and inserts again
        static const char* progs[] = {"o/oppoo", "o/opop", "o/oopp", "p/popo", "o/ooppp", "p/oppo", "o/oppo/o", "p/pop/o", "o/opo/p", "o/oopo/p"};
        static const char* more[] = {"t/oppo", "t/opp", "o/tpp", "p/tpp", "t/ppo/o", "o/rop", "r/opop", "rr/oo"};
        int k = SY.turn++; const char* q; (void)more;
        if (!FIFO && k % 3 == 2) q = more[k / 3 % 8]; else q = progs[(FIFO ? k : k / 3 * 2 + k % 3) % 10];
        SY.prog.clear(); std::string t; for (;; q++) { if (*q == '/' || !*q) { SY.prog.push_back(t); t.clear(); if (!*q) break; } else t += *q; }
        SY.pre = (k / 10) % 3 == 0 ? 2 : (k / 10) % 3 == 1 ? 1 : 3; SY.n = SY.pre + (k / 30) % 2; if (!RTK) SY.n++; w.bound = SY.prog.size() == 2 ? 3 : 2; SY.active = true; SY.execs = 0; w.path.clear(); SY.sd = rng().next();
    } else if (!SY.active) {
        static const char* shapes2[] = {"x", "xx", "xx", "xxx", "x", "xx"};
        SY.prog.clear(); int nt = 2 + rng().below(3) / 1; if (nt > 3) nt = 3; int tot = 0;
        for (int i = 0; i < nt; i++) { std::string s = shapes2[rng().below(nt == 2 ? 4 : 3)]; for (auto& ch : s) { ch = alphabet[rng().below(alphabet.size())]; tot++; } SY.prog.push_back(s); }
        SY.pre = rng().below(4); SY.n = RTK ? rng().below(4) : std::max<long>(1, SY.pre) + rng().below(2); w.bound = tot <= 4 ? 3 : 2; SY.active = true; SY.execs = 0; w.path.clear(); SY.sd = rng().next();
    }
    seed(SY.sd); w.sys = true; w.pos = 0; w.preempt = 0; SY.execs++;
    // the bookkeeping for the next execution happens first: a failure of another property may leave this one
    struct Next { ~Next() {} };
    Ctx x; X = &x; x.linp = linp; 
    static bool more; more = false;
    if (setjmp(*(jmp_buf*)&w.sysjmp) == 0) { w.insys = true; if (build(SY.n)) { for (int i = 0; i < SY.pre; i++) anyop("p");
        std::vector<std::function<void()>> t; for (auto& s : SY.prog) t.push_back([s] { for (char ch : s) anyop(std::string(1, ch)); });
        w.steps = 0; run(t); w.sys = false; finish(true, true); } }
    w.insys = false; w.sys = false; w.running = false;
    if (!advance() || SY.execs > (getenv("PROG") ? 20000000 : 60000)) SY.active = false;
}
static void seq(std::string const& cls, const char* linp, bool allocfail) {
    Ctx x; X = &x; x.linp = linp; long n = rng().below(5); if (!RTK && !n) n = 1;
    if (allocfail && rng().chance(3)) W().fail_at = rng().below(5);
    if (!build(n)) { W().fail_at = -1; if (W().nlive) fail("C17", "elements stay alive"); return; }
    W().fail_at = -1; x.allocfail = allocfail;
    int m = 1 + rng().below(24);
    for (int i = 0; i < m; i++) { if (allocfail && RTK && rng().chance(2)) W().fail_at = rng().below(4); anyop(cls); W().fail_at = -1; }
    finish(true, rng().chance(2));
}
#ifdef FIXED
static void limits() {
    Ctx x; X = &x;
    for (long n : {65535l, 65536l, 65537l, 70000l, 131072l, 131073l, 1l << 32}) {
        long lim = FIFO ? 65534 : 65535; bool threw = false;
        try { C c(n, C::allocator(Alloc<int>(3))); } catch (std::runtime_error&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
        if (threw != (n > lim)) fail("C11", "a fixed-sized container of %ld elements is %s", n, threw ? "rejected" : "accepted");
    }
    for (long n : {1l, 2l, 255l, 256l, 257l, 4096l, 65534l}) {
        C c(n, C::allocator(Alloc<int>(3))); W().forbid = true; long k = 0; W().steps = 0; for (; k <= n; k++) { W().steps = 0; W().trace.clear(); E e(k + 1); if (!c.bounded_push(e)) break; }
        if (k != n) fail("C11", "a fixed-sized container of %ld elements takes %ld", n, k);
        for (long i = 0; i < n; i++) { W().steps = 0; E r; if (!c.pop(r) || (long)r.id != (FIFO ? i + 1 : n - i)) fail(LINP, "element %ld of %ld is not received", i, n); }
        W().forbid = false;
    }
}
#endif
#if defined(CAPN) && CAPN > 1000
#define BIG FIFO ? "C08,C09,C10,C11,C16,C17,C18" : "C05,C06,C07,C09,C10,C11,C16,C17,C18"
static void limits() {
    static char* m = 0; static const std::size_t G = 1 << 20; if (!m) m = (char*)std::aligned_alloc(4096, (sizeof(C) + 2 * G + 4095) / 4096 * 4096);
    Ctx x; X = &x; std::memset(m, 0xa5, sizeof(C) + G); C* c = new (m) C(); W().forbid = true;
    for (int round = 0; round < 2; round++) {
        long k = 0, n = CAPN;
        for (; k <= n; k++) { W().steps = 0; W().trace.clear(); E e(k + 1); if (!c->bounded_push(e)) break; }
        if (k != n) fail(BIG, "a container of capacity %ld takes %ld elements", n, k);
        for (long i = 0; i < n; i++) { W().steps = 0; W().trace.clear(); E r; if (!c->pop(r) || (long)r.id != (FIFO ? i + 1 : n - i)) fail(BIG, "element %ld of %ld is not received", i, n); }
        E r; if (c->pop(r)) fail(BIG, "an element is received which was never pushed");
    }
    for (std::size_t i = 0; i < G; i++) if (m[sizeof(C) + i] != (char)0xa5) fail(BIG, "memory behind the container is written");
    c->~C(); W().forbid = false;
}
#endif
int main(int ac, char** av) {
    std::string s = ac > 1 ? av[1] : "basic"; uint64_t sd = ac > 2 ? strtoull(av[2], 0, 10) : 1, n = ac > 3 ? strtoull(av[3], 0, 10) : 1000; double secs = ac > 4 ? atof(av[4]) : 20; if (ac > 5) W().filter = av[5];
    uint64_t from = ac > 6 ? strtoull(av[6], 0, 10) : 0;
    W().track_races = true; sigprops() = FIFO ? "C08,C09,C10,C14,C15,C11,C13,C16,C17,C18" : "C05,C06,C07,C09,C10,C14,C15,C11,C13,C16,C17,C18";
    std::function<void()> f;
    if (s == "basic") f = [] { conc("ppo", "pppooa", LINP, false, false); };
    else if (s == "sys") f = [] { sysrun("pooo", LINP); };
    else if (s == "sysaba") f = [] { sysrun("*", LINP); };
    else if (s == "sysbounded") f = [] { sysrun("BBo", LINP); };
    else if (s == "bounded") f = [] { conc("BBo", "BBBooa", LINP, false, false); };
    else if (s == "alloc") f = [] { conc("ppo", "ppoow", LINP, false, false); };
    else if (s == "solo") f = [] { conc("ppo", "pppooarte", LINP, true, false); };
    else if (s == "phases") f = [] { conc("UUOOpo", "ppooa", (std::string("C14,") + LINP).c_str(), false, true); };
    else if (s == "seq") f = [] { seq("poaUOv", "C14", false); };
    else if (s == "seqfail") f = [] { seq("popprpUOv", "C17", true); };
#ifdef STACK
    else if (s == "systake") f = [] { sysrun("tttpo", "C07"); };
    else if (s == "sysrange") f = [] { sysrun("rrop", "C06,C05"); };
    else if (s == "range") f = [] { conc("ppro", "rrpoa", "C06,C05", false, false); };
    else if (s == "take") f = [] { conc("ppro", "ptto", "C07", false, false); };
    else if (s == "seqall") f = [] { seq("proatUO", "C05,C06,C07,C14,C16", false); };
#endif
#if defined(FIXED) || defined(CAPN) && CAPN > 1000
    else if (s == "limits") { W().steplimit = 1ull << 40; f = limits; n = 1; }
#endif
    else return 2;
    return drive(s.c_str(), f, sd, from, n, secs);
}
