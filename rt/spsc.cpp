// spsc_queue under mc.hpp.  -DRT or -DCAPN=n; -DTRIV for a trivially destructible element type
#include "mc.hpp"
#include <list>
#include <boost/lockfree/spsc_queue.hpp>
using namespace mc;
const char* mc::P_RACE = "C03"; const char* mc::P_LIFE = "C04,C03,C16";
#ifdef TRIV
typedef Triv E;
#else
typedef Elem E;
#endif
#ifdef CAPN
typedef boost::lockfree::spsc_queue<E, boost::lockfree::capacity<CAPN>> C;
#else
typedef boost::lockfree::spsc_queue<E, boost::lockfree::allocator<Alloc<E>>> C;
#endif
static bool sane(Elem const& e) { return e.chk == ~e.id; }
static bool sane(Triv const& e) { return e.sane(); }
struct Ctx { C* c; long cap; uint32_t next = 1, want = 1; long pbeg = 0, pend = 0, cbeg = 0, cend = 0; bool seq = false, copyfail = false; };
static Ctx* X;
#define FAILS catch (CopyFail&) { W().copy_fail = -1; end("throws", 0); X->pbeg = X->pend; return; } W().copy_fail = -1
struct Conv { uint32_t id; Conv() : id(0) {} Conv(E const& e) : id(e.get()) {} };
static std::map<uint32_t, std::pair<int, int>> EP;
static void begin(const char* s) { lfmc::point(); tracef("%s", s); World& w = W(); w.inop[self()] = true; w.opsteps[self()] = 0; w.nacc[self()] = 0; if (!w.running) w.steps = 0; }
static void end(const char* s, long v) { W().inop[self()] = false; tracef("   %s: %ld", s, v); if (W().nacc[self()] > 8) fail("C15", "%s: an operation needs %d accesses to the shared indices", s, W().nacc[self()]); }
// counters: pbeg/pend elements whose push has begun / completed, cbeg/cend the same for removal
static void pushes(long req, long k, long cend0, const char* s) {
    long cap = X->cap; X->pend += k; X->pbeg = X->pend;
    if (k < 0 || k > req) fail("C02", "%s: %ld of %ld elements", s, k, req);
    // free space was at most cap - (pend - cbeg) at the end and at least cap - (pend - k - cend0) at the beginning
    if (X->pend - X->cbeg > cap) fail("C02,C01,C03", "%s: %ld elements in a queue of capacity %ld", s, X->pend - X->cbeg, cap);
    long lo = std::min(req, cap - (X->pend - k - cend0));
    if (k < lo) fail("C02", "%s transfers %ld elements although %ld fit at any time during the call", s, k, lo);
}
static void onepush(int k) {
    uint32_t id = X->next; E e(id); EP[id] = {self(), W().c[self()][self()]}; long c0 = X->cend; X->pbeg = X->pend + 1;
    begin("push"); tracef("   value %u", id); bool ok; if (X->copyfail && rng().chance(3)) W().copy_fail = 0; try { ok = X->c->push(e); } FAILS; end("push", ok); if (ok) X->next++; pushes(1, ok, c0, "push");
}
struct Arr { alignas(E) char m[16 * sizeof(E)]; int n = 0; E* p() { return (E*)m; } void add(uint32_t i) { new (p() + n) E(i); n++; } ~Arr() { while (n) { n--; p()[n].~E(); } } };
struct It { E const* p; typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E const* pointer; typedef E const& reference;
    E const& operator*() const { return *p; } It& operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; } bool operator==(It const& o) const { return p == o.p; } bool operator!=(It const& o) const { return p != o.p; } };
static void manypush(int k) {
    long n = rng().below(3) ? 1 + rng().below(X->cap + 2) : rng().below(3); if (k == 3) n = 3; if (n > 12) n = 12;
    Arr a; for (long i = 0; i < n; i++) { a.add(X->next + i); EP[X->next + i] = {self(), W().c[self()][self()]}; }
    long c0 = X->cend; X->pbeg = X->pend + n; long r;
    begin("push(many)"); for (long i = 0; i < n; i++) tracef("   value %u", (unsigned)(X->next + i));
    if (X->copyfail && rng().chance(2)) W().copy_fail = rng().below(5);
    try { if (k == 0) r = X->c->push(a.p(), n);
    else if (k == 1) { E const* b = a.p(); r = X->c->push(b, b + n) - b; }
    else if (k == 2) { It b{a.p()}, e{a.p() + n}; r = X->c->push(b, e).p - a.p(); }
    else { typedef E A3[3]; r = X->c->push(*(A3 const*)a.p()); } } FAILS;
    end("push(many)", r); X->next += r > 0 ? r : 0; pushes(n, r, c0, "push(many)");
}
static void got(uint32_t id, bool ok) {
    if (!ok) fail("C01,C03,C04", "a damaged element is received (%u)", id);
    if (id != X->want) fail("C01", "element %u is received, the next one pushed is %u", id, X->want);
    auto e = EP[id]; if (!ordered(e.first, e.second)) fail("C03", "the push of element %u by T%d is not ordered before its reception", id, e.first);
    X->want++;
}
static void pops(long req, long k, long pend0, const char* s) {
    X->cend += k; X->cbeg = X->cend;
    if (k < 0 || (req >= 0 && k > req)) fail("C02", "%s: %ld of %ld elements", s, k, req);
    if (X->cend > X->pbeg) fail("C02,C01", "%s: more elements are removed than were pushed", s);
    long av = pend0 - (X->cend - k), lo = req < 0 ? av : std::min(req, av);
    if (k < lo) fail("C02", "%s transfers %ld elements although %ld were available at any time during the call", s, k, lo);
}
static long N0() { return X->pend; }
struct Fn { long n = 0; void operator()(E const& e) { lfmc::point(1); uint32_t i = e.get(); tracef("   functor on %u", i); got(i, sane(e)); n++; lfmc::point(1); if (e.get() != i) fail("C16,C03", "element %u changes while the functor holds it", i); } };
struct CFn { Fn* f; void operator()(E const& e) const { (*f)(e); } };
struct Out { typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    long* n; Out& operator*() { return *this; } Out& operator++() { return *this; } Out& operator++(int) { return *this; } Out& operator=(E const& e) { got(e.get(), sane(e)); ++*n; return *this; } };
static Out mkout(long* n) { Out o; o.n = n; return o; }
static void popop(int k) {
    long p0 = N0(); C* c = X->c;
    switch (k) {
    case 0: { E r; X->cbeg = X->cend + 1; begin("pop(T&)"); bool ok = c->pop(r); end("pop", ok); pops(1, ok, p0, "pop"); if (ok) got(r.id, sane(r)); break; }
    case 1: { Conv r; X->cbeg = X->cend + 1; begin("pop(U&)"); bool ok = c->pop(r); end("pop", ok); pops(1, ok, p0, "pop"); if (ok) got(r.id, true); break; }
    case 2: { X->cbeg = X->cend + 1; begin("pop()"); bool ok = c->pop(); end("pop", ok); pops(1, ok, p0, "pop"); if (ok) X->want++; break; }
    case 3: case 4: { long n = k == 4 ? 3 : rng().below(X->cap + 3); if (n > 12) n = 12; Arr a; for (long i = 0; i < n; i++) a.add(0); X->cbeg = X->cend + n; begin("pop(array)"); typedef E A3[3]; long r = k == 3 ? c->pop(a.p(), n) : c->pop(*(A3*)a.p()); end("pop(array)", r);
        pops(n, r, p0, "pop(array)"); for (long i = 0; i < n; i++) { if (i < r) got(a.p()[i].id, sane(a.p()[i])); else if (a.p()[i].id) fail("C02", "pop(array) writes element %ld behind the %ld reported", i, r); } break; }
    case 5: if (rng().chance(2)) { long n = X->cap + 1; Arr a; for (long i = 0; i < n; i++) a.add(0); X->cbeg = X->cend + X->cap; begin("pop(iterator)"); long r = c->pop(a.p()); end("pop(iterator)", r); pops(-1, r, p0, "pop(iterator)");
        for (long i = 0; i < n; i++) { if (i < r) got(a.p()[i].id, sane(a.p()[i])); else if (a.p()[i].id) fail("C01,C02", "pop(iterator) writes element %ld behind the %ld reported", i, r); } break; }
        else { long n = 0; X->cbeg = X->cend + X->cap; begin("pop(iterator)"); long r = c->pop(mkout(&n)); end("pop(iterator)", r); pops(-1, r, p0, "pop(iterator)"); if (n != r) fail("C02,C01", "pop(iterator) returns %ld and writes %ld elements", r, n); break; }
    case 6: case 7: { Fn f; CFn g{&f}; X->cbeg = X->cend + 1; begin("consume_one"); bool ok = k == 6 ? c->consume_one(f) : c->consume_one((CFn const&)g); end("consume_one", ok); if (f.n != ok) fail("C16", "consume_one returns %d and calls the functor %ld times", ok, f.n); pops(1, ok, p0, "consume_one"); break; }
    case 8: case 9: { Fn f; CFn g{&f}; X->cbeg = X->cend + X->cap; begin("consume_all"); long r = k == 8 ? c->consume_all(f) : c->consume_all((CFn const&)g); end("consume_all", r); if (f.n != r) fail("C16", "consume_all returns %ld and calls the functor %ld times", r, f.n); pops(-1, r, p0, "consume_all"); break; }
    case 10: { begin("read_available"); long n = c->read_available(); end("read_available", n); if (n < p0 - X->cend || n > X->pbeg - X->cend) fail("C02", "read_available is %ld, between %ld and %ld elements are stored", n, p0 - X->cend, X->pbeg - X->cend);
        if (n > 0) { begin("front"); C const* cc = c; uint32_t i = rng().chance(2) ? c->front().get() : cc->front().get(); end("front", i); if (i != X->want) fail("C01", "front is %u, the next element pushed is %u", i, X->want); } break; }
    }
}
static void wavail() { long c0 = X->cend; begin("write_available"); long n = X->c->write_available(); end("write_available", n); long lo = X->cap - (X->pend - c0), hi = X->cap - (X->pend - X->cbeg);
    if (n < lo || n > std::min(hi, X->cap)) fail("C02", "write_available is %ld, between %ld and %ld elements fit", n, lo, hi); }
static void prod() { switch (rng().below(7)) { case 0: case 1: case 2: onepush(0); return; case 3: wavail(); return; default: manypush(rng().below(4)); } }
static void cons() { static const int t[] = {0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}; popop(t[rng().below(12)]); }
struct Holder { alignas(128) char m[sizeof(C)]; };
static Holder HOLD;
static bool build(Ctx& x, bool mayfail) {
    X = &x; EP.clear(); std::memset(HOLD.m, 0xcd, sizeof HOLD.m);
#ifdef CAPN
    x.cap = CAPN; W().forbid = true; x.c = new (HOLD.m) C();
#else
    x.cap = 1 + rng().below(6); if (mayfail && rng().chance(2)) W().fail_at = 0;
    try { if (mayfail && rng().chance(2)) { W().own = 0; x.c = new (HOLD.m) C(x.cap); } else { W().own = 5; x.c = new (HOLD.m) C(x.cap, Alloc<E>(5)); } } catch (std::bad_alloc&) { W().fail_at = -1; if (W().blocks) fail("C17,C04", "memory stays allocated after a failed construction"); return false; }
    W().fail_at = -1; if (W().blocks != 1 || W().blk.begin()->second.n != (std::size_t)x.cap + 1 && W().blk.begin()->second.n < (std::size_t)x.cap) fail("C04", "unexpected allocation");
    W().forbid = true;
#endif
    return true;
}
static void finish(Ctx& x) {
    int d = rng().below(4);
    x.seq = true;
    if (d) while (x.want < x.next) { uint32_t w0 = x.want; popop(d == 1 ? 0 : d == 2 ? 8 : 6); if (x.want == w0) fail("C01,C02", "element %u was pushed and is never received", w0); }
    if (d) { E r; if (x.c->pop(r)) fail("C01,C02", "an element is received which was never pushed"); if (!x.c->empty()) fail("C02", "empty() is false for a drained queue"); }
    if (rng().chance(4)) { W().steps = 0; tracef("reset"); x.c->reset(); x.want = x.next; x.cend = x.cbeg = x.pend = x.pbeg; if (x.c->read_available() || x.c->write_available() != x.cap) fail("C02,C04", "reset leaves elements"); if (W().nlive) fail("C04", "%ld elements are not destroyed by reset", W().nlive);
        for (int i = 0; i < 6; i++) if (rng().below(2)) prod(); else cons(); }
    long left = x.next - x.want; (void)left;
#ifndef TRIV
    if (W().nlive != left) fail(x.copyfail ? "C04,C17" : "C04", "%ld elements are alive, %ld are stored", W().nlive, left);
#endif
    tracef("destruction"); W().forbid = false; W().steps = 0; x.c->~C();
    if (W().blocks) fail("C04", "the buffer is not given back");
    if (W().nlive) fail("C04", "%ld elements are not destroyed by the destructor", W().nlive);
}
static void conc(bool solo, bool cf = false) {
    Ctx x; x.copyfail = cf; if (!build(x, false)) return;
    int pre = rng().below(12); for (int i = 0; i < pre; i++) if (rng().below(2)) prod(); else cons();
    for (int ph = 0; ph < 2; ph++) {
        int a = 1 + rng().below(5), b = 1 + rng().below(5); W().steps = 0;
        if (solo) { W().solo_at = 3 + rng().below(60); W().solo_limit = 400; }
        run({[a] { for (int i = 0; i < a; i++) prod(); }, [b] { for (int i = 0; i < b; i++) cons(); }});
        W().solo = 0; W().solo_at = 0;
    }
    finish(x);
}
static void seq(bool cf = false) {
    Ctx x; x.copyfail = cf; if (!build(x, true)) return;
    int n = 1 + rng().below(60); for (int i = 0; i < n; i++) if (rng().below(2)) prod(); else cons();
    finish(x);
}
#if defined(CAPN) && CAPN > 1000
static void limits() {
    static char* m = 0; static const std::size_t G = 1 << 20; static const long n = CAPN; if (!m) m = (char*)std::aligned_alloc(4096, (sizeof(C) + 2 * G + 4095) / 4096 * 4096);
    static const char* BIG = "C01,C02,C03,C04,C16"; static E* in = (E*)std::malloc(sizeof(E) * (n + 2)); static bool once = false; if (!once) { once = true; for (long i = 0; i < n + 2; i++) new (in + i) E(i + 1); }
    Ctx x; X = &x; std::memset(m, 0xa5, sizeof(C) + G); C* c = new (m) C(); W().forbid = true; long fl = W().nlive;
    for (int round = 0; round < 4; round++) {
        W().steps = 0; W().trace.clear();
        long at = 0; if (round == 0) { for (; at <= n; at++) { W().steps = 0; W().trace.clear(); if (!c->push(in[at])) break; } }
        else if (round == 1) at = c->push(in, n + 1); else if (round == 2) { It b{in}, e{in + n + 1}; at = c->push(b, e).p - in; } else { at = c->push(in, n - 5); at += c->push(in + at, 6); }
        if (at != n) fail(BIG, "a queue of capacity %ld takes %ld elements", n, at);
        if (c->write_available() != 0 || (long)c->read_available() != n) fail(BIG, "counts of a full queue of capacity %ld are %ld and %ld", n, (long)c->write_available(), (long)c->read_available());
        long k = 0; W().steps = 0;
        if (round == 1) { struct F { long* k; void operator()(E const& e) { W().steps = 0; W().trace.clear(); if ((long)e.id != ++*k) fail(BIG, "element %u received, %ld expected", e.id, *k); } } f{&k}; if ((long)c->consume_all(f) != n) fail(BIG, "consume_all misses elements"); }
        else for (; k < n; k++) { W().steps = 0; W().trace.clear(); E r; if (!c->pop(r) || (long)r.id != k + 1) fail(BIG, "element %ld of %ld is not received", k, n); }
        E r; if (k != n || c->pop(r)) fail(BIG, "the queue is not empty after its elements were received"); 
        if (round == 2) { c->push(in[0]); c->pop(r); }
    }
    for (std::size_t i = 0; i < G; i++) if (m[sizeof(C) + i] != (char)0xa5) fail(BIG, "memory behind the queue is written");
    c->~C(); W().forbid = false; (void)fl;
}
#endif
int main(int ac, char** av) {
    std::string s = ac > 1 ? av[1] : "basic"; uint64_t sd = ac > 2 ? strtoull(av[2], 0, 10) : 1, n = ac > 3 ? strtoull(av[3], 0, 10) : 1000; double secs = ac > 4 ? atof(av[4]) : 20; if (ac > 5) W().filter = av[5];
    if (s == "seqfail" || s == "fail") P_LIFE = "C04,C17,C03,C16";
    uint64_t from = ac > 6 ? strtoull(av[6], 0, 10) : 0;
    sigprops() = "C01,C02,C03,C04,C15,C16,C17";
    std::function<void()> f;
    if (s == "basic") f = [] { conc(false); };
    else if (s == "solo") f = [] { conc(true); };
    else if (s == "seq") f = [] { seq(); };
    else if (s == "seqfail") f = [] { seq(true); };
    else if (s == "fail") f = [] { conc(false, true); };
#if defined(CAPN) && CAPN > 1000
    else if (s == "limits") { W().steplimit = 1ull << 40; f = limits; n = 1; }
#endif
    else return 2;
    return drive(s.c_str(), f, sd, from, n, secs);
}
