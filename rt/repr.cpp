// tagged handles over many pointer/tag values.  -DINDEX for tagged_index; -DDCAS for the double word form
#include <boost/predef.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <boost/lockfree/detail/freelist.hpp>
#include <boost/lockfree/detail/tagged_ptr.hpp>
using namespace boost::lockfree::detail;
struct alignas(64) N { char c[64]; };
#ifdef INDEX
typedef tagged_index H; typedef H::index_t P; static P ptr(H const& h) { return h.get_index(); } static void setp(H& h, P p) { h.set_index(p); }
#else
typedef tagged_ptr<N> H; typedef N* P; static P ptr(H const& h) { return h.get_ptr(); } static void setp(H& h, P p) { h.set_ptr(p); }
#endif
typedef H::tag_t T;
static unsigned long long num(N* p) { return (uintptr_t)p; } static unsigned long long num(uint16_t p) { return p; }
#define FAIL(...) do { printf("FAILURE props=C12,C13 scenario=handles\n  "); printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
int main() {
    std::vector<P> ps; std::vector<T> ts; uint64_t s = 88172645463325252ull;
#ifdef INDEX
    for (int i = 0; i < 65536; i += (i < 600 || i > 65000) ? 1 : 97) ps.push_back((P)i);
#else
    ps.push_back(0); for (int b = 6; b < 47; b++) { ps.push_back((P)(1ull << b)); ps.push_back((P)((1ull << b) * 3 & 0x7fffffffffc0ull)); ps.push_back((P)((0x7fffffffffffull >> (46 - b)) & ~63ull)); }
    for (int i = 0; i < 300; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; ps.push_back((P)(s & 0x7fffffffffc0ull)); }
#endif
    for (int i = 0; i < 65536; i += (i < 300 || i > 65200 || (i & 255) == 255 || (i & 255) == 0) ? 1 : 61) ts.push_back((T)i);
    unsigned long n = 0;
    for (P p : ps) for (T t : ts) {
        n++;
        H h(p, t); if (ptr(h) != p || h.get_tag() != t) FAIL("handle(%llx, %u) reads back (%llx, %u)", num(p), (unsigned)t, num(ptr(h)), (unsigned)h.get_tag());
        if (h.get_next_tag() != (T)(sizeof(T) == 2 ? (t + 1) & 0xffff : t + 1)) FAIL("successor of tag %u is %u", (unsigned)t, (unsigned)h.get_next_tag());
        H c(h); if (ptr(c) != p || c.get_tag() != t || !(c == h) || c != h) FAIL("copy of handle(%llx, %u) differs", num(p), (unsigned)t);
        P q = ps[(n * 7919) % ps.size()]; T u = ts[(n * 104729) % ts.size()];
        H a(h); setp(a, q); if (ptr(a) != q || a.get_tag() != t) FAIL("replacing the pointer of handle(%llx, %u) by %llx gives (%llx, %u)", num(p), (unsigned)t, num(q), num(ptr(a)), (unsigned)a.get_tag());
        H b(h); b.set_tag(u); if (ptr(b) != p || b.get_tag() != u) FAIL("replacing the tag of handle(%llx, %u) by %u gives (%llx, %u)", num(p), (unsigned)t, (unsigned)u, num(ptr(b)), (unsigned)b.get_tag());
        H d(q, u); bool e = p == q && t == u; if ((d == h) != e || (d != h) == e) FAIL("handle(%llx, %u) and handle(%llx, %u) compare wrongly", num(p), (unsigned)t, num(q), (unsigned)u);
        H d2(p, u); if ((d2 == h) != (t == u) || (d2 != h) != (t != u)) FAIL("handles with tags %u and %u compare wrongly", (unsigned)t, (unsigned)u);
        for (int k = 0; k < 16; k++) { H f(p, (T)(t ^ (T)(1u << k))); if (f == h || !(f != h)) FAIL("handles with tags %u and %u compare equal", (unsigned)t, (unsigned)(T)(t ^ (T)(1u << k))); }
        H d3(q, t); if ((d3 == h) != (p == q)) FAIL("handles (%llx) and (%llx) compare wrongly", num(p), num(q));
        H e2(h); e2 = d; if (ptr(e2) != q || e2.get_tag() != u) FAIL("assignment of handle(%llx, %u) gives (%llx, %u)", num(q), (unsigned)u, num(ptr(e2)), (unsigned)e2.get_tag());
#ifndef INDEX
        if ((bool)h != (p != 0)) FAIL("handle(%llx, %u) is taken for %s", num(p), (unsigned)t, p ? "null" : "a node");
        H z(p); if (ptr(z) != p || z.get_tag() != 0) FAIL("handle(%llx) reads back (%llx, %u)", num(p), num(ptr(z)), (unsigned)z.get_tag());
        if (p && (&*h != p || &h->c[0] != (char*)p)) FAIL("dereferencing handle(%llx, %u)", num(p), (unsigned)t);
        h.set(q, u); if (ptr(h) != q || h.get_tag() != u) FAIL("set of handle(%llx, %u) gives (%llx, %u)", num(q), (unsigned)u, num(ptr(h)), (unsigned)h.get_tag());
#endif
    }
    printf("OK scenario=handles executions=%lu other-failures=0\n", n);
}
