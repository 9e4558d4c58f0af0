// Stand-in for boost/atomic.hpp (the library is compiled with BOOST_LOCKFREE_FORCE_BOOST_ATOMIC): every atomic access
// is a scheduling point of a cooperative scheduler and updates vector clocks.  Same size and layout as the value.
#ifndef LFMC_BOOST_ATOMIC_HPP
#define LFMC_BOOST_ATOMIC_HPP
#include <atomic>
#include <cstring>
#include <cstdint>
namespace lfmc {
enum Acc { LOAD, STORE, RMW, RMWFAIL, INIT };
void point(int minor = 0);                      // another thread may run here
bool spurious();                                // shall a weak compare-and-swap fail
// kind, address, size, order, old value, new value
void access(Acc k, void* a, unsigned size, std::memory_order o, uint64_t oldv, uint64_t newv);
template <class T> inline uint64_t bits(T const& v) { uint64_t r = 0; std::memcpy(&r, (void const*)&v, sizeof(T) < 8 ? sizeof(T) : 8); return r; }
}
namespace boost {
using std::memory_order;
using std::memory_order_relaxed;
using std::memory_order_consume;
using std::memory_order_acquire;
using std::memory_order_release;
using std::memory_order_acq_rel;
using std::memory_order_seq_cst;
template <class T> class atomic {
    T v;
    static std::memory_order fail_order(std::memory_order o) {
        return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o;
    }
    bool cas(T& e, T d, std::memory_order s, std::memory_order f, bool weak) {
        lfmc::point();
        uint64_t cur = lfmc::bits(v);
        bool ok = cur == lfmc::bits(e) && !(weak && lfmc::spurious());
        if (ok) { std::memcpy((void*)&v, (void const*)&d, sizeof(T)); lfmc::access(lfmc::RMW, this, sizeof(T), s, cur, lfmc::bits(d)); }
        else { std::memcpy((void*)&e, (void const*)&v, sizeof(T)); lfmc::access(lfmc::RMWFAIL, this, sizeof(T), f, cur, lfmc::bits(d)); }
        lfmc::point(1);
        return ok;
    }
public:
    atomic() {}
    atomic(T x) : v(x) { lfmc::access(lfmc::INIT, this, sizeof(T), memory_order_relaxed, 0, lfmc::bits(x)); }
    atomic(atomic const&) = delete;
    atomic& operator=(atomic const&) = delete;
    bool is_lock_free() const { return true; }
    T load(std::memory_order o = memory_order_seq_cst) const {
        lfmc::point();
        T r; std::memcpy((void*)&r, (void const*)&v, sizeof(T));
        lfmc::access(lfmc::LOAD, (void*)this, sizeof(T), o, lfmc::bits(r), 0);
        lfmc::point(1);
        return r;
    }
    void store(T x, std::memory_order o = memory_order_seq_cst) {
        lfmc::point();
        uint64_t old = lfmc::bits(v);
        std::memcpy((void*)&v, (void const*)&x, sizeof(T));
        lfmc::access(lfmc::STORE, this, sizeof(T), o, old, lfmc::bits(x));
        lfmc::point(1);
    }
    T exchange(T x, std::memory_order o = memory_order_seq_cst) {
        lfmc::point();
        T r; std::memcpy((void*)&r, (void const*)&v, sizeof(T));
        std::memcpy((void*)&v, (void const*)&x, sizeof(T));
        lfmc::access(lfmc::RMW, this, sizeof(T), o, lfmc::bits(r), lfmc::bits(x));
        lfmc::point(1);
        return r;
    }
    bool compare_exchange_weak(T& e, T d, std::memory_order o = memory_order_seq_cst) { return cas(e, d, o, fail_order(o), true); }
    bool compare_exchange_weak(T& e, T d, std::memory_order s, std::memory_order f) { return cas(e, d, s, f, true); }
    bool compare_exchange_strong(T& e, T d, std::memory_order o = memory_order_seq_cst) { return cas(e, d, o, fail_order(o), false); }
    bool compare_exchange_strong(T& e, T d, std::memory_order s, std::memory_order f) { return cas(e, d, s, f, false); }
    template <class U> T fetch_add(U d, std::memory_order o = memory_order_seq_cst) { lfmc::point(); T r = v; v = v + d; lfmc::access(lfmc::RMW, this, sizeof(T), o, lfmc::bits(r), lfmc::bits(v)); lfmc::point(1); return r; }
    template <class U> T fetch_sub(U d, std::memory_order o = memory_order_seq_cst) { lfmc::point(); T r = v; v = v - d; lfmc::access(lfmc::RMW, this, sizeof(T), o, lfmc::bits(r), lfmc::bits(v)); lfmc::point(1); return r; }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
};
}
#endif
