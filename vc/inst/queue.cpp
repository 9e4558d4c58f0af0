#include <iterator>
#include <boost/lockfree/queue.hpp>
#include "common.hpp"
using namespace boost::lockfree;
#ifdef ETHROW
typedef TQ T;
#else
typedef long T;
#endif
#if defined(CAP)
typedef queue< T, capacity< CAP > > C;
#elif defined(FIXED)
typedef queue< T, fixed_sized< true >, allocator< VA< T > > > C;
#else
typedef queue< T, allocator< VA< T > > > C;
#endif
#ifndef ETHROW
typedef Fn< T > F;
#endif
#ifdef CAP
X void c_ctor( void* m ) { new ( m ) C(); }
X void c_ctor_a( void* m, C::allocator const& a ) { new ( m ) C( a ); }
#else
X void c_ctor( void* m, std::size_t n ) { new ( m ) C( n ); }
X void c_ctor_a( void* m, std::size_t n, C::allocator const& a ) { new ( m ) C( n, a ); }
#endif
X void c_dtor( C& c ) { c.~C(); }
X bool c_push( C& c, T const& t ) { return c.push( t ); }
X bool c_bpush( C& c, T const& t ) { return c.bounded_push( t ); }
X bool c_upush( C& c, T const& t ) { return c.unsynchronized_push( t ); }
X bool c_pop( C& c, T& t ) { return c.pop( t ); }
#ifndef ETHROW
X bool c_pop_u( C& c, int& t ) { return c.pop( t ); }
struct Cv {
    long a;
    Cv( long const& ) noexcept;
    ~Cv() noexcept;
    Cv& operator=( long const& ) noexcept;
    Cv& operator=( Cv const& ) noexcept;
};
X bool c_pop_v( C& c, Cv& t ) { return c.pop( t ); }
X bool c_upop_u( C& c, int& t ) { return c.unsynchronized_pop( t ); }
X bool c_cone( C& c, F& f ) { return c.consume_one( f ); }
X bool c_cone_c( C& c, F const& f ) { return c.consume_one( f ); }
X std::size_t c_call( C& c, F& f ) { return c.consume_all( f ); }
X std::size_t c_call_c( C& c, F const& f ) { return c.consume_all( f ); }
#endif
X bool c_upop( C& c, T& t ) { return c.unsynchronized_pop( t ); }
X bool c_empty( C const& c ) { return c.empty(); }
#if !defined(CAP) && !defined(FIXED)
X void c_reserve( C& c, std::size_t n ) { c.reserve( n ); }
X void c_ureserve( C& c, std::size_t n ) { c.reserve_unsafe( n ); }
#endif
#include "repr.hpp"
X void* o_head( C& c ) { return &c.head_; }
X void* o_tail( C& c ) { return &c.tail_; }
X void* o_nodeval( Node* n ) { return &n->data; }
X void h_linkw( Node& n, H* o ) { *o = n.next.load( std::memory_order_relaxed ); }
