#include <iterator>
#include <boost/lockfree/stack.hpp>
#include "common.hpp"
using namespace boost::lockfree;
typedef E T;
#if defined(CAP)
typedef stack< T, capacity< CAP > > C;
#elif defined(FIXED)
typedef stack< T, fixed_sized< true >, allocator< VA< T > > > C;
#else
typedef stack< T, allocator< VA< T > > > C;
#endif
typedef FnS F;
#ifdef CAP
X void c_ctor( void* m ) { new ( m ) C(); }
X void c_ctor_a( void* m, C::allocator const& a ) { new ( m ) C( a ); }
#else
X void c_ctor( void* m, std::size_t n ) { new ( m ) C( n ); }
X void c_ctor_a( void* m, std::size_t n, C::allocator const& a ) { new ( m ) C( n, a ); }
#endif
X void c_dtor( C& c ) { c.~C(); }
X bool c_push( C& c, T const& t ) { return c.push( t ); }
X bool c_bpush( C& c, T const& t ) { return c.bounded_push( t ); }
X bool c_upush( C& c, T const& t ) { return c.unsynchronized_push( t ); }
X T const* c_push_range( C& c, T const* b, T const* e ) { return c.push( b, e ); }
X T const* c_bpush_range( C& c, T const* b, T const* e ) { return c.bounded_push( b, e ); }
X T const* c_upush_range( C& c, T const* b, T const* e ) { return c.unsynchronized_push( b, e ); }
X bool c_pop( C& c, T& t ) { return c.pop( t ); }
X bool c_pop_u( C& c, U& t ) { return c.pop( t ); }
X bool c_upop( C& c, T& t ) { return c.unsynchronized_pop( t ); }
X bool c_upop_u( C& c, U& t ) { return c.unsynchronized_pop( t ); }
X bool c_cone( C& c, F& f ) { return c.consume_one( f ); }
X bool c_cone_c( C& c, F const& f ) { return c.consume_one( f ); }
X std::size_t c_call( C& c, F& f ) { return c.consume_all( f ); }
X std::size_t c_call_c( C& c, F const& f ) { return c.consume_all( f ); }
X std::size_t c_catom( C& c, F& f ) { return c.consume_all_atomic( f ); }
X std::size_t c_catom_c( C& c, F const& f ) { return c.consume_all_atomic( f ); }
X std::size_t c_catomr( C& c, F& f ) { return c.consume_all_atomic_reversed( f ); }
X std::size_t c_catomr_c( C& c, F const& f ) { return c.consume_all_atomic_reversed( f ); }
X bool c_empty( C const& c ) { return c.empty(); }
#if !defined(CAP) && !defined(FIXED)
X void c_reserve( C& c, std::size_t n ) { c.reserve( n ); }
X void c_ureserve( C& c, std::size_t n ) { c.reserve_unsafe( n ); }
#endif
#include "repr.hpp"
X void* o_tos( C& c ) { return &c.tos; }
X void* o_nodeval( Node* n ) { return (void*)&n->v; }
X Node::handle_t h_link( Node const& n ) { return n.next; }
