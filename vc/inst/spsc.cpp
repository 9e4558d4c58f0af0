#include <iterator>
#include <boost/lockfree/spsc_queue.hpp>
#include "common.hpp"
using namespace boost::lockfree;
#ifndef ELEM
#define ELEM E
#endif
typedef ELEM T;
#if defined(CAP)
typedef spsc_queue< T, capacity< CAP > > C;
#else
typedef spsc_queue< T, allocator< VA< T > > > C;
#endif
typedef Fn< T > F;
#ifdef CAP
X void c_ctor( void* m ) { new ( m ) C(); }
X void c_ctor_a( void* m, C::allocator const& a ) { new ( m ) C( a ); }
#else
X void c_ctor( void* m, std::size_t n ) { new ( m ) C( n ); }
X void c_ctor_a( void* m, std::size_t n, VA< T > const& a ) { new ( m ) C( n, a ); }
X void c_ctor_u( void* m, std::size_t n, VA< int > const& a ) { new ( m ) C( n, a ); }
#endif
X void c_dtor( C& c ) { c.~C(); }
X bool c_push( C& c, T const& t ) { return c.push( t ); }
X std::size_t c_push_arr( C& c, T const* t, std::size_t n ) { return c.push( t, n ); }
X std::size_t c_push_arr5( C& c, T const ( &t )[ 5 ] ) { return c.push( t ); }
X T const* c_push_range( C& c, T const* b, T const* e ) { return c.push( b, e ); }
X bool c_pop0( C& c ) { return c.pop(); }
X bool c_pop( C& c, T& t ) { return c.pop( t ); }
#ifndef ELEMTRIV
X bool c_pop_u( C& c, U& t ) { return c.pop( t ); }
#endif
X std::size_t c_pop_arr( C& c, T* t, std::size_t n ) { return c.pop( t, n ); }
X std::size_t c_pop_arr5( C& c, T ( &t )[ 5 ] ) { return c.pop( t ); }
X std::size_t c_pop_out( C& c, T* t ) { return c.pop( t ); }
X bool c_cone( C& c, F& f ) { return c.consume_one( f ); }
X bool c_cone_c( C& c, F const& f ) { return c.consume_one( f ); }
X std::size_t c_call( C& c, F& f ) { return c.consume_all( f ); }
X std::size_t c_call_c( C& c, F const& f ) { return c.consume_all( f ); }
X std::size_t c_ravail( C& c ) { return c.read_available(); }
X std::size_t c_wavail( C& c ) { return c.write_available(); }
X T* c_front( C& c ) { return &c.front(); }
X T const* c_front_c( C const& c ) { return &c.front(); }
X void c_reset( C& c ) { c.reset(); }
X bool c_empty( C& c ) { return c.empty(); }
// field offsets, evaluated by the executor
X void* o_widx( C& c ) { return &c.write_index_; }
X void* o_ridx( C& c ) { return &c.read_index_; }
#ifdef CAP
X void* o_storage( C& c ) { return c.data(); }
#else
X void* o_array( C& c ) { return &c.array_; }
X void* o_max( C& c ) { return &c.max_elements_; }
#endif
X std::size_t o_size() { return sizeof( C ); }
