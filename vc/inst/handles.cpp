#include <boost/lockfree/detail/freelist.hpp>
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/queue.hpp>
#include <new>
#include <utility>
#include "common.hpp"
using namespace boost::lockfree;
struct N { long a, b; };
#ifdef INDEXED
typedef detail::tagged_index H;
typedef std::uint16_t        P;
X P h_ptr( H const& h ) { return h.get_index(); }
X void h_set_ptr( H* o, P p ) { o->set_index( p ); }
#else
typedef detail::tagged_ptr< N > H;
typedef N*                      P;
X P h_ptr( H const& h ) { return h.get_ptr(); }
X void h_set_ptr( H* o, P p ) { o->set_ptr( p ); }
X void h_set( H* o, P p, H::tag_t t ) { o->set( p, t ); }
X bool h_bool( H const& h ) { return bool( h ); }
X void* h_arrow( H const& h ) { return h.operator->(); }
X void* h_deref( H const& h ) { return &*h; }
#endif
X void h_ctor( H* o, P p, H::tag_t t ) { new ( o ) H( p, t ); }
X void h_ctor1( H* o, P p ) { new ( o ) H( p ); }
X void h_copy( H* o, H const& h ) { new ( o ) H( h ); }
X void h_assign( H* o, H const& h ) { *o = h; }
X H::tag_t h_tag( H const& h ) { return h.get_tag(); }
X H::tag_t h_next( H const& h ) { return h.get_next_tag(); }
X void h_set_tag( H* o, H::tag_t t ) { o->set_tag( t ); }
X bool h_eq( H const& a, H const& b ) { return a == b; }
X bool h_ne( H const& a, H const& b ) { return a != b; }
X std::size_t o_hsize() { return sizeof( H ); }
X std::size_t o_tagsize() { return sizeof( H::tag_t ); }

// node pool: handles of real nodes and the null handle
typedef long V;
#ifdef INDEXED
#    ifdef FIXED
typedef stack< V, fixed_sized< true > > S;
typedef queue< V, fixed_sized< true > > Q;
#    else
typedef stack< V, capacity< CAP > > S;
typedef queue< V, capacity< CAP > > Q;
#    endif
#else
typedef stack< V > S;
typedef queue< V > Q;
#endif
#define POOL( K, C )                                                                                                   \
    typedef decltype( std::declval< C >().pool.null_handle() ) P##K;                                                   \
    X P##K  p_null_##K( C& c ) { return c.pool.null_handle(); }                                                        \
    X void* p_ptr_##K( C& c, P##K i ) { return c.pool.get_pointer( i ); }                                              \
    X void* p_ptr_t_##K( C& c, C::pool_t::tagged_node_handle const& h ) { return c.pool.get_pointer( h ); }            \
    X void* p_ptr_p_##K( C& c, C::node* n ) { return c.pool.get_pointer( n ); }                                        \
    X P##K  p_handle_##K( C& c, C::node* n ) { return c.pool.get_handle( n ); }                                        \
    X P##K  p_handle_t_##K( C& c, C::pool_t::tagged_node_handle const& h ) { return c.pool.get_handle( h ); }          \
    X std::size_t o_size_##K() { return sizeof( C ); }                                                                 \
    X std::size_t o_nodesize_##K() { return sizeof( C::node ); }
POOL( s, S )
POOL( q, Q )
#ifdef INDEXED
#    ifdef FIXED
#        define STORE( K, C )                                                                                          \
            X void* o_nodes_##K( C& c ) { return &c.pool.nodes_; }                                                     \
            X void* o_count_##K( C& c ) { return &c.pool.node_count_; }
#    else
#        define STORE( K, C )                                                                                          \
            X void*       o_data_##K( C& c ) { return &c.pool.data; }                                                  \
            X std::size_t o_datasize_##K( C& c ) { return sizeof( c.pool.data ); }
#    endif
STORE( s, S )
STORE( q, Q )
#endif
