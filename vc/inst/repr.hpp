#include <cstring>
// representation functions of the configuration: executed symbolically, so that no contract fixes a layout
typedef C::tagged_node_handle H;
typedef C::node               Node;
#if defined(CAP) || defined(FIXED)
#define INDEXED 1
X std::uint16_t h_ptr( H const& h ) { return h.get_index(); }
X void          h_pack( H* o, std::uint16_t p, std::uint16_t t ) { new ( o ) H( p, t ); }
X void          h_set_ptr( H* o, std::uint16_t p ) { o->set_index( p ); }
X std::uint16_t o_null( C& c ) { return c.pool.null_handle(); }
X Node*         o_nodeptr( C& c, std::uint16_t i ) { return c.pool.get_pointer( i ); }
X std::uint16_t o_nodeidx( C& c, Node* n ) { return c.pool.get_handle( n ); }
#else
X Node* h_ptr( H const& h ) { return h.get_ptr(); }
X void  h_pack( H* o, Node* p, std::uint16_t t ) { new ( o ) H( p, t ); }
X void  h_set_ptr( H* o, Node* p ) { o->set_ptr( p ); }
#endif
X std::uint16_t h_tag( H const& h ) { return h.get_tag(); }
X std::uint16_t h_next_tag( H const& h ) { return h.get_next_tag(); }
X void          h_set_tag( H* o, std::uint16_t t ) { o->set_tag( t ); }
X bool          h_eq( H const& a, H const& b ) { return a == b; }
X bool          h_ne( H const& a, H const& b ) { return a != b; }
X void*         o_pool( C& c ) { return &c.pool.pool_; }
X std::size_t   o_size() { return sizeof( C ); }
X std::size_t   o_nodesize() { return sizeof( Node ); }
#if defined(FIXED)
X void*       o_nodes( C& c ) { return &c.pool.nodes_; }
X void*       o_count( C& c ) { return &c.pool.node_count_; }
#endif
#if defined(CAP)
X void*       o_data( C& c ) { return &c.pool.data; }
X std::size_t o_datasize( C& c ) { return sizeof( c.pool.data ); }
#endif
X void* o_nodenext( Node* n ) { return &n->next; }
typedef C::pool_t::freelist_node PNode;
X void h_plink( PNode const& n, H* o ) { std::memcpy( (void*)o, &n.next, sizeof( H ) ); }
