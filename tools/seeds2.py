# second list of planted bugs (tools/mkseed.py tools/seeds2.py)
st,qu,fl,sp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/tagged_ptr_ptrcompression.hpp'
S=[
dict(id='c10-dropalloc', property='C10', edits=[(st,"    stack( size_type n, node_allocator const& alloc ) :\n        pool( alloc, n )","    stack( size_type n, node_allocator const& /*alloc*/ ) :\n        pool( node_allocator(), n )",1)],
 src='lists.cpp', defs='-DSTACK -DRT', args='seqall 1 200000 200 C10', needs='an allocator with state, given to the constructor stack(n, allocator)', breaks='node memory comes from, and goes back to, a default constructed allocator instead of the container\'s own'),
dict(id='c12-eq-topbit', property='C12', edits=[(tp,"        return ( ptr == p.ptr );","        // the pointers and the low bits of the tags decide\n        return ( ( ptr ^ p.ptr ) << 1 ) == 0;",1),(tp,"        return !operator==( p );","        return !operator==( p );",1)],
 src='repr.cpp', defs='', args='', needs='two handles to the same node whose tags differ by exactly 32768', breaks='they compare equal'),
dict(id='c02-ct-big', property='C02', edits=[(sp,"    static const std::size_t max_size = MaxSize + 1;","    static const std::size_t max_size = ( MaxSize & 0xffff ) + 1;",1)],
 src='spsc.cpp', defs='-DCAPN=70000 -DTRIV', args='limits 1 1 200 C02', needs='a compile-time capacity above 65535', breaks='the queue holds only capacity mod 65536 elements'),
dict(id='c15-push-nohelp', property='C15', edits=[(qu,"                } else {\n                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n                }\n            }\n        }\n    }\n#endif","                }\n                // otherwise the thread which has linked that node is about to move the tail\n            }\n        }\n    }\n#endif",1)],
 src='lists.cpp', defs='-DQUEUE -DRT', args='solo 1 400000 200 C15', needs='a pushing thread stopped between linking its node and moving the tail, and another push', breaks='the second push spins until the first thread runs again: not lock-free'),
dict(id='c09-reversed-destruct', property='C09', edits=[(st,"                pool.template destruct< true >( nodes_in_reversed_order );\n                break;","                pool.template destruct< false >( nodes_in_reversed_order );\n                break;",'2/2')],
 src='lists.cpp', defs='-DSTACK -DRT', args='systake 1 400000 200 C09', needs='consume_all_atomic_reversed with a const functor, and another thread using the node pool while the last node is given back', breaks='the plain store to the pool undoes the other thread\'s change: nodes are lost or handed out twice'),
dict(id='c03-pop-acquire', property='C03', edits=[(sp,"    bool consume_one( Functor const& functor, T* buffer, size_t max_size )\n    {\n        const size_t write_index = write_index_.load( memory_order_acquire );","    bool consume_one( Functor const& functor, T* buffer, size_t max_size )\n    {\n        const size_t write_index = write_index_.load( memory_order_relaxed );",1)],
 src='spsc.cpp', defs='-DRT -DELEM', args='basic 1 200000 200 C03', needs='consume_one with a const functor on a weakly ordered machine', breaks='the functor may read an element whose construction is not visible yet'),
]
S=[s for s in S if s['needs']]
