st,qu,fl,sp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/tagged_ptr_ptrcompression.hpp'
S=[
dict(id='c05-pop-version', property='C05', edits=[(st,"tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );","tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_tag() );",'2/2')],
 src='lists.cpp', defs='-DSTACK -DRT', args='sys 1 600000 200 C05', needs='consume_one with a const functor in one thread, which stops between reading the top and its compare-and-swap while two other threads pop and one of them pushes again, recycling the same node on top', breaks='the compare-and-swap of a stalled consume_one succeeds although the stack changed in between: an element is delivered twice or lost'),
dict(id='c08-pop-recheck', property='C08', edits=[(qu,"if ( BOOST_LIKELY( head == head2 ) ) {\n                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {","if ( BOOST_LIKELY( pool.get_handle( head ) == pool.get_handle( head2 ) ) ) {\n                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {",1)],
 src='lists.cpp', defs='-DQUEUE -DRT', env='PROG=o/oppoo PRE=2 NODES=2 BOUND=3', args='sys 1 100000000 200 C08', needs='a pop which reads head, then stops while the head node is popped, recycled and appended, reads tail and next, and stops again until the recycled node is the head once more', breaks='pop compares only the node of head and not its version, and reports empty for a queue which never was empty'),
dict(id='c18-free-relaxed', property='C18', edits=[(fl,"            new_pool_node->next.set_index( old_pool.get_index() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )","            new_pool_node->next.set_index( old_pool.get_index() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool, memory_order_relaxed ) )",1)],
 src='lists.cpp', defs='-DSTACK -DFIXED', args='basic 1 200000 200 C18', needs='a fixed-sized stack, a weakly ordered machine, and a node given back by one thread and taken from the pool by another', breaks='what the receiver did to an element (reading, destruction) is not ordered before its node is reused'),
dict(id='c03-popit-relaxed', property='C03', edits=[(sp,"            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + avail, it );\n            if ( new_read_index == max_size )\n                new_read_index = 0;\n        }\n\n        read_index_.store( new_read_index, memory_order_release );","            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + avail, it );\n            if ( new_read_index == max_size )\n                new_read_index = 0;\n        }\n\n        read_index_.store( new_read_index, memory_order_relaxed );",1)],
 src='spsc.cpp', defs='-DRT -DELEM', args='basic 1 200000 200 C03', needs='pop to an output iterator on a weakly ordered machine', breaks='the consumer releases slots without ordering its reads and destructions before the producer constructs in them'),
dict(id='c04-consume-const', property='C04', edits=[(sp,"    void run_functor_and_delete( T* first, T* last, Functor const& functor )\n    {\n        for ( ; first != last; ++first ) {\n            functor( *first );\n            first->~T();\n        }","    void run_functor_and_delete( T* first, T* last, Functor const& functor )\n    {\n        for ( ; first != last; ++first )\n            functor( *first );\n        if ( !boost::has_trivial_destructor< T >::value ) {\n            while ( first != last )\n                ( --first )->~T();\n        }",1)],
 src='spsc.cpp', defs='-DRT -DELEM', args='seq 1 200000 200 C04', needs='consume_all with a const functor on elements with a non-trivial destructor', breaks='the elements consumed are never destroyed (the clean-up loop starts at the end)'),
dict(id='c06-range-chunks', property='C06', edits=[(st,"        tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, end, ret );\n        if ( new_top_node )\n            link_nodes_atomic( new_top_node, end_node );\n\n        return ret;","        for ( ;; ) {\n            // bound the time nodes are held back: publish long ranges piecewise\n            ConstIterator chunk = begin;\n            for ( int i = 0; i != 2 && chunk != end; ++i )\n                ++chunk;\n            tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, chunk, ret );\n            if ( new_top_node )\n                link_nodes_atomic( new_top_node, end_node );\n            if ( ret != chunk || chunk == end )\n                return ret;\n            begin = ret;\n        }",1)],
 src='lists.cpp', defs='-DSTACK -DRT', args='sysrange 1 300000 200 C06', needs='a ranged push of more than two elements with another push or pop between its two publishing steps', breaks='a ranged push becomes visible in several steps; elements of other threads can appear inside the block'),
dict(id='c07-takeall-store', property='C07', edits=[(st,"            tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;","            tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );\n\n            // nodes below the top cannot change: only a different top node matters\n            tagged_node_handle current = tos.load();\n            if ( pool.get_handle( current ) == pool.get_handle( old_tos ) ) {\n                tos.store( new_tos );\n                break;\n            }\n            old_tos = current;",'4/4')],
 src='lists.cpp', defs='-DSTACK -DRT', args='systake 1 300000 200 C07', needs='a push by another thread between the last look at the top and the detaching store of consume_all_atomic_reversed (const functor)', breaks='elements pushed just before the detaching store are lost'),
dict(id='c11-limit', property='C11', edits=[(fl,"        if ( count > 65535 )","        if ( static_cast< boost::uint32_t >( count ) > 65536 )",1)],
 src='lists.cpp', defs='-DSTACK -DFIXED', args='limits 1 1 200 C11', needs='a fixed-sized container of exactly 65536 nodes (or of a multiple of 2^32 nodes plus a few)', breaks='sizes above 65535 nodes are accepted: the null index is then the index of the first node'),
dict(id='c13-upop-version', property='C13', edits=[(qu,"                detail::copy_payload( next_ptr->data, ret );\n                tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );","                detail::copy_payload( next_ptr->data, ret );\n                tagged_node_handle new_head( pool.get_handle( next ), next.get_next_tag() );",1)],
 src='lists.cpp', defs='-DQUEUE -DRT -fno-access-control', args='phases 1 200000 200 C13', needs='unsynchronized_pop, and a node whose link has a version different from that of the head', breaks='the version next to the head no longer advances when an element is removed without synchronization; it can repeat an earlier value'),
dict(id='c15-pop-nohelp', property='C15', edits=[(qu,"                    if ( next_ptr == 0 )\n                        return false;\n\n                    tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n","                    if ( next_ptr == 0 )\n                        return false;\n\n                    // a push is about to move the tail\n                    continue;\n",1)],
 src='lists.cpp', defs='-DQUEUE -DRT', args='solo 1 400000 200 C15', needs='a pushing thread stopped between linking its node and moving the tail, on a queue which was empty', breaks='pop waits for the stopped pusher instead of moving the tail itself: it never ends'),
dict(id='c16-takeall-last', property='C16', edits=[(st,"            node* node_pointer = pool.get_pointer( nodes_to_consume );\n            f( node_pointer->v );\n            element_count += 1;\n\n            node* next_node = pool.get_pointer( node_pointer->next );\n\n            if ( !next_node ) {\n                pool.template destruct< true >( nodes_to_consume );\n                break;\n            }\n","            node* node_pointer = pool.get_pointer( nodes_to_consume );\n            node* next_node    = pool.get_pointer( node_pointer->next );\n\n            if ( !next_node ) {\n                pool.template destruct< true >( nodes_to_consume );\n                f( node_pointer->v );\n                element_count += 1;\n                break;\n            }\n\n            f( node_pointer->v );\n            element_count += 1;\n",'2/2')],
 src='lists.cpp', defs='-DSTACK -DRT', args='systake 1 200000 200 C16', needs='consume_all_atomic with a const functor; another thread that takes the node of the last element from the pool before the functor reads it', breaks='the functor gets the last element after it was destroyed and its node given back'),
dict(id='c09-pool-version', property='C09', edits=[(fl,"            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );\n\n            if","            tagged_index new_pool( next_index->get_index(), old_pool.get_tag() );\n\n            if",1)],
 src='lists.cpp', defs='-DSTACK -DFIXED', args='sys 1 500000 200 C09', needs='a thread stopped inside the node pool between reading the next free node and its compare-and-swap, while other threads take that node and the next one and give the first back', breaks='the pool hands out a node which is owned by another operation'),
dict(id='c14-urange-bounded', property='C14', edits=[(st,"        tie( new_top_node, end_node ) = prepare_node_list< false, false >( begin, end, ret );","        tie( new_top_node, end_node ) = prepare_node_list< false, true >( begin, end, ret );",1)],
 src='lists.cpp', defs='-DSTACK -DRT', args='seq 1 200000 200 C11', needs='unsynchronized ranged push on a node-based stack whose pool has fewer free nodes than the range has elements', breaks='the unsynchronized ranged push stops early where the thread-safe one allocates'),
dict(id='c17-reserve-chain', property='C17', edits=[(fl,"        for ( std::size_t i = 0; i != count; ++i ) {\n            T* node = Alloc::allocate( 1 );\n            std::memset( (void*)node, 0, sizeof( T ) );\n            deallocate< ThreadSafe >( node );\n        }","        // obtain all nodes first, to touch the shared pool as briefly as possible\n        freelist_node* chain = NULL;\n        for ( std::size_t i = 0; i != count; ++i ) {\n            T* node = Alloc::allocate( 1 );\n            std::memset( (void*)node, 0, sizeof( T ) );\n            freelist_node* fresh = reinterpret_cast< freelist_node* >( node );\n            fresh->next.set_ptr( chain );\n            chain = fresh;\n        }\n        while ( chain ) {\n            freelist_node* next = chain->next.get_ptr();\n            void*          node = chain;\n            deallocate< ThreadSafe >( reinterpret_cast< T* >( node ) );\n            chain = next;\n        }",1)],
 src='lists.cpp', defs='-DSTACK -DRT', args='seqfail 1 200000 200 C17', needs='reserve of two or more nodes with an allocator which throws after the first one', breaks='the nodes obtained before the exception are neither in the pool nor given back'),
dict(id='c01-popit-wrap', property='C01', edits=[(sp,"            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );","            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );",1)],
 src='spsc.cpp', defs='-DRT -DTRIV', args='seq 1 200000 200 C01', needs='pop to an output iterator whose position matters (a pointer, not a back inserter) while the stored elements wrap around the end of the buffer', breaks='the elements of the second section overwrite those of the first one in the output'),
dict(id='c02-consume-wrap', property='C02', edits=[(sp,"        const size_t output_count = avail;","        const size_t output_count = ( std::min )( avail, max_size - read_index );",'1/2')],
 src='spsc.cpp', defs='-DRT -DTRIV', args='seq 1 200000 200 C02', needs='consume_all with a const functor while the stored elements wrap around the end of the buffer', breaks='consume_all stops at the end of the buffer and leaves elements which were available'),
]
