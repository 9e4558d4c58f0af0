st,qu,fl,sp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/tagged_ptr_ptrcompression.hpp'
SQ=('stack','queue')
M=[
('pop-tag', st, "tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );","tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_tag() );",2,('stack',)),
('catom-tag', st, "tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );","tagged_node_handle new_tos( pool.null_handle(), old_tos.get_tag() );",0,('stack',)),
('fl-alloc-tag', fl, "tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if","tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );\n\n            if",1,SQ),
('fl-dealloc-settag', fl, "            new_pool->next.set_ptr( old_pool.get_ptr() );\n\n            if","            new_pool->next = tagged_node_ptr( old_pool.get_ptr(), 0 );\n\n            if",1,SQ),
('fsf-dealloc-settag', fl, "            new_pool_node->next.set_index( old_pool.get_index() );\n\n            if","            new_pool_node->next = tagged_index( old_pool.get_index(), 0 );\n\n            if",1,SQ),
('pop-free-before-f', st, "                f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );","                pool.template destruct< true >( old_tos );\n                f( old_tos_pointer->v );",2,('stack',)),
('link-order-relaxed', st, "if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;\n        }\n    }","if ( tos.compare_exchange_weak( old_tos, new_tos, memory_order_relaxed ) )\n                break;\n        }\n    }",1,('stack',)),
('pop-relaxed', st, "tagged_node_handle old_tos = tos.load( detail::memory_order_consume );\n\n        for ( ;; ) {\n            node* old_tos_pointer = pool.get_pointer( old_tos );\n            if ( !old_tos_pointer )\n                return false;","tagged_node_handle old_tos = tos.load( detail::memory_order_relaxed );\n\n        for ( ;; ) {\n            node* old_tos_pointer = pool.get_pointer( old_tos );\n            if ( !old_tos_pointer )\n                return false;",2,('stack',)),
('range-end-next', st, "            end_node->next = pool.get_handle( old_tos );\n\n            if","            new_top_node->next = pool.get_handle( old_tos );\n\n            if",1,('stack',)),
('range-oneshort', st, "for ( ; it != end; ++it ) {\n                node* newnode","for ( ; it + 1 != end; ++it ) {\n                node* newnode",1,('stack',)),
('range-ret', st, "        ret = it;\n        return make_tuple( new_top_node","        ret = end;\n        return make_tuple( new_top_node",1,('stack',)),
('range-null', st, "                if ( newnode == NULL )\n                    break;","                if ( newnode == NULL ) {\n                    ret = begin; return make_tuple< node*, node* >( NULL, NULL ); }",1,('stack',)),
('range-catch', st, "for ( node* current_node = new_top_node; current_node != NULL; ) {","for ( node* current_node = pool.get_pointer( new_top_node->next ); current_node != NULL; ) {",1,('stack',)),
('upop-notag', st, "tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );","tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_tag() );",1,('stack',)),
('rev-noreverse', st, "            node_pointer->next = pool.get_handle( last_node_pointer );\n            last_node_pointer  = node_pointer;\n","            last_node_pointer  = node_pointer;\n",2,('stack',)),
('call-count', st, "        while ( consume_one( f ) )\n            element_count += 1;","        while ( consume_one( f ) )\n            element_count = 1;",2,('stack',)),
('dtor-noconsume', st, "(void)consume_all( consume_functor );","(void)consume_one( consume_functor );",1,('stack',)),
('empty-neg', st, "return pool.get_pointer( tos.load() ) == NULL;","return pool.get_pointer( tos.load() ) != NULL;",1,('stack',)),
# queue
('q-push-notail2', qu, "if ( BOOST_LIKELY( tail == tail2 ) ) {","if ( BOOST_LIKELY( tail.get_ptr() == tail2.get_ptr() ) ) {",1,('queue',)),
('q-push-notail2b', qu, "if ( BOOST_LIKELY( tail == tail2 ) ) {","if ( true ) {",1,('queue',)),
('q-push-nohelp', qu, "                } else {\n                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n                }\n            }\n        }\n    }\n#endif","                }\n            }\n        }\n    }\n#endif",1,('queue',)),
('q-push-linktag', qu, "tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );","tagged_node_handle new_tail_next( node_handle, next.get_tag() );",1,('queue',)),
('q-push-tailtag', qu, "                        tagged_node_handle new_tail( node_handle, tail.get_next_tag() );","                        tagged_node_handle new_tail( node_handle, tail.get_tag() );",1,('queue',)),
('q-push-noswing', qu, "                        tail_.compare_exchange_strong( tail, new_tail );\n                        return true;","                        return true;",1,('queue',)),
('q-push-weakswing', qu, "                        tail_.compare_exchange_strong( tail, new_tail );\n                        return true;","                        tail_.compare_exchange_weak( tail, new_tail );\n                        return true;",1,('queue',)),
('q-push-linkrelaxed', qu, "if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) ) {","if ( tail_node->next.compare_exchange_weak( next, new_tail_next, memory_order_relaxed ) ) {",1,('queue',)),
('q-pop-nohead2', qu, "if ( BOOST_LIKELY( head == head2 ) ) {","if ( true ) {",1,('queue',)),
('q-pop-tail-late', qu, "            tagged_node_handle tail     = tail_.load( memory_order_acquire );\n            tagged_node_handle next     = head_ptr->next.load( memory_order_acquire );\n            node*              next_ptr = pool.get_pointer( next );\n","            tagged_node_handle next     = head_ptr->next.load( memory_order_acquire );\n            tagged_node_handle tail     = tail_.load( memory_order_acquire );\n            node*              next_ptr = pool.get_pointer( next );\n",1,('queue',)),
('q-pop-headtag', qu, "                    tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );\n                    if","                    tagged_node_handle new_head( pool.get_handle( next ), head.get_tag() );\n                    if",1,('queue',)),
('q-pop-copylate', qu, "                        detail::copy_payload( element, ret );\n                        pool.template destruct< true >( head );","                        pool.template destruct< true >( head );\n                        detail::copy_payload( next_ptr->data, ret );",1,('queue',)),
('q-pop-emptytail', qu, "                    if ( next_ptr == 0 )\n                        return false;\n\n                    tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n","                    return false;\n",1,('queue',)),
('q-pop-nextrelaxed', qu, "tagged_node_handle next     = head_ptr->next.load( memory_order_acquire );","tagged_node_handle next     = head_ptr->next.load( memory_order_relaxed );",1,('queue',)),
('q-pop-headrelaxed', qu, "tagged_node_handle head2 = head_.load( memory_order_acquire );","tagged_node_handle head2 = head_.load( memory_order_relaxed );",1,('queue',)),
('q-pop-nodestruct', qu, "                        pool.template destruct< true >( head );\n","",1,('queue',)),
('q-pop-destructnext', qu, "                        pool.template destruct< true >( head );\n","                        pool.template destruct< true >( next );\n",1,('queue',)),
('q-node-tag', qu, "tagged_node_handle new_next( null_handle, old_next.get_next_tag() );","tagged_node_handle new_next( null_handle, 0 );",1,('queue',)),
('q-node-tag2', qu, "tagged_node_handle new_next( null_handle, old_next.get_next_tag() );","tagged_node_handle new_next( null_handle, old_next.get_tag() );",1,('queue',)),
('q-ctor-n', qu, "pool( node_allocator(), n + 1 )","pool( node_allocator(), n )",1,('queue',)),
('q-upush-tail', qu, "                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );\n","",1,('queue',)),
('q-upop-free', qu, "                pool.template destruct< false >( head );\n","                pool.template destruct< false >( next );\n",1,('queue',)),
('q-dtor', qu, "        pool.template destruct< false >( head_.load( memory_order_relaxed ) );\n","",1,('queue',)),
('q-cap', qu, "::capacity + 1;","::capacity;",1,('queue',)),
]
