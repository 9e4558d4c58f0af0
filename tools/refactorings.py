# behaviour-preserving edits: every one must be QUIET (tools/mutate.py tools/refactorings.py)
st,qu,fl,sp,tp,ti='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/tagged_ptr_ptrcompression.hpp','detail/freelist.hpp'
SQ=('stack','queue')
M=[
# ---- stack
('s-link-helper', st, [("            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n            end_node->next = pool.get_handle( old_tos );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;",
 "            if ( try_link( new_top_node, end_node, old_tos ) )\n                return;"),
 ("    void link_nodes_atomic( node*", "    bool try_link( node* first, node* last, tagged_node_handle& expected )\n    {\n        last->next = pool.get_handle( expected );\n        const tagged_node_handle desired( pool.get_handle( first ), expected.get_tag() );\n        return tos.compare_exchange_weak( expected, desired );\n    }\n\n    void link_nodes_atomic( node*")], None, 1, ('stack',)),
('s-link-dowhile', st, "        for ( ;; ) {\n            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n            end_node->next = pool.get_handle( old_tos );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;\n        }",
 "        tagged_node_handle new_tos;\n        do {\n            new_tos        = tagged_node_handle( pool.get_handle( new_top_node ), old_tos.get_tag() );\n            end_node->next = pool.get_handle( old_tos );\n        } while ( !tos.compare_exchange_weak( old_tos, new_tos ) );", 1, ('stack',)),
('s-link-strong', st, "            end_node->next = pool.get_handle( old_tos );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) )", "            end_node->next = pool.get_handle( old_tos );\n\n            if ( tos.compare_exchange_strong( old_tos, new_tos ) )", 1, ('stack',)),
('s-link-reload', st, "            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;\n        }\n    }", "            if ( tos.compare_exchange_weak( old_tos, new_tos ) )\n                break;\n            old_tos = tos.load( memory_order_acquire );\n        }\n    }", 1, ('stack',)),
('s-unsafe-order', st, "        tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n        end_node->next = pool.get_handle( old_tos );\n\n        tos.store", "        end_node->next = pool.get_handle( old_tos );\n        tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );\n\n        tos.store", 1, ('stack',)),
('s-range-while', st, "            for ( ; it != end; ++it ) {\n                node* newnode = pool.template construct< Threadsafe, Bounded >( *it );\n                if ( newnode == NULL )\n                    break;\n                newnode->next = pool.get_handle( new_top_node );\n                new_top_node  = newnode;\n            }",
 "            while ( !( it == end ) ) {\n                node* const newnode = pool.template construct< Threadsafe, Bounded >( *it );\n                if ( !newnode )\n                    break;\n                newnode->next = pool.get_handle( new_top_node );\n                new_top_node  = newnode;\n                ++it;\n            }", 1, ('stack',)),
('s-range-helper', st, [("                node* newnode = pool.template construct< Threadsafe, Bounded >( *it );\n                if ( newnode == NULL )\n                    break;\n                newnode->next = pool.get_handle( new_top_node );\n                new_top_node  = newnode;",
 "                if ( !prepend< Threadsafe, Bounded >( *it, new_top_node ) )\n                    break;"),
 ("    template < bool Threadsafe, bool Bounded, typename ConstIterator >\n    tuple< node*, node* > prepare_node_list", "    template < bool Threadsafe, bool Bounded >\n    bool prepend( T const& value, node*& first )\n    {\n        node* n = pool.template construct< Threadsafe, Bounded >( value );\n        if ( n ) {\n            n->next = pool.get_handle( first );\n            first   = n;\n        }\n        return n != NULL;\n    }\n\n    template < bool Threadsafe, bool Bounded, typename ConstIterator >\n    tuple< node*, node* > prepare_node_list")], None, 1, ('stack',)),
('s-range-merged', st, "        if ( begin == end ) {\n            ret = begin;\n            return make_tuple< node*, node* >( NULL, NULL );\n        }\n\n        ConstIterator it       = begin;", "        ret = begin;\n        if ( begin == end )\n            return make_tuple< node*, node* >( NULL, NULL );\n\n        ConstIterator it       = begin;", 1, ('stack',)),
('s-range-incr', st, "pool.template construct< Threadsafe, Bounded >( *it++ );", "pool.template construct< Threadsafe, Bounded >( *it );\n        ++it;", 1, ('stack',)),
('s-dopush-invert', st, "        if ( newnode == 0 )\n            return false;\n\n        link_nodes_atomic( newnode, newnode );\n        return true;", "        if ( newnode ) {\n            link_nodes_atomic( newnode, newnode );\n            return true;\n        }\n        return false;", 1, ('stack',)),
('s-pop-while', st, "        tagged_node_handle old_tos = tos.load( detail::memory_order_consume );\n\n        for ( ;; ) {\n            node* old_tos_pointer = pool.get_pointer( old_tos );\n            if ( !old_tos_pointer )\n                return false;\n\n            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {\n                f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );\n                return true;\n            }\n        }",
 "        tagged_node_handle old_tos         = tos.load( detail::memory_order_consume );\n        node*              old_tos_pointer = pool.get_pointer( old_tos );\n\n        while ( old_tos_pointer != NULL ) {\n            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {\n                f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );\n                return true;\n            }\n            old_tos_pointer = pool.get_pointer( old_tos );\n        }\n        return false;", 2, ('stack',)),
('s-pop-helper', st, [("        tagged_node_handle old_tos = tos.load( detail::memory_order_consume );\n\n        for ( ;; ) {\n            node* old_tos_pointer = pool.get_pointer( old_tos );\n            if ( !old_tos_pointer )\n                return false;\n\n            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );\n\n            if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {\n                f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );\n                return true;\n            }\n        }",
 "        tagged_node_handle old_tos;\n        if ( !unlink_top( old_tos ) )\n            return false;\n        f( pool.get_pointer( old_tos )->v );\n        pool.template destruct< true >( old_tos );\n        return true;")], None, 2, ('stack',)),
('s-destruct-node', st, "                f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos );\n                return true;", "                f( old_tos_pointer->v );\n                pool.template destruct< true >( old_tos_pointer );\n                return true;", 2, ('stack',)),
('s-call-for', st, "        size_t element_count = 0;\n        while ( consume_one( f ) )\n            element_count += 1;\n\n        return element_count;", "        size_t element_count;\n        for ( element_count = 0; consume_one( f ); ++element_count ) {}\n\n        return element_count;", 2, ('stack',)),
('s-catom-next', st, "            if ( !next_node ) {\n                pool.template destruct< true >( nodes_to_consume );\n                break;\n            }\n\n            tagged_node_handle next( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );\n            pool.template destruct< true >( nodes_to_consume );\n            nodes_to_consume = next;",
 "            pool.template destruct< true >( nodes_to_consume );\n            if ( !next_node )\n                break;\n\n            nodes_to_consume = tagged_node_handle( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );", 0, ('stack',)),
('s-catom-ptr', st, "        tagged_node_handle nodes_to_consume = old_tos;\n\n        for ( ;; ) {\n            node* node_pointer = pool.get_pointer( nodes_to_consume );\n            f( node_pointer->v );\n            element_count += 1;\n\n            node* next_node = pool.get_pointer( node_pointer->next );\n\n            if ( !next_node ) {\n                pool.template destruct< true >( nodes_to_consume );\n                break;\n            }\n\n            tagged_node_handle next( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );\n            pool.template destruct< true >( nodes_to_consume );\n            nodes_to_consume = next;\n        }",
 "        node* current = pool.get_pointer( old_tos );\n        while ( current ) {\n            node* const following = pool.get_pointer( current->next );\n            f( current->v );\n            ++element_count;\n            pool.template destruct< true >( current );\n            current = following;\n        }", 2, ('stack',)),
('s-upop-reuse', st, "        if ( !pool.get_pointer( old_tos ) )\n            return false;", "        if ( old_tos_pointer == NULL )\n            return false;", 1, ('stack',)),
('s-upop-copyfirst', st, "        tos.store( new_tos, memory_order_relaxed );\n        detail::copy_payload( old_tos_pointer->v, ret );", "        detail::copy_payload( old_tos_pointer->v, ret );\n        tos.store( new_tos, memory_order_relaxed );", 1, ('stack',)),
('s-upop-handle', st, "        node*              new_tos_ptr = pool.get_pointer( old_tos_pointer->next );\n        tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );", "        tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );", 1, ('stack',)),
('s-empty-not', st, "return pool.get_pointer( tos.load() ) == NULL;", "const tagged_node_handle top = tos.load( memory_order_acquire );\n        return !pool.get_pointer( top );", 1, ('stack',)),
('s-dtor-loop', st, "        detail::consume_noop consume_functor;\n        (void)consume_all( consume_functor );\n    }\n\nprivate:", "        detail::consume_noop consume_functor;\n        while ( consume_one( consume_functor ) ) {}\n    }\n\nprivate:", 1, ('stack',)),
# ---- queue
('q-push-check', qu, "        node*       n           = pool.template construct< true, Bounded >( t, pool.null_handle() );\n        handle_type node_handle = pool.get_handle( n );\n\n        if ( n == NULL )\n            return false;", "        node* n = pool.template construct< true, Bounded >( t, pool.null_handle() );\n        if ( !n )\n            return false;\n\n        const handle_type node_handle = pool.get_handle( n );", 1, ('queue',)),
('q-push-continue', qu, "            tagged_node_handle tail2 = tail_.load( memory_order_acquire );\n            if ( BOOST_LIKELY( tail == tail2 ) ) {\n                if ( next_ptr == 0 ) {\n                    tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );\n                    if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) ) {\n                        tagged_node_handle new_tail( node_handle, tail.get_next_tag() );\n                        tail_.compare_exchange_strong( tail, new_tail );\n                        return true;\n                    }\n                } else {\n                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n                }\n            }",
 "            tagged_node_handle tail2 = tail_.load( memory_order_acquire );\n            if ( tail != tail2 )\n                continue;\n            if ( next_ptr != NULL ) {\n                advance_tail( tail, pool.get_handle( next_ptr ) );\n                continue;\n            }\n            tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );\n            if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) ) {\n                advance_tail( tail, node_handle );\n                return true;\n            }", 1, ('queue',)),
('q-push-helper', qu, [("                        tagged_node_handle new_tail( node_handle, tail.get_next_tag() );\n                        tail_.compare_exchange_strong( tail, new_tail );\n                        return true;", "                        swing( tail, node_handle );\n                        return true;"),
 ("                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );\n                    tail_.compare_exchange_strong( tail, new_tail );\n                }", "                    swing( tail, pool.get_handle( next_ptr ) );\n                }"),
 ("    template < bool Bounded >\n    bool do_push( T const& t )", "    void swing( tagged_node_handle& expected, handle_type to )\n    {\n        tagged_node_handle desired( to, expected.get_next_tag() );\n        tail_.compare_exchange_strong( expected, desired );\n    }\n\n    template < bool Bounded >\n    bool do_push( T const& t )")], None, 1, ('queue',)),
('q-push-strong', qu, "if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) )", "if ( tail_node->next.compare_exchange_strong( next, new_tail_next ) )", 1, ('queue',)),
('q-push-order', qu, "            node*              tail_node = pool.get_pointer( tail );\n            tagged_node_handle next      = tail_node->next.load( memory_order_acquire );\n            node*              next_ptr  = pool.get_pointer( next );\n\n            tagged_node_handle tail2 = tail_.load( memory_order_acquire );\n", "            node*              tail_node = pool.get_pointer( tail );\n            tagged_node_handle next      = tail_node->next.load( memory_order_acquire );\n            tagged_node_handle tail2     = tail_.load( memory_order_acquire );\n            node*              next_ptr  = pool.get_pointer( next );\n", 1, ('queue',)),
('q-pop-handle', qu, "                    tagged_node_handle new_head( pool.get_handle( next ), head.get_next_tag() );\n                    if", "                    tagged_node_handle new_head( pool.get_handle( next_ptr ), head.get_next_tag() );\n                    if", 1, ('queue',)),
('q-pop-continue', qu, "            if ( BOOST_LIKELY( head == head2 ) ) {\n                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {\n                    if ( next_ptr == 0 )\n                        return false;\n", "            if ( head != head2 )\n                continue;\n            {\n                if ( head_ptr == pool.get_pointer( tail ) ) {\n                    if ( !next_ptr )\n                        return false;\n", 1, ('queue',)),
('q-pop-readorder', qu, "            tagged_node_handle tail     = tail_.load( memory_order_acquire );\n            tagged_node_handle next     = head_ptr->next.load( memory_order_acquire );\n            node*              next_ptr = pool.get_pointer( next );\n\n            tagged_node_handle head2", "            tagged_node_handle tail     = tail_.load();\n            tagged_node_handle next     = head_ptr->next.load();\n            node*              next_ptr = pool.get_pointer( next );\n\n            tagged_node_handle head2", 1, ('queue',)),
('q-upush-helper', qu, "            if ( next_ptr == 0 ) {\n                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );\n                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );\n                return true;\n            } else\n                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),\n                             memory_order_relaxed );", "            if ( next_ptr ) {\n                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ), memory_order_relaxed );\n                continue;\n            }\n            tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );\n            tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );\n            return true;", 1, ('queue',)),
('q-upop-nochk', qu, "            } else {\n                if ( next_ptr == 0 )\n                    /* this check is not part of the original algorithm as published by michael and scott\n                     *\n                     * however we reuse the tagged_ptr part for the freelist and clear the next part during node\n                     * allocation. we can observe a null-pointer here.\n                     * */\n                    continue;\n                detail::copy_payload( next_ptr->data, ret );", "            } else {\n                detail::copy_payload( next_ptr->data, ret );", 1, ('queue',)),
('q-upop-relaxed', qu, "                head_.store( new_head );", "                head_.store( new_head, memory_order_relaxed );", 1, ('queue',)),
('q-cone-invert', qu, "        T    element;\n        bool success = pop( element );\n        if ( success )\n            f( element );\n\n        return success;", "        T element;\n        if ( !pop( element ) )\n            return false;\n\n        f( element );\n        return true;", 2, ('queue',)),
('q-dtor-loop', qu, "        T dummy;\n        while ( unsynchronized_pop( dummy ) ) {}", "        for ( T dummy; unsynchronized_pop( dummy ); ) {}", 1, ('queue',)),
('q-node-once', qu, "            tagged_node_handle old_next = next.load( memory_order_relaxed );\n            tagged_node_handle new_next( null_handle, old_next.get_next_tag() );\n            next.store( new_next, memory_order_release );", "            next.store( tagged_node_handle( null_handle, next.load( memory_order_relaxed ).get_next_tag() ), memory_order_release );", 1, ('queue',)),
# ---- freelist
('f-alloc-helper', fl, [("                if ( !Bounded ) {\n                    T* ptr = Alloc::allocate( 1 );\n                    std::memset( (void*)ptr, 0, sizeof( T ) );\n                    return ptr;\n                } else\n                    return 0;", "                return Bounded ? 0 : fresh_node();"),
  ("    template < bool Bounded >\n    T* allocate_impl( void )", "    T* fresh_node( void )\n    {\n        T* ptr = Alloc::allocate( 1 );\n        std::memset( (void*)ptr, 0, sizeof( T ) );\n        return ptr;\n    }\n\n    template < bool Bounded >\n    T* allocate_impl( void )")], None, 1, SQ),
('f-alloc-while', fl, "        for ( ;; ) {\n            if ( !old_pool.get_ptr() ) {\n                if ( !Bounded ) {\n                    T* ptr = Alloc::allocate( 1 );\n                    std::memset( (void*)ptr, 0, sizeof( T ) );\n                    return ptr;\n                } else\n                    return 0;\n            }\n\n            freelist_node*  new_pool_ptr = old_pool->next.get_ptr();\n            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) ) {\n                void* ptr = old_pool.get_ptr();\n                return reinterpret_cast< T* >( ptr );\n            }\n        }",
 "        while ( old_pool.get_ptr() ) {\n            freelist_node*  new_pool_ptr = old_pool->next.get_ptr();\n            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) ) {\n                void* ptr = old_pool.get_ptr();\n                return reinterpret_cast< T* >( ptr );\n            }\n        }\n        if ( Bounded )\n            return 0;\n        T* ptr = Alloc::allocate( 1 );\n        std::memset( (void*)ptr, 0, sizeof( T ) );\n        return ptr;", 1, SQ),
('f-free-order', fl, "            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );\n            new_pool->next.set_ptr( old_pool.get_ptr() );\n\n            if", "            new_pool_ptr->next.set_ptr( old_pool.get_ptr() );\n            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );\n\n            if", 1, SQ),
('f-freepool', fl, "        while ( current ) {\n            freelist_node* current_ptr = current.get_ptr();\n            if ( current_ptr )\n                current = current_ptr->next;\n            Alloc::deallocate( (T*)current_ptr, 1 );\n        }", "        for ( freelist_node* p = current.get_ptr(); p != NULL; ) {\n            freelist_node* next = p->next.get_ptr();\n            Alloc::deallocate( (T*)p, 1 );\n            p = next;\n        }", 1, SQ),
('f-fsf-alloc', fl, "            index_t index = old_pool.get_index();\n            if ( index == null_handle() )\n                return index;\n\n            T*            old_node   = NodeStorage::nodes() + index;\n            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );\n\n            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )\n                return old_pool.get_index();", "            const index_t index = old_pool.get_index();\n            if ( index == null_handle() )\n                return null_handle();\n\n            freelist_node* old_node = reinterpret_cast< freelist_node* >( NodeStorage::nodes() + index );\n            tagged_index   new_pool( old_node->next.get_index(), old_pool.get_next_tag() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )\n                return index;", 1, SQ),
('f-fsf-init', fl, "        T* nodes = NodeStorage::nodes();\n        for ( std::size_t i = 0; i != NodeStorage::node_count(); ++i ) {", "        T*                nodes = NodeStorage::nodes();\n        const std::size_t count = NodeStorage::node_count();\n        for ( std::size_t i = 0; i < count; ++i ) {", 1, SQ),
('f-construct-invert', fl, "        index_t node_index = allocate< ThreadSafe >();\n        if ( node_index == null_handle() )\n            return NULL;\n\n        T* node = NodeStorage::nodes() + node_index;\n        new ( node ) T( arg );\n        return node;", "        const index_t node_index = allocate< ThreadSafe >();\n        T*            node       = get_pointer( node_index );\n        if ( node != NULL )\n            new ( node ) T( arg );\n        return node;", 1, SQ),
('f-destruct-via', fl, "        T* n = tagged_ptr.get_ptr();\n        n->~T();\n        deallocate< ThreadSafe >( n );", "        destruct< ThreadSafe >( tagged_ptr.get_ptr() );", 1, SQ),
('f-nexttag', fl, "        tag_t next = ( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )();\n        return next;", "        return static_cast< tag_t >( tag + 1u );", 1, SQ + ('repr',)),
('f-ctor-while', fl, "            for ( std::size_t i = 0; i != n; ++i ) {\n                T* node", "            for ( ; n != 0; --n ) {\n                T* node", 1, SQ),
('f-reserve-down', fl, "        for ( std::size_t i = 0; i != count; ++i ) {\n            T* node", "        while ( count-- > 0 ) {\n            T* node", 1, SQ),
('f-alloc-acqrel', fl, "            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool ) ) {", "            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n            if ( pool_.compare_exchange_weak( old_pool, new_pool, memory_order_acq_rel, memory_order_acquire ) ) {", 1, SQ),
# ---- tagged_ptr
('t-nexttag', tp, "        tag_t next = ( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )();\n        return next;", "        return tag_t( extract_tag( ptr ) + 1 );", 1, SQ + ('repr',)),
('t-eq', tp, "return ( ptr == p.ptr );", "return !( ptr ^ p.ptr );", 1, ('repr',)),
]
M[11][2].append(("    void link_nodes_unsafe( node*", "    bool unlink_top( tagged_node_handle& top )\n    {\n        top = tos.load( detail::memory_order_consume );\n        while ( node* p = pool.get_pointer( top ) ) {\n            if ( tos.compare_exchange_weak( top, tagged_node_handle( p->next, top.get_next_tag() ) ) )\n                return true;\n        }\n        return false;\n    }\n\n    void link_nodes_unsafe( node*"))
M[11] = M[11][:4] + (0,) + M[11][5:]
for i, m in enumerate(M):
    if m[0] == 'q-push-continue':
        M[i] = (m[0], m[1], [(m[2], m[3]), ("    template < bool Bounded >\n    bool do_push( T const& t )", "    void advance_tail( tagged_node_handle& from, handle_type to )\n    {\n        tail_.compare_exchange_strong( from, tagged_node_handle( to, from.get_next_tag() ) );\n    }\n\n    template < bool Bounded >\n    bool do_push( T const& t )")], None, 1, m[5])
