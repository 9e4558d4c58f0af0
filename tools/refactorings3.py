# behaviour-preserving edits, third batch: every one must be QUIET (tools/mutate.py tools/refactorings3.py)
st,qu,fl,sp,cp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/copy_payload.hpp','detail/tagged_ptr_ptrcompression.hpp'
SQ=('stack','queue')
TAKE='''        size_t             element_count = 0;
        tagged_node_handle old_tos       = tos.load( detail::memory_order_consume );

        for ( ;; ) {
            node* old_tos_pointer = pool.get_pointer( old_tos );
            if ( !old_tos_pointer )
                return 0;

            tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );

            if ( tos.compare_exchange_weak( old_tos, new_tos ) )
                break;
        }

        tagged_node_handle nodes_to_consume = old_tos;
'''
WALK='''        for ( ;; ) {
            node* node_pointer = pool.get_pointer( nodes_to_consume );
            f( node_pointer->v );
            element_count += 1;

            node* next_node = pool.get_pointer( node_pointer->next );

            if ( !next_node ) {
                pool.template destruct< true >( nodes_to_consume );
                break;
            }

            tagged_node_handle next( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );
            pool.template destruct< true >( nodes_to_consume );
            nodes_to_consume = next;
        }
'''
RWALK=WALK.replace('nodes_to_consume','nodes_in_reversed_order')
REV='''        node*              last_node_pointer = NULL;
        tagged_node_handle nodes_in_reversed_order;
        for ( ;; ) {
            node* node_pointer = pool.get_pointer( nodes_to_consume );
            node* next_node    = pool.get_pointer( node_pointer->next );

            node_pointer->next = pool.get_handle( last_node_pointer );
            last_node_pointer  = node_pointer;

            if ( !next_node ) {
                nodes_in_reversed_order = nodes_to_consume;
                break;
            }

            tagged_node_handle next( pool.get_handle( next_node ), nodes_to_consume.get_next_tag() );
            nodes_to_consume = next;
        }

'''
POP='''        tagged_node_handle old_tos = tos.load( detail::memory_order_consume );

        for ( ;; ) {
            node* old_tos_pointer = pool.get_pointer( old_tos );
            if ( !old_tos_pointer )
                return false;

            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );

            if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
                f( old_tos_pointer->v );
                pool.template destruct< true >( old_tos );
                return true;
            }
        }
'''
CATCH='''            for ( node* current_node = new_top_node; current_node != NULL; ) {
                node* next = pool.get_pointer( current_node->next );
                pool.template destruct< Threadsafe >( current_node );
                current_node = next;
            }
            BOOST_RETHROW;'''
LINK='''        tagged_node_handle old_tos = tos.load( detail::memory_order_relaxed );
        for ( ;; ) {
            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );
            end_node->next = pool.get_handle( old_tos );

            if ( tos.compare_exchange_weak( old_tos, new_tos ) )
                break;
        }
'''
STHELP="    void link_nodes_atomic( node* new_top_node, node* end_node )\n"
PUSHLOOP='''        for ( ;; ) {
            tagged_node_handle tail      = tail_.load( memory_order_acquire );
            node*              tail_node = pool.get_pointer( tail );
            tagged_node_handle next      = tail_node->next.load( memory_order_acquire );
            node*              next_ptr  = pool.get_pointer( next );

            tagged_node_handle tail2 = tail_.load( memory_order_acquire );
            if ( BOOST_LIKELY( tail == tail2 ) ) {
                if ( next_ptr == 0 ) {
                    tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );
                    if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) ) {
                        tagged_node_handle new_tail( node_handle, tail.get_next_tag() );
                        tail_.compare_exchange_strong( tail, new_tail );
                        return true;
                    }
                } else {
                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );
                    tail_.compare_exchange_strong( tail, new_tail );
                }
            }
        }
'''
DQ='''            if ( BOOST_LIKELY( head == head2 ) ) {
                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {
                    if ( next_ptr == 0 )
                        return false;

                    tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );
                    tail_.compare_exchange_strong( tail, new_tail );

                } else {
                    if ( next_ptr == 0 )
'''
M=[
# ---- stack
('s3-takeall-helper', st, [(TAKE, '''        size_t             element_count = 0;
        tagged_node_handle old_tos;
        if ( !detach_all( old_tos ) )
            return 0;

        tagged_node_handle nodes_to_consume = old_tos;
'''), (STHELP, '''    bool detach_all( tagged_node_handle& old_tos )
    {
        old_tos = tos.load( detail::memory_order_consume );

        while ( pool.get_pointer( old_tos ) ) {
            if ( tos.compare_exchange_weak( old_tos, tagged_node_handle( pool.null_handle(), old_tos.get_next_tag() ) ) )
                return true;
        }
        return false;
    }

'''+STHELP)], None, 0, ('stack',)),
('s3-walk-pointer', st, [(WALK, '''        for ( node* current = pool.get_pointer( nodes_to_consume ); current; ) {
            f( current->v );
            ++element_count;

            node* const following = pool.get_pointer( current->next );
            pool.template destruct< true >( current );
            current = following;
        }
''')], None, 0, ('stack',)),
('s3-rev-classic', st, [(REV+RWALK, '''        node* prev = NULL;
        node* cur  = pool.get_pointer( nodes_to_consume );
        while ( cur != NULL ) {
            node* const nxt = pool.get_pointer( cur->next );
            cur->next       = pool.get_handle( prev );
            prev            = cur;
            cur             = nxt;
        }

        while ( prev != NULL ) {
            node* const nxt = pool.get_pointer( prev->next );
            f( prev->v );
            ++element_count;
            pool.template destruct< true >( prev );
            prev = nxt;
        }
''')], None, 0, ('stack',)),
('s3-walk-helper', st, [(WALK, "        element_count = consume_list( nodes_to_consume, f );\n"), (RWALK, "        element_count = consume_list( nodes_in_reversed_order, f );\n"),
 (STHELP, '''    template < typename Functor >
    size_t consume_list( tagged_node_handle current, Functor& f )
    {
        size_t n = 0;
        for ( ;; ) {
            node* node_pointer = pool.get_pointer( current );
            f( node_pointer->v );
            ++n;
            node* next_node = pool.get_pointer( node_pointer->next );
            if ( !next_node ) {
                pool.template destruct< true >( current );
                return n;
            }
            tagged_node_handle next( pool.get_handle( next_node ), current.get_next_tag() );
            pool.template destruct< true >( current );
            current = next;
        }
    }

'''+STHELP)], None, 0, ('stack',)),
('s3-pop-impl', st, [(POP, '''        return consume_one_impl( f );
'''), (STHELP, '''    template < typename Functor >
    bool consume_one_impl( Functor& f )
    {
'''+POP+'''    }

'''+STHELP)], None, 0, ('stack',)),
('s3-pop-invert', st, [(POP, '''        for ( tagged_node_handle old_tos = tos.load( detail::memory_order_consume );; ) {
            node* const top = pool.get_pointer( old_tos );
            if ( top == NULL )
                return false;

            if ( !tos.compare_exchange_weak( old_tos, tagged_node_handle( top->next, old_tos.get_next_tag() ) ) )
                continue;

            f( top->v );
            pool.template destruct< true >( old_tos );
            return true;
        }
''')], None, 0, ('stack',)),
('s3-pop-reload', st, [(POP, '''        for ( ;; ) {
            tagged_node_handle old_tos         = tos.load( detail::memory_order_acquire );
            node*              old_tos_pointer = pool.get_pointer( old_tos );
            if ( !old_tos_pointer )
                return false;

            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );

            if ( tos.compare_exchange_strong( old_tos, new_tos ) ) {
                f( old_tos_pointer->v );
                pool.template destruct< true >( old_tos );
                return true;
            }
        }
''')], None, 0, ('stack',)),
('s3-catch-helper', st, [(CATCH, "            discard< Threadsafe >( new_top_node );\n            BOOST_RETHROW;"), (STHELP, '''    template < bool Threadsafe >
    void discard( node* current_node )
    {
        while ( current_node ) {
            node* const next = pool.get_pointer( current_node->next );
            pool.template destruct< Threadsafe >( current_node );
            current_node = next;
        }
    }

'''+STHELP)], None, 0, ('stack',)),
('s3-link-orders', st, [(LINK, LINK.replace('compare_exchange_weak( old_tos, new_tos )','compare_exchange_weak( old_tos, new_tos, detail::memory_order_release, detail::memory_order_relaxed )'))], None, 0, ('stack',)),
('s3-link-bool', st, [(LINK, '''        tagged_node_handle old_tos = tos.load( detail::memory_order_relaxed );
        bool               linked  = false;
        while ( !linked ) {
            end_node->next = pool.get_handle( old_tos );
            linked         = tos.compare_exchange_weak(
                old_tos, tagged_node_handle( pool.get_handle( new_top_node ), old_tos.get_tag() ) );
        }
''')], None, 0, ('stack',)),
('s3-call-forever', st, '''        size_t element_count = 0;
        while ( consume_one( f ) )
            element_count += 1;

        return element_count;''', '''        for ( size_t element_count = 0;; ++element_count )
            if ( !consume_one( f ) )
                return element_count;''', 2, ('stack',)),
('s3-prepare-count', st, '''                newnode->next = pool.get_handle( new_top_node );
                new_top_node  = newnode;
            }''', '''                newnode->next   = pool.get_handle( new_top_node );
                node* const top = newnode;
                new_top_node    = top;
            }''', 1, ('stack',)),
('s3-dorange-ret', st, '''        tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, end, ret );
        if ( new_top_node )
            link_nodes_atomic( new_top_node, end_node );

        return ret;''', '''        tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, end, ret );
        if ( new_top_node == NULL )
            return begin;

        link_nodes_atomic( new_top_node, end_node );
        return ret;''', 1, ('stack',)),
('s3-upop-while', st, '''        if ( !pool.get_pointer( old_tos ) )
            return false;

        node*              new_tos_ptr = pool.get_pointer( old_tos_pointer->next );
        tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );

        tos.store( new_tos, memory_order_relaxed );
        detail::copy_payload( old_tos_pointer->v, ret );
        pool.template destruct< false >( old_tos );
        return true;''', '''        if ( old_tos_pointer ) {
            tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );

            tos.store( new_tos, memory_order_relaxed );
            detail::copy_payload( old_tos_pointer->v, ret );
            pool.template destruct< false >( old_tos_pointer );
            return true;
        }
        return false;''', 1, ('stack',)),
('s3-dtor-tmp', st, '''        detail::consume_noop consume_functor;
        (void)consume_all( consume_functor );''', '''        detail::consume_noop drop = detail::consume_noop();
        while ( consume_one( drop ) ) {}''', 1, ('stack',)),
# ---- queue
('q3-push-help', qu, [(PUSHLOOP, '''        for ( ;; ) {
            tagged_node_handle tail      = tail_.load( memory_order_acquire );
            node*              tail_node = pool.get_pointer( tail );
            tagged_node_handle next      = tail_node->next.load( memory_order_acquire );
            node*              next_ptr  = pool.get_pointer( next );

            // not  tail == tail_.load(): no volatile reference binds to a temporary, and the handles would be compared as bool
            const tagged_node_handle again = tail_.load( memory_order_acquire );
            if ( BOOST_UNLIKELY( !( tail == again ) ) )
                continue;

            if ( next_ptr != 0 ) {
                swing_tail( tail, pool.get_handle( next_ptr ) );
                continue;
            }

            if ( tail_node->next.compare_exchange_weak( next, tagged_node_handle( node_handle, next.get_next_tag() ) ) ) {
                swing_tail( tail, node_handle );
                return true;
            }
        }
'''), ("    template < bool Bounded >\n    bool do_push( T const& t )\n", '''    void swing_tail( tagged_node_handle expected, handle_type h )
    {
        tagged_node_handle desired( h, expected.get_next_tag() );
        tail_.compare_exchange_strong( expected, desired );
    }

    template < bool Bounded >
    bool do_push( T const& t )
''')], None, 0, ('queue',)),
('q3-push-dowhile', qu, [(PUSHLOOP, '''        bool done = false;
        do {
            tagged_node_handle tail      = tail_.load( memory_order_acquire );
            node*              tail_node = pool.get_pointer( tail );
            tagged_node_handle next      = tail_node->next.load( memory_order_acquire );

            tagged_node_handle tail2 = tail_.load( memory_order_acquire );
            if ( tail != tail2 )
                continue;

            node* next_ptr = pool.get_pointer( next );
            done           = ( next_ptr == 0 ) && tail_node->next.compare_exchange_weak( next, tagged_node_handle( node_handle, next.get_next_tag() ) );
            if ( done || next_ptr ) {
                tagged_node_handle new_tail( done ? node_handle : pool.get_handle( next_ptr ), tail.get_next_tag() );
                tail_.compare_exchange_strong( tail, new_tail );
            }
        } while ( !done );
        return true;
''')], None, 0, ('queue',)),
('q3-push-alloc', qu, '''        node*       n           = pool.template construct< true, Bounded >( t, pool.null_handle() );
        handle_type node_handle = pool.get_handle( n );

        if ( n == NULL )
            return false;
''', '''        node* const n = pool.template construct< true, Bounded >( t, pool.null_handle() );
        if ( !n )
            return false;

        const handle_type node_handle = pool.get_handle( n );
''', 1, ('queue',)),
('q3-pop-flat', qu, [(DQ, '''            if ( BOOST_UNLIKELY( head != head2 ) )
                continue;
            {
                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {
                    if ( !next_ptr )
                        return false;

                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );
                    (void)tail_.compare_exchange_weak( tail, new_tail );

                } else {
                    if ( next_ptr == 0 )
''')], None, 0, ('queue',)),
('q3-pop-nullfirst', qu, [(DQ, '''            if ( BOOST_LIKELY( head == head2 ) ) {
                const bool drained = pool.get_handle( head ) == pool.get_handle( tail );
                if ( drained && next_ptr == 0 )
                    return false;

                if ( drained ) {
                    tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );
                    tail_.compare_exchange_strong( tail, new_tail );
                } else {
                    if ( next_ptr == 0 )
''')], None, 0, ('queue',)),
('q3-pop-nextlate', qu, '''            tagged_node_handle next     = head_ptr->next.load( memory_order_acquire );
            node*              next_ptr = pool.get_pointer( next );

            tagged_node_handle head2 = head_.load( memory_order_acquire );
            if''', '''            tagged_node_handle next     = head_ptr->next.load( memory_order_acquire );

            tagged_node_handle head2    = head_.load( memory_order_acquire );
            node*              next_ptr = pool.get_pointer( next );
            if''', 1, ('queue',)),
('q3-pop-destructptr', qu, '''                        pool.template destruct< true >( head );
                        return true;''', '''                        pool.template destruct< true >( head_ptr );
                        return true;''', 1, ('queue',)),
('q3-pop-strong', qu, "if ( head_.compare_exchange_weak( head, new_head ) )", "if ( head_.compare_exchange_strong( head, new_head, memory_order_release, memory_order_relaxed ) )", 1, ('queue',)),
('q3-init', qu, '''        head_.store( dummy_node, memory_order_relaxed );
        tail_.store( dummy_node, memory_order_release );''', '''        tail_.store( dummy_node, memory_order_relaxed );
        head_.store( dummy_node, memory_order_release );''', 1, ('queue',)),
('q3-cone-if', qu, '''        T    element;
        bool success = pop( element );
        if ( success )
            f( element );

        return success;''', '''        T element;
        if ( !pop( element ) )
            return false;

        f( element );
        return true;''', 2, ('queue',)),
('q3-call-inline', qu, '''        size_t element_count = 0;
        while ( consume_one( f ) )
            element_count += 1;

        return element_count;''', '''        size_t element_count = 0;
        T      element;
        for ( ; pop( element ); ++element_count )
            f( element );

        return element_count;''', 2, ('queue',)),
('q3-upush-find', qu, '''        for ( ;; ) {
            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
            node*              tail_node = pool.get_pointer( tail );
            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
            node*              next_ptr  = pool.get_pointer( next );

            if ( next_ptr == 0 ) {
                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
                return true;
            } else
                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
                             memory_order_relaxed );
        }''', '''        tagged_node_handle tail      = tail_.load( memory_order_relaxed );
        node*              tail_node = pool.get_pointer( tail );
        tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );

        while ( node* next_ptr = pool.get_pointer( next ) ) {
            tail = tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() );
            tail_.store( tail, memory_order_relaxed );
            tail_node = next_ptr;
            next      = tail_node->next.load( memory_order_relaxed );
        }

        tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
        tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
        return true;''', 1, ('queue',)),
('q3-empty-acq', qu, "return pool.get_handle( head_.load() ) == pool.get_handle( tail_.load() );", "const tagged_node_handle head = head_.load();\n        const tagged_node_handle tail = tail_.load();\n        return pool.get_handle( head ) == pool.get_handle( tail );", 1, ('queue',)),
# ---- free list
('f3-nodeat', fl, [("T* node = NodeStorage::nodes() + node_index;", "T* node = node_at( node_index );"), ("T*            old_node   = NodeStorage::nodes() + index;", "T*            old_node   = node_at( index );"),
  ("    bool is_lock_free( void ) const\n    {\n        return pool_.is_lock_free();\n    }\n\n    index_t null_handle", "    T* node_at( index_t i ) const\n    {\n        return &NodeStorage::nodes()[ i ];\n    }\n\n    bool is_lock_free( void ) const\n    {\n        return pool_.is_lock_free();\n    }\n\n    index_t null_handle")], None, 0, SQ),
('f3-alloc-invert', fl, '''            if ( !old_pool.get_ptr() ) {
                if ( !Bounded ) {
                    T* ptr = Alloc::allocate( 1 );
                    std::memset( (void*)ptr, 0, sizeof( T ) );
                    return ptr;
                } else
                    return 0;
            }

            freelist_node*  new_pool_ptr''', '''            freelist_node* const top = old_pool.get_ptr();
            if ( top == NULL ) {
                if ( Bounded )
                    return NULL;
                T* fresh = Alloc::allocate( 1 );
                std::memset( static_cast< void* >( fresh ), 0, sizeof( T ) );
                return fresh;
            }

            freelist_node*  new_pool_ptr''', 1, SQ),
('f3-dealloc-dowhile', fl, '''        for ( ;; ) {
            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );
            new_pool->next.set_ptr( old_pool.get_ptr() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return;
        }''', '''        tagged_node_ptr new_pool;
        do {
            new_pool = tagged_node_ptr( new_pool_ptr, old_pool.get_tag() );
            new_pool_ptr->next.set_ptr( old_pool.get_ptr() );
        } while ( !pool_.compare_exchange_weak( old_pool, new_pool ) );''', 1, SQ),
('f3-fsdealloc', fl, '''            tagged_index new_pool( index, old_pool.get_tag() );
            new_pool_node->next.set_index( old_pool.get_index() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return;''', '''            new_pool_node->next.set_index( old_pool.get_index() );
            const tagged_index new_pool( index, old_pool.get_tag() );
            const bool         released = pool_.compare_exchange_strong( old_pool, new_pool );
            if ( released )
                break;''', 1, SQ),
('f3-fsalloc-ptr', fl, '''            T*            old_node   = NodeStorage::nodes() + index;
            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );

            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return old_pool.get_index();''', '''            freelist_node* top = reinterpret_cast< freelist_node* >( NodeStorage::nodes() + index );

            tagged_index new_pool( top->next.get_index(), old_pool.get_next_tag() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return index;''', 1, SQ),
('f3-freepool-for', fl, '''        tagged_node_ptr current = pool_.load();

        while ( current ) {
            freelist_node* current_ptr = current.get_ptr();
            if ( current_ptr )
                current = current_ptr->next;
            Alloc::deallocate( (T*)current_ptr, 1 );
        }''', '''        for ( freelist_node* current = pool_.load().get_ptr(); current != NULL; ) {
            freelist_node* const next = current->next.get_ptr();
            Alloc::deallocate( reinterpret_cast< T* >( current ), 1 );
            current = next;
        }''', 1, SQ),
('f3-reserve-while', fl, '''        for ( std::size_t i = 0; i != count; ++i ) {
            T* node = Alloc::allocate( 1 );
            std::memset( (void*)node, 0, sizeof( T ) );
            deallocate< ThreadSafe >( node );
        }''', '''        while ( count != 0 ) {
            T* const node = Alloc::allocate( 1 );
            std::memset( (void*)node, 0, sizeof( T ) );
            deallocate< ThreadSafe >( node );
            --count;
        }''', 1, SQ),
('f3-gethandle', fl, '''        if ( pointer == NULL )
            return null_handle();
        else
            return static_cast< index_t >( pointer - NodeStorage::nodes() );''', '''        return pointer ? static_cast< index_t >( pointer - NodeStorage::nodes() ) : null_handle();''', 1, SQ),
('f3-getpointer', fl, '''        if ( index == null_handle() )
            return 0;
        else
            return NodeStorage::nodes() + index;''', '''        return index != null_handle() ? &NodeStorage::nodes()[ index ] : NULL;''', 1, SQ),
('f3-destruct-shared', fl, '''        index_t index = tagged_index.get_index();
        T*      n     = NodeStorage::nodes() + index;
        (void)n; // silence msvc warning
        n->~T();
        deallocate< ThreadSafe >( index );''', '''        destruct< ThreadSafe >( NodeStorage::nodes() + tagged_index.get_index() );''', 1, SQ),
# ---- spsc
('p3-publish', sp, [("        write_index_.store( next, memory_order_release );", "        publish_write( next );"), ("        write_index_.store( new_write_index, memory_order_release );", "        publish_write( new_write_index );"),
  ("    static size_t next_index(", "    void publish_write( size_t index )\n    {\n        write_index_.store( index, memory_order_release );\n    }\n\n    static size_t next_index(")], None, 0, ('spsc',)),
('p3-next-ternary', sp, '''        size_t ret = arg + 1;
        while ( BOOST_UNLIKELY( ret >= max_size ) )
            ret -= max_size;
        return ret;''', '''        const size_t ret = arg + 1;
        return ret == max_size ? 0 : ret;''', 1, ('spsc',)),
('p3-commonread', sp, '''        size_t new_read_index = read_index + output_count;

        if ( read_index + output_count > max_size ) {''', '''        const size_t end_index      = read_index + output_count;
        size_t       new_read_index = end_index;

        if ( end_index > max_size ) {''', 3, ('spsc',)),
('p3-call-mod', sp, '''            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );

            if ( new_read_index == max_size )
                new_read_index = 0;''', '''            T* const first = internal_buffer + read_index;
            run_functor_and_delete( first, first + output_count, functor );
            new_read_index = new_read_index == max_size ? 0 : new_read_index;''', 2, ('spsc',)),
('p3-front', sp, "return *( internal_buffer + read_index );", "return internal_buffer[ read_index ];", 2, ('spsc',)),
('p3-copydel-two', sp, '''            for ( ; first != last; ++first, ++out ) {
                *out = *first;
                first->~T();
            }
            return out;''', '''            out = std::copy( first, last, out );
            for ( ; first != last; ++first )
                first->~T();
            return out;''', 1, ('spsc',)),
('p3-ptrpush', sp, "return push( input_buffer, input_buffer + input_count, internal_buffer, max_size ) - input_buffer;", "const T* const consumed = push< const T* >( input_buffer, input_buffer + input_count, internal_buffer, max_size );\n        return static_cast< size_t >( consumed - input_buffer );", 1, ('spsc',)),
('p3-avail-diff', sp, '''        if ( write_index >= read_index )
            return write_index - read_index;

        const size_t ret = write_index + max_size - read_index;
        return ret;''', '''        size_t used = write_index - read_index;
        if ( write_index < read_index )
            used += max_size;
        return used;''', 1, ('spsc',)),
('p3-wavail-via', sp, '''        size_t ret = read_index - write_index - 1;
        if ( write_index >= read_index )
            ret += max_size;
        return ret;''', '''        return max_size - 1 - read_available( write_index, read_index, max_size );''', 1, ('spsc',)),
('p3-push-full', sp, '''        if ( next == read_index_.load( memory_order_acquire ) )
            return false;                    /* ringbuffer is full */

        new ( buffer + write_index ) T( t ); // copy-construct

        write_index_.store( next, memory_order_release );

        return true;''', '''        const size_t read_index = read_index_.load( memory_order_acquire );
        const bool   full       = ( next == read_index );
        if ( !full ) {
            new ( &buffer[ write_index ] ) T( t ); // copy-construct
            write_index_.store( next, memory_order_release );
        }
        return !full;''', 1, ('spsc',)),
('p3-cone-order', sp, '''        T& object_to_consume = buffer[ read_index ];
        functor( object_to_consume );
        object_to_consume.~T();

        size_t next = next_index( read_index, max_size );
        read_index_.store( next, memory_order_release );
        return true;''', '''        const size_t next = next_index( read_index, max_size );
        T* const     obj  = buffer + read_index;
        functor( *obj );
        obj->~T();
        read_index_.store( next, memory_order_release );
        return true;''', 2, ('spsc',)),
('p3-min-if', sp, "        input_count        = ( std::min )( input_count, avail );", "        if ( input_count > avail )\n            input_count = avail;", 1, ('spsc',)),
('p3-popit-share', sp, '''        const size_t avail = read_available( write_index, read_index, max_size );
        if ( avail == 0 )
            return 0;

        size_t new_read_index = read_index + avail;

        if ( read_index + avail > max_size ) {''', '''        if ( write_index == read_index )
            return 0;

        const size_t avail          = read_available( write_index, read_index, max_size );
        size_t       new_read_index = read_index + avail;

        if ( max_size - read_index < avail ) {''', 1, ('spsc',)),
]
