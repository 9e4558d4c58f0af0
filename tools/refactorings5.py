# behaviour-preserving edits, fifth batch (algorithms, lambdas, larger rewrites): every one must be QUIET
st,qu,fl,sp,cp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/copy_payload.hpp','detail/tagged_ptr_ptrcompression.hpp'
SQ=('stack','queue')
M=[
('p5-del-while', sp, '''            for ( ; first != last; ++first, ++out ) {
                *out = *first;
                first->~T();
            }
            return out;''','''            while ( first != last ) {
                *out++ = *first;
                ( first++ )->~T();
            }
            return out;''',1,('spsc',)),
('p5-run-lambda', sp, '''        for ( ; first != last; ++first ) {
            functor( *first );
            first->~T();
        }''','''        std::for_each( first, last, [ & ]( T& element ) {
            functor( element );
            element.~T();
        } );''',2,('spsc',)),
('p5-run-index', sp, '''        for ( ; first != last; ++first ) {
            functor( *first );
            first->~T();
        }''','''        const std::ptrdiff_t n = last - first;
        for ( std::ptrdiff_t i = 0; i < n; ++i ) {
            T* const element = first + i;
            functor( *element );
            element->~T();
        }''',2,('spsc',)),
('p5-rollback-index', sp, '''                for ( T* element = internal_buffer + write_index; element != internal_buffer + max_size; ++element )
                    element->~T();''','''                for ( size_t i = write_index; i < max_size; ++i )
                    internal_buffer[ i ].~T();''',1,('spsc',)),
('p5-rollback-reverse', sp, '''                for ( T* element = internal_buffer + write_index; element != internal_buffer + max_size; ++element )
                    element->~T();''','''                for ( size_t i = max_size; i != write_index; --i )
                    internal_buffer[ i - 1 ].~T();''',1,('spsc',)),
('p5-advance', sp, '''        size_t input_count = std::distance( begin, end );
        input_count        = ( std::min )( input_count, avail );

        size_t new_write_index = write_index + input_count;

        const ConstIterator last = boost::next( begin, input_count );
''','''        const size_t requested   = static_cast< size_t >( std::distance( begin, end ) );
        const size_t input_count = requested < avail ? requested : avail;

        size_t new_write_index = write_index + input_count;

        ConstIterator last = begin;
        std::advance( last, input_count );
''',1,('spsc',)),
('p5-popit-fwd', sp, '''            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );
            copy_and_delete( internal_buffer, internal_buffer + count1, it );
''','''            copy_and_delete(
                internal_buffer, internal_buffer + count1, copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it ) );
''',1,('spsc',)),
('p5-empty-names', sp, '''        if ( empty( write_index, read_index ) )
            return false;

        T& object_to_consume = buffer[ read_index ];
        functor( object_to_consume );
        object_to_consume.~T();

        size_t next = next_index( read_index, max_size );
        read_index_.store( next, memory_order_release );
        return true;''','''        const bool has_element = read_available( write_index, read_index, max_size ) != 0;
        if ( has_element ) {
            T* const slot = buffer + read_index;
            functor( *slot );
            slot->~T();
            read_index_.store( next_index( read_index, max_size ), memory_order_release );
        }
        return has_element;''',2,('spsc',)),
('p5-next-branch', sp, '''        size_t ret = arg + 1;
        while ( BOOST_UNLIKELY( ret >= max_size ) )
            ret -= max_size;
        return ret;''','''        if ( arg == max_size - 1 )
            return 0;
        return arg + 1;''',1,('spsc',)),
('p5-next-guard', sp, '''        size_t ret = arg + 1;
        while ( BOOST_UNLIKELY( ret >= max_size ) )
            ret -= max_size;
        return ret;''','''        return ( arg + 1 < max_size ) ? arg + 1 : arg + 1 - max_size;''',1,('spsc',)),
('p5-wavail', sp, '''        size_t ret = read_index - write_index - 1;
        if ( write_index >= read_index )
            ret += max_size;
        return ret;''','''        return max_size - 1 - read_available( write_index, read_index, max_size );''',1,('spsc',)),
('p5-manual-copy', sp, '''            std::uninitialized_copy( begin, last, internal_buffer + write_index );

            if ( new_write_index == max_size )''','''            T* slot = internal_buffer + write_index;
            BOOST_TRY
            {
                for ( ConstIterator it = begin; it != last; ++it, ++slot )
                    new ( slot ) T( *it );
            }
            BOOST_CATCH( ... )
            {
                while ( slot != internal_buffer + write_index )
                    ( --slot )->~T();
                BOOST_RETHROW;
            }
            BOOST_CATCH_END

            if ( new_write_index == max_size )''',1,('spsc',)),
('p5-push-atomic', sp, '''        const size_t write_index = write_index_.load( memory_order_relaxed ); // only written from push thread
        const size_t next        = next_index( write_index, max_size );

        if ( next == read_index_.load( memory_order_acquire ) )
            return false;                    /* ringbuffer is full */
''','''        const size_t read_index  = read_index_.load( memory_order_acquire );
        const size_t write_index = write_index_.load( memory_order_relaxed ); // only written from push thread
        const size_t next        = next_index( write_index, max_size );

        if ( next == read_index )
            return false;                    /* ringbuffer is full */
''',1,('spsc',)),
('s5-rollback-pool', st, '''            for ( node* current_node = new_top_node; current_node != NULL; ) {
                node* next = pool.get_pointer( current_node->next );
                pool.template destruct< Threadsafe >( current_node );
                current_node = next;
            }''','''            do {
                node* const failed = new_top_node;
                new_top_node       = pool.get_pointer( failed->next );
                pool.template destruct< Threadsafe >( failed );
            } while ( new_top_node );''',1,('stack',)),
('s5-prepare-first', st, '''            for ( ; it != end; ++it ) {
                node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                if ( newnode == NULL )
                    break;
                newnode->next = pool.get_handle( new_top_node );
                new_top_node  = newnode;
            }''','''            while ( it != end ) {
                if ( node* newnode = pool.template construct< Threadsafe, Bounded >( *it ) ) {
                    newnode->next = pool.get_handle( new_top_node );
                    new_top_node  = newnode;
                    ++it;
                } else
                    break;
            }''',1,('stack',)),
('s5-call-do', st, '''        size_t element_count = 0;
        while ( consume_one( f ) )
            element_count += 1;

        return element_count;''','''        size_t element_count = 0;
        for ( ; consume_one( f ); ++element_count ) {}
        return element_count;''',2,('stack',)),
('s5-empty', st, '''        return pool.get_pointer( tos.load() ) == NULL;''','''        const tagged_node_handle top = tos.load( detail::memory_order_acquire );
        return !pool.get_pointer( top );''',1,('stack',)),
('s5-pop-lambda', st, '''        detail::consume_via_copy< U > consumer( ret );

        return consume_one( consumer );''','''        return consume_one( [ &ret ]( T& element ) {
            detail::copy_payload( element, ret );
        } );''',1,('stack',)),
('s5-link-ctor', st, '''            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );
            end_node->next = pool.get_handle( old_tos );

            if ( tos.compare_exchange_weak( old_tos, new_tos ) )
                break;''','''            end_node->next = pool.get_handle( old_tos );
            if ( tos.compare_exchange_weak(
                     old_tos, tagged_node_handle( pool.get_handle( new_top_node ), old_tos.get_tag() ) ) )
                return;''',1,('stack',)),
('s5-dopush-flow', st, '''        node* newnode = pool.template construct< true, Bounded >( v );
        if ( newnode == 0 )
            return false;

        link_nodes_atomic( newnode, newnode );
        return true;''','''        if ( node* const newnode = pool.template construct< true, Bounded >( v ) ) {
            link_nodes_atomic( newnode, newnode );
            return true;
        }
        return false;''',1,('stack',)),
('q5-advance-tail', qu, '''                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );
                    tail_.compare_exchange_strong( tail, new_tail );
                }
            }
        }
    }
#endif''','''                    advance_tail( tail, pool.get_handle( next_ptr ) );
                }
            }
        }
    }

    void advance_tail( tagged_node_handle expected, handle_type to )
    {
        tail_.compare_exchange_strong( expected, tagged_node_handle( to, expected.get_next_tag() ) );
    }
#endif''',1,('queue',)),
('q5-call-pop', qu, '''        size_t element_count = 0;
        while ( consume_one( f ) )
            element_count += 1;

        return element_count;''','''        size_t element_count = 0;
        for ( T element; pop( element ); ++element_count )
            f( element );

        return element_count;''',2,('queue',)),
('q5-dtor-pop', qu, '''        T dummy;
        while ( unsynchronized_pop( dummy ) ) {}
''','''        T dummy;
        while ( pop( dummy ) ) {}
''',1,('queue',)),
('q5-push-flat', qu, '''            if ( BOOST_LIKELY( tail == tail2 ) ) {
                if ( next_ptr == 0 ) {
                    tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );
                    if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) ) {
                        tagged_node_handle new_tail( node_handle, tail.get_next_tag() );
                        tail_.compare_exchange_strong( tail, new_tail );
                        return true;
                    }
                } else {
                    tagged_node_handle new_tail( pool.get_handle( next_ptr ), tail.get_next_tag() );
                    tail_.compare_exchange_strong( tail, new_tail );
                }
            }''','''            if ( !( tail == tail2 ) )
                continue;

            bool linked = false;
            if ( next_ptr == 0 ) {
                tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );
                linked = tail_node->next.compare_exchange_weak( next, new_tail_next );
                if ( !linked )
                    continue;
            }
            handle_type        target = linked ? node_handle : pool.get_handle( next_ptr );
            tagged_node_handle new_tail( target, tail.get_next_tag() );
            tail_.compare_exchange_strong( tail, new_tail );
            if ( linked )
                return true;''',1,('queue',)),
('q5-pop-early', qu, '''            if ( BOOST_LIKELY( head == head2 ) ) {
                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {
                    if ( next_ptr == 0 )
                        return false;
''','''            if ( BOOST_LIKELY( head2 == head ) ) {
                const bool maybe_empty = pool.get_handle( head ) == pool.get_handle( tail );
                if ( maybe_empty ) {
                    if ( !next_ptr )
                        return false;
''',1,('queue',)),
('q5-empty-names', qu, '''        return pool.get_handle( head_.load() ) == pool.get_handle( tail_.load() );''','''        const tagged_node_handle head = head_.load();
        const tagged_node_handle tail = tail_.load();
        return pool.get_pointer( head ) == pool.get_pointer( tail );''',1,('queue',)),
('f5-fresh-node', fl, [('''                    T* ptr = Alloc::allocate( 1 );
                    std::memset( (void*)ptr, 0, sizeof( T ) );
                    return ptr;''','''                    return fresh_node();'''),
 ('''                T* ptr = Alloc::allocate( 1 );
                std::memset( (void*)ptr, 0, sizeof( T ) );
                return ptr;''','''                return fresh_node();'''),
 ('''            T* node = Alloc::allocate( 1 );
            std::memset( (void*)node, 0, sizeof( T ) );
            deallocate< ThreadSafe >( node );''','''            deallocate< ThreadSafe >( fresh_node() );'''),
 ('''private:
    void free_pool( void )
    {''','''private:
    T* fresh_node( void )
    {
        T* const result = Alloc::allocate( 1 );
        std::memset( static_cast< void* >( result ), 0, sizeof( T ) );
        return result;
    }

    void free_pool( void )
    {''')],'',1,SQ),
('f5-fill', fl, '''            T* node = Alloc::allocate( 1 );
            std::memset( (void*)node, 0, sizeof( T ) );
            deallocate< ThreadSafe >( node );''','''            T* node = Alloc::allocate( 1 );
            std::fill_n( reinterpret_cast< char* >( node ), sizeof( T ), char( 0 ) );
            deallocate< ThreadSafe >( node );''',1,SQ),
('f5-init-down', fl, '''        for ( std::size_t i = 0; i != NodeStorage::node_count(); ++i ) {
            tagged_index* next_index = reinterpret_cast< tagged_index* >( nodes + i );
            next_index->set_index( null_handle() );
''','''        for ( std::size_t left = NodeStorage::node_count(); left != 0; --left ) {
            const std::size_t i          = left - 1;
            tagged_index*     next_index = reinterpret_cast< tagged_index* >( nodes + i );
            next_index->set_index( null_handle() );
''',1,SQ),
('f5-free-next', fl, '''        tagged_node_ptr current = pool_.load();

        while ( current ) {
            freelist_node* current_ptr = current.get_ptr();
            if ( current_ptr )
                current = current_ptr->next;
            Alloc::deallocate( (T*)current_ptr, 1 );
        }''','''        freelist_node* current = pool_.load().get_ptr();

        while ( current ) {
            freelist_node* const next = current->next.get_ptr();
            Alloc::deallocate( reinterpret_cast< T* >( current ), 1 );
            current = next;
        }''',1,SQ),
('f5-alloc-flow', fl, '''            index_t index = old_pool.get_index();
            if ( index == null_handle() )
                return index;

            T*            old_node   = NodeStorage::nodes() + index;
            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );

            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return old_pool.get_index();
        }''','''            const index_t index = old_pool.get_index();
            if ( index != null_handle() ) {
                const freelist_node* head = reinterpret_cast< const freelist_node* >( NodeStorage::nodes() + index );
                const tagged_index   new_pool( head->next.get_index(), old_pool.get_next_tag() );
                if ( !pool_.compare_exchange_weak( old_pool, new_pool ) )
                    continue;
            }
            return index;
        }''',1,SQ),
('f5-dealloc-init', fl, '''        for ( ;; ) {
            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );
            new_pool->next.set_ptr( old_pool.get_ptr() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return;
        }''','''        tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );
        new_pool_ptr->next.set_ptr( old_pool.get_ptr() );
        while ( !pool_.compare_exchange_weak( old_pool, new_pool ) ) {
            new_pool.set_tag( old_pool.get_tag() );
            new_pool_ptr->next.set_ptr( old_pool.get_ptr() );
        }''',1,SQ),
('f5-construct-ternary', fl, '''        index_t node_index = allocate< ThreadSafe >();
        if ( node_index == null_handle() )
            return NULL;

        T* node = NodeStorage::nodes() + node_index;''','''        const index_t node_index = allocate< ThreadSafe >();
        T* const      node       = get_pointer( node_index );
        if ( !node )
            return NULL;
''',3,SQ),
('f5-sizes', fl, '''        nodes_ = allocator_type::allocate( count );
        std::memset( (void*)nodes_, 0, sizeof( T ) * count );''','''        nodes_ = allocator_type::allocate( node_count_ );
        std::memset( static_cast< void* >( nodes_ ), 0, node_count_ * sizeof( *nodes_ ) );''',1,SQ),
('c5-functor', cp, '''        copy_payload( element, out_ );''','''        detail::copy_payload< U, T >( element, out_ );''',1,SQ),
]
