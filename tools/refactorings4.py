# behaviour-preserving edits, fourth batch: every one must be QUIET (tools/mutate.py tools/refactorings4.py)
st,qu,fl,sp,cp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/copy_payload.hpp','detail/tagged_ptr_ptrcompression.hpp'
SQ=('stack','queue')
CONE='''            if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
                f( old_tos_pointer->v );
                pool.template destruct< true >( old_tos );
                return true;
            }
'''
M=[
# tagged handles
('t4-shift', tp, [('''        cast_unit cu;
        cu.value = i;
        return cu.tag[ tag_index ];''','''        return static_cast< tag_t >( i >> 48 );'''),
 ('''        cast_unit ret;
        ret.value            = compressed_ptr_t( ptr );
        ret.tag[ tag_index ] = tag;
        return ret.value;''','''        return ( compressed_ptr_t( ptr ) & ptr_mask ) | ( compressed_ptr_t( tag ) << 48 );''')], None, 0, ('repr','stack','queue')),
('t4-next', tp, '( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )()', 'static_cast< tag_t >( get_tag() + 1 )', 1, ('repr','stack','queue')),
('t4-neq', tp, 'return !operator==( p );', 'return ptr != p.ptr;', 1, ('repr','stack')),
('t4-setptr', tp, '''        tag_t tag = get_tag();
        ptr       = pack_ptr( p, tag );''', '''        set( p, get_tag() );''', 1, ('repr','stack','queue')),
('t4-idx-next', fl, '( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )()', 'static_cast< tag_t >( tag + 1 )', 1, ('repr',)+SQ),
('t4-idx-eq', fl, 'return ( index == rhs.index ) && ( tag == rhs.tag );', '''if ( tag != rhs.tag )
            return false;
        return index == rhs.index;''', 1, ('repr','queue')),
# freelist
('f4-ptr-alloc', fl, '''            freelist_node*  new_pool_ptr = old_pool->next.get_ptr();
            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) ) {
                void* ptr = old_pool.get_ptr();
                return reinterpret_cast< T* >( ptr );
            }''', '''            freelist_node* const top = old_pool.get_ptr();
            tagged_node_ptr      new_pool( top->next.get_ptr(), old_pool.get_next_tag() );

            if ( !pool_.compare_exchange_weak( old_pool, new_pool ) )
                continue;

            return reinterpret_cast< T* >( static_cast< void* >( top ) );''', 1, SQ),
('f4-alloc-shared', fl, [('''    template < bool Bounded >
    T* allocate_impl( void )
    {''','''    template < bool Bounded >
    T* allocate_fresh( void )
    {
        if ( Bounded )
            return 0;
        T* ptr = Alloc::allocate( 1 );
        std::memset( (void*)ptr, 0, sizeof( T ) );
        return ptr;
    }

    template < bool Bounded >
    T* allocate_impl( void )
    {'''),('''                if ( !Bounded ) {
                    T* ptr = Alloc::allocate( 1 );
                    std::memset( (void*)ptr, 0, sizeof( T ) );
                    return ptr;
                } else
                    return 0;
''','''                return allocate_fresh< Bounded >();
'''),('''            if ( !Bounded ) {
                T* ptr = Alloc::allocate( 1 );
                std::memset( (void*)ptr, 0, sizeof( T ) );
                return ptr;
            } else
                return 0;
''','''            return allocate_fresh< Bounded >();
''')], None, 0, SQ),
('f4-dealloc-ptr', fl, '''        for ( ;; ) {
            tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );
            new_pool->next.set_ptr( old_pool.get_ptr() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return;
        }''', '''        bool done = false;
        while ( !done ) {
            new_pool_ptr->next.set_ptr( old_pool.get_ptr() );
            done = pool_.compare_exchange_weak( old_pool, tagged_node_ptr( new_pool_ptr, old_pool.get_tag() ) );
        }''', 1, SQ),
('f4-freepool-end', fl, '''        while ( current ) {
            freelist_node* current_ptr = current.get_ptr();
            if ( current_ptr )
                current = current_ptr->next;
            Alloc::deallocate( (T*)current_ptr, 1 );
        }''', '''        for ( freelist_node* node = current.get_ptr(); node != NULL; ) {
            freelist_node* const following = node->next.get_ptr();
            Alloc::deallocate( (T*)node, 1 );
            node = following;
        }''', 1, SQ),
('f4-init-index', fl, '''            tagged_index* next_index = reinterpret_cast< tagged_index* >( nodes + i );
            next_index->set_index( null_handle() );
''', '''            freelist_node* node = reinterpret_cast< freelist_node* >( &nodes[ i ] );
            node->next.set_index( null_handle() );
''', 1, SQ),
('f4-init-while', fl, '''        for ( std::size_t i = 0; i != NodeStorage::node_count(); ++i ) {
            tagged_index* next_index''', '''        const std::size_t count = NodeStorage::node_count();
        for ( std::size_t i = 0; i < count; i++ ) {
            tagged_index* next_index''', 1, SQ),
('f4-get-pointer', fl, '''        if ( index == null_handle() )
            return 0;
        else
            return NodeStorage::nodes() + index;''', '''        return index != null_handle() ? &NodeStorage::nodes()[ index ] : NULL;''', 1, SQ),
('f4-destruct-one', fl, '''        index_t index = tagged_index.get_index();
        T*      n     = NodeStorage::nodes() + index;
        (void)n; // silence msvc warning
        n->~T();
        deallocate< ThreadSafe >( index );''', '''        destruct< ThreadSafe >( NodeStorage::nodes() + tagged_index.get_index() );''', 1, SQ),
('f4-storage-order', fl, '''        nodes_ = allocator_type::allocate( count );
        std::memset( (void*)nodes_, 0, sizeof( T ) * count );''', '''        T* const storage = allocator_type::allocate( count );
        std::memset( (void*)storage, 0, count * sizeof( T ) );
        nodes_ = storage;''', 1, SQ),
('f4-limit-max', fl, 'if ( count > 65535 )', 'if ( count > ( std::numeric_limits< boost::uint16_t >::max )() )', 1, SQ),
('f4-construct-guard', fl, '''        T* node = allocate< ThreadSafe, Bounded >();
        if ( node ) {
            BOOST_TRY
            {
                new ( node ) T( arg );
            }
            BOOST_CATCH( ... )
            {
                deallocate< ThreadSafe >( node );
                BOOST_RETHROW;
            }
            BOOST_CATCH_END
        }
        return node;''', '''        T* const node = allocate< ThreadSafe, Bounded >();
        if ( node == NULL )
            return NULL;

        BOOST_TRY
        {
            return ::new ( static_cast< void* >( node ) ) T( arg );
        }
        BOOST_CATCH( ... )
        {
            deallocate< ThreadSafe >( node );
            BOOST_RETHROW;
        }
        BOOST_CATCH_END''', 1, SQ),
# stack
('s4-init-relaxed', st, 'tos.store( tagged_node_handle( pool.null_handle(), 0 ) );', '''const tagged_node_handle empty_list( pool.null_handle() );
        tos.store( empty_list, detail::memory_order_release );''', 1, ('stack',)),
('s4-dopush-single', st, '''        node* newnode = pool.template construct< true, Bounded >( v );
        if ( newnode == 0 )
            return false;

        link_nodes_atomic( newnode, newnode );
        return true;''', '''        node* newnode = pool.template construct< true, Bounded >( v );
        if ( newnode != NULL )
            link_nodes_atomic( newnode, newnode );
        return newnode != NULL;''', 1, ('stack',)),
('s4-link-end', st, '''        for ( ;; ) {
            tagged_node_handle new_tos( pool.get_handle( new_top_node ), old_tos.get_tag() );
            end_node->next = pool.get_handle( old_tos );

            if ( tos.compare_exchange_weak( old_tos, new_tos ) )
                break;
        }''', '''        tagged_node_handle new_tos;
        do {
            end_node->next = pool.get_handle( old_tos );
            new_tos        = tagged_node_handle( pool.get_handle( new_top_node ), old_tos.get_tag() );
        } while ( !tos.compare_exchange_weak( old_tos, new_tos, detail::memory_order_release, detail::memory_order_relaxed ) );''', 1, ('stack',)),
('s4-cone-copy', st, CONE, '''            if ( !tos.compare_exchange_weak( old_tos, new_tos ) )
                continue;

            node& top = *old_tos_pointer;
            f( top.v );
            pool.template destruct< true >( old_tos_pointer );
            return true;
''', 2, ('stack',)),
('s4-call-do', st, '''        size_t element_count = 0;
        while ( consume_one( f ) )
            element_count += 1;

        return element_count;''', '''        size_t element_count = 0;
        for ( ;; ) {
            if ( !consume_one( f ) )
                return element_count;
            ++element_count;
        }''', 2, ('stack',)),
('s4-range-struct', st, '''        tie( new_top_node, end_node ) = prepare_node_list< true, Bounded >( begin, end, ret );
        if ( new_top_node )
            link_nodes_atomic( new_top_node, end_node );
''','''        const tuple< node*, node* > list = prepare_node_list< true, Bounded >( begin, end, ret );
        new_top_node                     = get< 0 >( list );
        end_node                         = get< 1 >( list );
        if ( end_node == NULL )
            return ret;
        link_nodes_atomic( new_top_node, end_node );
''', 1, ('stack',)),
('s4-list-null', st, '''        node* new_top_node = end_node;
        end_node->next     = pool.null_handle();
''', '''        end_node->next     = pool.get_handle( static_cast< node* >( NULL ) );
        node* new_top_node = end_node;
''', 1, ('stack',)),
('s4-upop-direct', st, '''        node*              new_tos_ptr = pool.get_pointer( old_tos_pointer->next );
        tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );
''','''        tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );
''', 1, ('stack',)),
# queue
('q4-node-init', qu, '''            tagged_node_handle old_next = next.load( memory_order_relaxed );
            tagged_node_handle new_next( null_handle, old_next.get_next_tag() );
            next.store( new_next, memory_order_release );''', '''            next.store( tagged_node_handle( null_handle, next.load( memory_order_relaxed ).get_next_tag() ), memory_order_release );''', 1, ('queue',)),
('q4-pop-tailpos', qu, '''                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {
                    if ( next_ptr == 0 )
                        return false;
''', '''                if ( head_ptr == pool.get_pointer( tail ) ) {
                    if ( !next_ptr )
                        return false;
''', 1, ('queue',)),
('q4-pop-flow', qu, '''            tagged_node_handle head2 = head_.load( memory_order_acquire );
            if ( BOOST_LIKELY( head == head2 ) ) {
                if ( pool.get_handle( head ) == pool.get_handle( tail ) ) {
                    if ( next_ptr == 0 )
                        return false;
''', '''            const bool         at_tail = pool.get_handle( head ) == pool.get_handle( tail );
            tagged_node_handle head2   = head_.load( memory_order_acquire );
            if ( BOOST_LIKELY( !( head != head2 ) ) ) {
                if ( at_tail ) {
                    if ( next_ptr == 0 )
                        return false;
''', 0, ('queue',)),
# spsc
('p4-rt-sizes', sp, '''    bool push( T const& t )
    {
        return ringbuffer_base< T >::push( t, &*array_, max_elements_ );''', '''    bool push( T const& t )
    {
        T* const storage = &*array_;
        return ringbuffer_base< T >::push( t, storage, max_elements_ );''', 1, ('spsc',)),
('p4-dtor', sp, '''        detail::consume_noop consume_functor;
        (void)consume_all( consume_functor );
''', '''        detail::consume_noop consume_functor;
        while ( consume_one( consume_functor ) ) {}
''', 0, ('spsc',)),
('p4-wavail', sp, '''        size_t ret = read_index - write_index - 1;
        if ( write_index >= read_index )
            ret += max_size;
        return ret;''', '''        return write_index < read_index ? read_index - write_index - 1 : max_size - ( write_index - read_index ) - 1;''', 1, ('spsc',)),
('p4-avail-order', sp, '''        size_t       write_index = write_index_.load( memory_order_relaxed );
        const size_t read_index  = read_index_.load( memory_order_acquire );
        return write_available( write_index, read_index, max_size );''', '''        const size_t read_index  = read_index_.load( memory_order_acquire );
        const size_t write_index = write_index_.load( memory_order_relaxed );
        return write_available( write_index, read_index, max_size );''', 1, ('spsc',)),
('p4-push-ptr', sp, '''        new ( buffer + write_index ) T( t ); // copy-construct

        write_index_.store( next, memory_order_release );

        return true;''', '''        T* const slot = &buffer[ write_index ];
        ::new ( static_cast< void* >( slot ) ) T( t );
        std::atomic_thread_fence( std::memory_order_release );
        write_index_.store( next, memory_order_relaxed );
        return true;''', 1, ('spsc',)),
]
