# bugs that need more than one line: every one must be caught by a failed obligation or by the replay
st,qu,fl,sp,cp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/copy_payload.hpp','detail/tagged_ptr_ptrcompression.hpp'
SQ=('stack','queue')
M=[
('b4-lock-flag', st, [('''        link_nodes_atomic( newnode, newnode );
        return true;''','''        while ( busy.exchange( true ) ) {}
        link_nodes_unsafe( newnode, newnode );
        busy.store( false );
        return true;'''),('''    detail::atomic< tagged_node_handle > tos;
''','''    detail::atomic< tagged_node_handle > tos;
    detail::atomic< bool > busy { false };
''')],'',1,('stack',)),
('b4-lock-static', st, [('''        link_nodes_atomic( newnode, newnode );
        return true;''','''        static detail::atomic< bool > busy( false );
        while ( busy.exchange( true ) ) {}
        link_nodes_atomic( newnode, newnode );
        busy.store( false );
        return true;''')],'',1,('stack',)),
('b4-pop-wait-tail', qu, '''                    if ( next_ptr == 0 )
                        return false;

                    tagged_node_handle new_tail( pool.get_handle( next ), tail.get_next_tag() );
                    tail_.compare_exchange_strong( tail, new_tail );

                } else {''','''                    if ( next_ptr == 0 )
                        return false;
                    continue;
                } else {''',1,('queue',)),
('b4-pow2-mask', sp, '''        size_t ret = arg + 1;
        while ( BOOST_UNLIKELY( ret >= max_size ) )
            ret -= max_size;
        return ret;''','''        if ( ( max_size & ( max_size - 1 ) ) == 0 )
            return ( arg + 1 ) & ( max_size - 2 );
        size_t ret = arg + 1;
        while ( BOOST_UNLIKELY( ret >= max_size ) )
            ret -= max_size;
        return ret;''',1,('spsc',)),
('b4-trim', fl, '''    void deallocate_impl( T* n )
    {
        void*           node         = n;
        tagged_node_ptr old_pool     = pool_.load( memory_order_consume );''','''    void deallocate_impl( T* n )
    {
        void*           node         = n;
        tagged_node_ptr old_pool     = pool_.load( memory_order_consume );
        if ( old_pool.get_ptr() && ( old_pool.get_tag() & 0x3ff ) == 0x3ff ) {
            Alloc::deallocate( n, 1 );
            return;
        }''',1,SQ),
('b4-cache-read', sp, [('''        if ( next == read_index_.load( memory_order_acquire ) )
            return false;                    /* ringbuffer is full */
''','''        if ( next == cached_read_ ) {
            cached_read_ = read_index_.load( memory_order_relaxed );
            if ( next == cached_read_ )
                return false;                    /* ringbuffer is full */
        }
'''),('''    atomic< size_t >    read_index_;
''','''    atomic< size_t >    read_index_;
    size_t              cached_read_ = 0;
''')],'',1,('spsc',)),
('b4-count-late', sp, '''            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );
            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );
''','''            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );
            read_index_.store( 0, memory_order_release );
            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );
''',2,('spsc',)),
('b4-takeall-retry', st, '''        for ( ;; ) {
            node* old_tos_pointer = pool.get_pointer( old_tos );
            if ( !old_tos_pointer )
                return 0;

            tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );

            if ( tos.compare_exchange_weak( old_tos, new_tos ) )
                break;
        }
''','''        if ( !pool.get_pointer( old_tos ) )
            return 0;
        while ( !tos.compare_exchange_weak( old_tos, tagged_node_handle( pool.null_handle(), old_tos.get_next_tag() ) ) ) {}
''',4,('stack',)),
('b4-upop-keep-tag', st, '''        node*              new_tos_ptr = pool.get_pointer( old_tos_pointer->next );
        tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );
''','''        node*              new_tos_ptr = pool.get_pointer( old_tos_pointer->next );
        tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), new_tos_ptr ? old_tos.get_next_tag() : old_tos.get_tag() );
''',1,('stack',)),
('b4-reserve-shared', fl, '''    template < bool ThreadSafe >
    void reserve( std::size_t count )
    {
        for ( std::size_t i = 0; i != count; ++i ) {
            T* node = Alloc::allocate( 1 );
            std::memset( (void*)node, 0, sizeof( T ) );
            deallocate< ThreadSafe >( node );''','''    template < bool ThreadSafe >
    void reserve( std::size_t count )
    {
        for ( std::size_t i = 0; i != count; ++i ) {
            T* node = Alloc::allocate( 1 );
            std::memset( (void*)node, 0, sizeof( T ) );
            deallocate< ThreadSafe && ( sizeof( T ) < 2 ) >( node );''',1,SQ),
('b4-rollback-one', st, '''            for ( node* current_node = new_top_node; current_node != NULL; ) {
                node* next = pool.get_pointer( current_node->next );
                pool.template destruct< Threadsafe >( current_node );
                current_node = next;
            }''','''            for ( node* current_node = new_top_node; current_node != end_node; ) {
                node* next = pool.get_pointer( current_node->next );
                pool.template destruct< Threadsafe >( current_node );
                current_node = next;
            }''',1,('stack',)),
('b4-next-plain', qu, '''                    tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );
                    if ( tail_node->next.compare_exchange_weak( next, new_tail_next ) ) {''','''                    tagged_node_handle new_tail_next( node_handle, next.get_next_tag() );
                    if ( tail_node->next.load( memory_order_relaxed ) == next ) {
                        tail_node->next.store( new_tail_next );''',1,('queue',)),
('b4-empty-tailfirst', qu, '''        return pool.get_handle( head_.load() ) == pool.get_handle( tail_.load() );''','''        const tagged_node_handle tail = tail_.load();
        return pool.get_handle( tail ) == pool.get_handle( head_.load() );''',1,('queue',)),
('b4-fixed-skip', fl, '''            index_t index = old_pool.get_index();
            if ( index == null_handle() )
                return index;

            T*            old_node   = NodeStorage::nodes() + index;
            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );

            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return old_pool.get_index();''','''            index_t index = old_pool.get_index();
            if ( index == null_handle() )
                return index;

            T*            old_node   = NodeStorage::nodes() + index;
            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );

            const index_t next = next_index->get_index();
            if ( next == null_handle() && old_pool.get_tag() == 0xffff )
                return null_handle();
            tagged_index new_pool( next, old_pool.get_next_tag() );

            if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                return old_pool.get_index();''',1,SQ),
('b4-front-stale', sp, '''        T& object_to_consume = buffer[ read_index ];
        functor( object_to_consume );
        object_to_consume.~T();

        size_t next = next_index( read_index, max_size );
        read_index_.store( next, memory_order_release );
        return true;''','''        size_t next = next_index( read_index, max_size );
        T& object_to_consume = buffer[ read_index ];
        functor( object_to_consume );
        if ( next != write_index )
            object_to_consume.~T();
        read_index_.store( next, memory_order_release );
        if ( next == write_index )
            object_to_consume.~T();
        return true;''',2,('spsc',)),
('b4-static-count', st, '''        size_t element_count = 0;
        while ( consume_one( f ) )
            element_count += 1;
''','''        size_t element_count = 0;
        while ( consume_one( f ) ) {
            element_count += 1;
            if ( element_count == 65536 )
                break;
        }
''',2,('stack',)),
('b4-ctor-order', fl, '''        nodes_ = allocator_type::allocate( count );
        std::memset( (void*)nodes_, 0, sizeof( T ) * count );''','''        nodes_ = allocator_type::allocate( count );
        std::memset( (void*)nodes_, 0, sizeof( T ) * static_cast< boost::uint16_t >( count - 1 ) );''',1,SQ),
('b4-double-release', qu, '''                        detail::copy_payload( element, ret );
                        pool.template destruct< true >( head );
                        return true;''','''                        detail::copy_payload( element, ret );
                        if ( pool.get_handle( next ) != pool.get_handle( tail_.load() ) || true )
                            pool.template destruct< true >( head );
                        if ( next.get_tag() == 0xfffe )
                            pool.template destruct< true >( head );
                        return true;''',1,('queue',)),
]
