# single changes to the remaining parts (spsc, storage, handles, copying); used by tools/mutate.py
st,qu,fl,sp,tp,td,cp,pa='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/tagged_ptr_ptrcompression.hpp','detail/tagged_ptr_dcas.hpp','detail/copy_payload.hpp','detail/parameter.hpp'
SQ=('stack','queue')
S1=('spsc',)
M=[
('p-wavail-gt', sp, "        if ( write_index >= read_index )\n            ret += max_size;","        if ( write_index > read_index )\n            ret += max_size;",1,S1),
('p-range-ge', sp, "        if ( write_index + input_count > max_size ) {\n            /* copy data in two sections */\n            const size_t        count0","        if ( write_index + input_count >= max_size ) {\n            /* copy data in two sections */\n            const size_t        count0",1,S1),
('p-range-noreset', sp, "            std::uninitialized_copy( begin, last, internal_buffer + write_index );\n\n            if ( new_write_index == max_size )\n                new_write_index = 0;","            std::uninitialized_copy( begin, last, internal_buffer + write_index );",1,S1),
('p-reset-order', sp, "            base_type::write_index_.store( 0, memory_order_relaxed );\n            base_type::read_index_.store( 0, memory_order_release );","            base_type::read_index_.store( 0, memory_order_relaxed );\n            base_type::write_index_.store( 0, memory_order_release );",1,S1),
('p-reset-half', sp, "            base_type::write_index_.store( 0, memory_order_relaxed );\n            base_type::read_index_.store( 0, memory_order_release );","            base_type::read_index_.store( 0, memory_order_release );",1,S1),
('p-reset-inv', sp, "        if ( !boost::has_trivial_destructor< T >::value ) {\n            // make sure to call all destructors!\n            detail::consume_noop consume_functor;\n            (void)consume_all( consume_functor );\n        } else {\n            base_type","        if ( boost::has_trivial_destructor< T >::value ) {\n            // make sure to call all destructors!\n            detail::consume_noop consume_functor;\n            (void)consume_all( consume_functor );\n        } else {\n            base_type",1,S1),
('p-ravail-relaxed', sp, "        size_t       write_index = write_index_.load( memory_order_acquire );\n        const size_t read_index  = read_index_.load( memory_order_relaxed );\n        return read_available","        size_t       write_index = write_index_.load( memory_order_relaxed );\n        const size_t read_index  = read_index_.load( memory_order_relaxed );\n        return read_available",1,S1),
('p-wavail-relaxed', sp, "        size_t       write_index = write_index_.load( memory_order_relaxed );\n        const size_t read_index  = read_index_.load( memory_order_acquire );\n        return write_available","        size_t       write_index = write_index_.load( memory_order_relaxed );\n        const size_t read_index  = read_index_.load( memory_order_relaxed );\n        return write_available",1,S1),
('p-dtor-noconsume', sp, "    ~runtime_sized_ringbuffer( void )\n    {\n        // destroy all remaining items\n        detail::consume_noop consume_functor;\n        (void)consume_all( consume_functor );\n","    ~runtime_sized_ringbuffer( void )\n    {\n        // destroy all remaining items\n        detail::consume_noop consume_functor;\n        (void)consume_one( consume_functor );\n",1,S1),
('p-dtor-size', sp, "        allocator_traits::deallocate( allocator, array_, max_elements_ );","        allocator_traits::deallocate( allocator, array_, max_elements_ - 1 );",1,S1),
('p-ctor-noalloc', sp, "    runtime_sized_ringbuffer( Alloc const& alloc, size_type max_elements ) :\n        Alloc( alloc ),\n        max_elements_( max_elements + 1 )","    runtime_sized_ringbuffer( Alloc const& alloc, size_type max_elements ) :\n        Alloc(),\n        max_elements_( max_elements + 1 )",1,S1),
('p-cone-order', sp, "        functor( object_to_consume );\n        object_to_consume.~T();\n\n        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release );","        functor( object_to_consume );\n\n        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release );\n        object_to_consume.~T();",0,S1),
('p-next-gt', sp, "while ( BOOST_UNLIKELY( ret >= max_size ) )","while ( BOOST_UNLIKELY( ret > max_size ) )",1,S1),
('p-wstore-relaxed', sp, "        new ( buffer + write_index ) T( t ); // copy-construct\n\n        write_index_.store( next, memory_order_release );","        new ( buffer + write_index ) T( t ); // copy-construct\n\n        write_index_.store( next, memory_order_relaxed );",1,S1),
('p-pop-relaxed', sp, "    size_t pop( T* output_buffer, size_t output_count, T* internal_buffer, size_t max_size )\n    {\n        const size_t write_index = write_index_.load( memory_order_acquire );","    size_t pop( T* output_buffer, size_t output_count, T* internal_buffer, size_t max_size )\n    {\n        const size_t write_index = write_index_.load( memory_order_relaxed );",1,S1),
('p-popit-copy2', sp, "            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );\n            copy_and_delete( internal_buffer, internal_buffer + count1, it );","            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );\n            copy_and_delete( internal_buffer, internal_buffer + count1, it );",1,S1),
('p-cad-nodtor', sp, "                *out = *first;\n                first->~T();","                *out = *first;",1,S1),
('p-rfad-nodtor', sp, "            functor( *first );\n            first->~T();","            functor( *first );",2,S1),
('p-front-plus', sp, "        const size_t read_index = read_index_.load( memory_order_relaxed ); // only written from pop thread\n        return *( internal_buffer + read_index );","        const size_t read_index = write_index_.load( memory_order_relaxed ); // only written from pop thread\n        return *( internal_buffer + read_index );",2,S1),
('p-cap-max', sp, "    static const std::size_t max_size = MaxSize + 1;","    static const std::size_t max_size = MaxSize;",1,S1),
('p-maxel', sp, "    size_type max_number_of_elements() const\n    {\n        return max_elements_;","    size_type max_number_of_elements() const\n    {\n        return max_elements_ - 1;",1,S1),
('p-poparr', sp, "    size_type pop( T ( &ret )[ size ] )\n    {\n        return pop( ret, size );","    size_type pop( T ( &ret )[ size ] )\n    {\n        return pop( ret, size - 1 );",1,S1),
('p-cachedidx', sp, "        if ( next == read_index_.load( memory_order_acquire ) )\n            return false;                    /* ringbuffer is full */","        if ( next == read_index_.load( memory_order_relaxed ) )\n            return false;                    /* ringbuffer is full */",1,S1),
('p-call-avail-re', sp, "        const size_t output_count = avail;\n\n        size_t new_read_index = read_index + output_count;","        const size_t output_count = ( std::min )( avail, max_size - read_index );\n\n        size_t new_read_index = read_index + output_count;",0,S1),
('p-popu-twice', cp, "        copy_payload( element, out_ );","        T tmp( element );\n        copy_payload( tmp, out_ );",1,S1),
# storage
('f-store-memset', fl, "        std::memset( (void*)nodes_, 0, sizeof( T ) * count );","        std::memset( (void*)nodes_, 0, sizeof( T ) );",1,SQ),
('f-store-pad', fl, "boost::array< char, size * sizeof( T ) + 64 > data;","boost::array< char, size * sizeof( T ) > data;",1,SQ),
('f-store-count', fl, "        allocator_type::deallocate( nodes_, node_count_ );","        allocator_type::deallocate( nodes_, node_count_ + 1 );",1,SQ),
('f-store-alloc', fl, "        allocator_type( alloc ),\n        node_count_( count )","        node_count_( count )",1,SQ),
('f-limit-off', fl, "if ( count > 65535 )","if ( count > 65536 )",1,SQ),
('f-alloc', fl, "    freelist_stack( Allocator const& alloc, std::size_t n = 0 ) :\n        Alloc( alloc ),","    freelist_stack( Allocator const& alloc, std::size_t n = 0 ) :\n        Alloc(),",1,SQ),
('f-init-short', fl, "for ( std::size_t i = 0; i != NodeStorage::node_count(); ++i ) {","for ( std::size_t i = 1; i < NodeStorage::node_count(); ++i ) {",1,SQ),
('f-free-first', fl, "            if ( current_ptr )\n                current = current_ptr->next;\n            Alloc::deallocate( (T*)current_ptr, 1 );","            Alloc::deallocate( (T*)current_ptr, 1 );\n            if ( current_ptr )\n                current = current_ptr->next;",1,SQ),
('f-reserve-unsafe', fl, "            deallocate< ThreadSafe >( node );\n        }\n    }","            deallocate< false >( node );\n        }\n    }",1,SQ),
('f-destruct-unsafe', fl, "        T* n = tagged_ptr.get_ptr();\n        n->~T();\n        deallocate< ThreadSafe >( n );","        T* n = tagged_ptr.get_ptr();\n        n->~T();\n        deallocate< false >( n );",1,SQ),
('f-destruct-nodtor', fl, "        T* n = tagged_ptr.get_ptr();\n        n->~T();\n        deallocate","        T* n = tagged_ptr.get_ptr();\n        deallocate",1,SQ),
('f-allocunsafe-tag', fl, "        tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_next_tag() );\n\n        pool_.store","        tagged_node_ptr new_pool( new_pool_ptr, old_pool.get_tag() );\n\n        pool_.store",1,SQ),
('f-memset', fl, "                    std::memset( (void*)ptr, 0, sizeof( T ) );\n                    return ptr;","                    return ptr;",1,SQ),
('f-alloc-relaxed', fl, "        tagged_node_ptr old_pool = pool_.load( memory_order_consume );\n\n        for ( ;; ) {\n            if ( !old_pool","        tagged_node_ptr old_pool = pool_.load( memory_order_relaxed );\n\n        for ( ;; ) {\n            if ( !old_pool",1,SQ),
('f-fsalloc-relaxed', fl, "        tagged_index old_pool = pool_.load( memory_order_consume );\n\n        for ( ;; ) {\n            index_t index = old_pool","        tagged_index old_pool = pool_.load( memory_order_relaxed );\n\n        for ( ;; ) {\n            index_t index = old_pool",1,SQ),
('f-fsalloc-return', fl, "                return old_pool.get_index();\n        }","                return new_pool.get_index();\n        }",1,SQ),
('f-fs-destruct', fl, "deallocate< ThreadSafe >( static_cast< index_t >( n - NodeStorage::nodes() ) );","deallocate< false >( static_cast< index_t >( n - NodeStorage::nodes() ) );",1,SQ),
('f-null0', fl, "        return static_cast< index_t >( NodeStorage::node_count() );","        return static_cast< index_t >( NodeStorage::node_count() - 1 );",1,SQ),
('f-gethandle-null', fl, "        if ( pointer == NULL )\n            return null_handle();\n        else\n            return static_cast< index_t >( pointer - NodeStorage::nodes() );","        return static_cast< index_t >( pointer - NodeStorage::nodes() );",1,SQ),
('f-tagindex-eq', fl, "return ( index == rhs.index ) && ( tag == rhs.tag );","return ( index == rhs.index );",1,SQ+('repr',)),
('f-tag-mask', fl, "        tag_t next = ( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )();","        tag_t next = ( get_tag() + 1u ) & 0xff;",1,SQ+('repr',)),
('f-settag', fl, "    void set_index( index_t i )\n    {\n        index = i;","    void set_index( index_t i )\n    {\n        index = i;\n        tag   = 0;",1,SQ+('repr',)),
# handles
('t-mask47', tp, "0xffffffffffffUL","0x7fffffffffffUL",1,SQ+('repr',)),
('t-eq', tp, "return ( ptr == p.ptr );","return extract_ptr( ptr ) == extract_ptr( p.ptr );",1,('repr','queue')),
('t-setptr', tp, "        tag_t tag = get_tag();\n        ptr       = pack_ptr( p, tag );","        ptr       = pack_ptr( p, 0 );",1,SQ+('repr',)),
('t-next', tp, "        tag_t next = ( get_tag() + 1u ) & ( std::numeric_limits< tag_t >::max )();\n        return next;","        tag_t next = ( get_tag() + 1u ) % ( std::numeric_limits< tag_t >::max )();\n        return next;",1,SQ+('repr',)),
('t-pack-or', tp, "        ret.tag[ tag_index ] = tag;","        ret.tag[ tag_index ] |= tag;",1,('repr',)),
('t-bool', tp, "        return get_ptr() != 0;","        return ptr != 0;",1,SQ+('repr',)),
('d-eq', td, "( ptr == p.ptr ) && ( tag == p.tag )","( ptr == p.ptr ) || ( tag == p.tag )",1,('repr',)),
('d-next', td, "get_tag() + 1 )","get_tag() + 2 )",1,('repr',)),
('d-setptr', td, "    void set_ptr( T* p )\n    {\n        ptr = p;","    void set_ptr( T* p )\n    {\n        ptr = p;\n        tag = 0;",1,('repr',)),
# stack
('s-ctor-tag', st, "        tos.store( tagged_node_handle( pool.null_handle(), 0 ) );","        tos.store( tagged_node_handle( 0, 0 ) );",1,('stack',)),
('s-cap', st, "        pool( alloc, capacity )","        pool( alloc, capacity - 1 )",0,('stack',)),
('s-upush-atomic', st, "        link_nodes_unsafe( newnode, newnode );\n        return true;","        link_nodes_atomic( newnode, newnode );\n        return true;",1,('stack',)),
('s-bpush-unb', st, "        return do_push< true >( v );","        return do_push< false >( v );",1,('stack',)),
('s-upop-relaxorder', st, "        tos.store( new_tos, memory_order_relaxed );\n        detail::copy_payload( old_tos_pointer->v, ret );\n","        tos.store( new_tos, memory_order_relaxed );\n",1,('stack',)),
('s-take-noswap', st, "            tagged_node_handle new_tos( pool.null_handle(), old_tos.get_next_tag() );","            tagged_node_handle new_tos( pool.get_handle( old_tos ), old_tos.get_next_tag() );",0,('stack',)),
('q-bpush-unb', qu, "        return do_push< true >( t );","        return do_push< false >( t );",1,('queue',)),
('q-cons-copy', cp, "        u = t;","        u = U( t );",1,('queue','stack')),
]
