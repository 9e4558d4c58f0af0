sp='spsc_queue.hpp'; S=('spsc',)
M=[
('p-nextidx', sp, "        size_t ret = arg + 1;\n        while ( BOOST_UNLIKELY( ret >= max_size ) )\n            ret -= max_size;\n        return ret;", "        return arg + 1 == max_size ? 0 : arg + 1;", 1, S),
('p-nextidx-mod', sp, "        size_t ret = arg + 1;\n        while ( BOOST_UNLIKELY( ret >= max_size ) )\n            ret -= max_size;\n        return ret;", "        size_t ret = arg + 1;\n        if ( ret >= max_size )\n            ret -= max_size;\n        return ret;", 1, S),
('p-ravail', sp, "        if ( write_index >= read_index )\n            return write_index - read_index;\n\n        const size_t ret = write_index + max_size - read_index;\n        return ret;", "        size_t ret = write_index - read_index;\n        if ( write_index < read_index )\n            ret += max_size;\n        return ret;", 1, S),
('p-wavail', sp, "        size_t ret = read_index - write_index - 1;\n        if ( write_index >= read_index )\n            ret += max_size;\n        return ret;", "        return max_size - 1 - read_available( write_index, read_index, max_size );", 1, S),
('p-push-wavail', sp, "        if ( next == read_index_.load( memory_order_acquire ) )\n            return false;                    /* ringbuffer is full */", "        const size_t read_index = read_index_.load( memory_order_acquire );\n        if ( read_index == next )\n            return false;", 1, S),
('p-push-order', sp, "        const size_t write_index = write_index_.load( memory_order_relaxed ); // only written from push thread\n        const size_t read_index  = read_index_.load( memory_order_acquire );\n        const size_t avail", "        const size_t read_index  = read_index_.load( memory_order_acquire );\n        const size_t write_index = write_index_.load( memory_order_relaxed );\n        const size_t avail", 1, S),
('p-push-loop', sp, "            std::uninitialized_copy( begin, last, internal_buffer + write_index );\n\n            if", "            T* out = internal_buffer + write_index;\n            for ( ConstIterator it = begin; it != last; ++it, ++out )\n                new ( out ) T( *it );\n\n            if", 1, S),
('p-push-wrap', sp, "        if ( write_index + input_count > max_size ) {\n            /* copy data in two sections */", "        if ( new_write_index > max_size ) {\n            /* copy data in two sections */", 1, S),
('p-push-early', sp, "        if ( avail == 0 )\n            return begin;\n\n        size_t input_count = std::distance( begin, end );\n        input_count        = ( std::min )( input_count, avail );", "        size_t input_count = ( std::min )( static_cast< size_t >( std::distance( begin, end ) ), avail );\n        if ( input_count == 0 )\n            return begin;", 1, S),
('p-push-fin', sp, "            if ( new_write_index == max_size )\n                new_write_index = 0;\n        }\n\n        write_index_.store( new_write_index, memory_order_release );", "        }\n        if ( new_write_index >= max_size )\n            new_write_index = 0;\n\n        write_index_.store( new_write_index, memory_order_release );", 1, S),
('p-cone-ptr', sp, "        T& object_to_consume = buffer[ read_index ];\n        functor( object_to_consume );\n        object_to_consume.~T();", "        T* const p = buffer + read_index;\n        functor( *p );\n        p->~T();", 2, S),
('p-cone-helper', sp, [("        size_t next = next_index( read_index, max_size );\n        read_index_.store( next, memory_order_release );\n        return true;", "        publish_read( read_index + 1, max_size );\n        return true;"), ("    template < typename Functor >\n    bool consume_one( Functor& functor, T* buffer, size_t max_size )", "    void publish_read( size_t idx, size_t max_size )\n    {\n        read_index_.store( idx >= max_size ? idx - max_size : idx, memory_order_release );\n    }\n\n    template < typename Functor >\n    bool consume_one( Functor& functor, T* buffer, size_t max_size )")], None, 0, S),
('p-call-while', sp, "        for ( ; first != last; ++first ) {\n            functor( *first );\n            first->~T();\n        }", "        while ( first != last ) {\n            functor( *first );\n            first->~T();\n            ++first;\n        }", 2, S),
('p-call-index', sp, "        for ( ; first != last; ++first ) {\n            functor( *first );\n            first->~T();\n        }", "        const size_t n = last - first;\n        for ( size_t i = 0; i < n; ++i ) {\n            functor( first[ i ] );\n            first[ i ].~T();\n        }", 2, S),
('p-call-two', sp, "        for ( ; first != last; ++first ) {\n            functor( *first );\n            first->~T();\n        }", "        for ( T* it = first; it != last; ++it )\n            functor( *it );\n        for ( T* it = first; it != last; ++it )\n            it->~T();", 2, S),
('p-pop-count', sp, "            const size_t count0 = max_size - read_index;\n            const size_t count1 = output_count - count0;\n\n            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer );\n            copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count0 );", "            output_buffer = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer );\n            copy_and_delete( internal_buffer, internal_buffer + ( new_read_index - max_size ), output_buffer );", 1, S),
('p-pop-min', sp, "        if ( avail == 0 )\n            return 0;\n\n        output_count = ( std::min )( output_count, avail );", "        if ( output_count > avail )\n            output_count = avail;\n        if ( output_count == 0 )\n            return 0;", 1, S),
('p-pop-noret', sp, "        if ( avail == 0 )\n            return 0;\n\n        output_count = ( std::min )( output_count, avail );", "        output_count = ( std::min )( output_count, avail );", 1, S),
('p-copydel-while', sp, "            for ( ; first != last; ++first, ++out ) {\n                *out = *first;\n                first->~T();\n            }\n            return out;", "            while ( first != last ) {\n                *out++ = *first;\n                ( first++ )->~T();\n            }\n            return out;", 1, S),
('p-reset', sp, "            detail::consume_noop consume_functor;\n            (void)consume_all( consume_functor );\n        } else", "            detail::consume_noop consume_functor;\n            while ( consume_one( consume_functor ) ) {}\n        } else", 1, S),
('p-acq', sp, "        const size_t read_index  = read_index_.load( memory_order_relaxed ); // only written from pop thread", "        const size_t read_index  = read_index_.load( memory_order_acquire );", 0, S),
('p-seqcst', sp, "read_index_.store( new_read_index, memory_order_release );", "read_index_.store( new_read_index );", 0, S),
('p-empty', sp, "        return empty( write_index_.load( memory_order_relaxed ), read_index_.load( memory_order_relaxed ) );", "        return !( write_index_.load( memory_order_acquire ) != read_index_.load( memory_order_acquire ) );", 1, S),
('p-all-helper', sp, [("            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );\n            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );", "            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + count0, functor );\n            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );")], None, 2, S),
('p-all-unify', sp, "        if ( read_index + output_count > max_size ) {\n            /* copy data in two sections */\n            const size_t count0 = max_size - read_index;\n            const size_t count1 = output_count - count0;\n\n            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );\n            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );\n\n            new_read_index -= max_size;\n        } else {\n            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );\n\n            if ( new_read_index == max_size )\n                new_read_index = 0;\n        }", "        const size_t count0 = ( std::min )( output_count, max_size - read_index );\n        run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + count0, functor );\n        run_functor_and_delete( internal_buffer, internal_buffer + ( output_count - count0 ), functor );\n        if ( new_read_index >= max_size )\n            new_read_index -= max_size;", 2, S),
('p-all-each', sp, "        if ( read_index + output_count > max_size ) {\n            /* copy data in two sections */\n            const size_t count0 = max_size - read_index;\n            const size_t count1 = output_count - count0;\n\n            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );\n            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );\n\n            new_read_index -= max_size;\n        } else {\n            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );\n\n            if ( new_read_index == max_size )\n                new_read_index = 0;\n        }", "        size_t idx = read_index;\n        for ( size_t i = 0; i != output_count; ++i ) {\n            functor( internal_buffer[ idx ] );\n            internal_buffer[ idx ].~T();\n            idx = next_index( idx, max_size );\n        }\n        new_read_index = idx;", 2, S),
]
