# more bugs (tools/mutate.py tools/mutants3.py): every one must be reported
st,qu,fl,sp,cp,tp='stack.hpp','queue.hpp','detail/freelist.hpp','spsc_queue.hpp','detail/copy_payload.hpp','detail/tagged_ptr_ptrcompression.hpp'
SQ=('stack','queue')
M=[
('b3-spsc-ctshort', sp, "    static const std::size_t max_size = MaxSize + 1;", "    static const std::size_t max_size = ( MaxSize & 0xffff ) + 1;", 1, ('spsc',)),
('b3-ct-nodecount', fl, "    std::size_t node_count( void ) const\n    {\n        return size;\n    }", "    std::size_t node_count( void ) const\n    {\n        return size < 32768 ? size : 32767;\n    }", 1, SQ),
('b3-ct-alignpad', fl, "boost::array< char, size * sizeof( T ) + 64 > data;", "boost::array< char, size * sizeof( T ) - ( size > 1000 ? 64 : 0 ) > data;", 1, SQ),
]
