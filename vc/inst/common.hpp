// Instantiations that the VC generator verifies.  Everything declared here without a body
// (element type, functor, allocator) is an opaque dependency of the headers under test: the verifier
// knows it only by contract.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>

// opaque element type (8 bytes, non trivial lifetime)
#ifdef ETHROW
#define MAYTHROW noexcept( false )
#else
#define MAYTHROW noexcept
#endif
struct E {
    long a;
    E( E const& ) MAYTHROW;
    ~E() noexcept;
    E& operator=( E const& ) noexcept;
};
// element whose copy constructor may throw, otherwise trivial (queue)
struct TQ {
    long a;
    TQ() = default;
    TQ( TQ const& ) noexcept( false );
    TQ& operator=( TQ const& ) = default;
};
// a second type, E converts to it
struct U {
    long a;
    U( E const& ) noexcept;
    U( U const& ) noexcept;
    ~U() noexcept;
    U& operator=( E const& ) noexcept;
    U& operator=( U const& ) noexcept;
};
// functor, lvalue and const call operators
template < class T >
struct Fn {
    long s;
    void operator()( T& ) noexcept;
    void operator()( T const& ) const noexcept;
};
template <> void Fn< E >::operator()( E& ) noexcept;
template <> void Fn< E >::operator()( E const& ) const noexcept;
template <> void Fn< long >::operator()( long& ) noexcept;
template <> void Fn< long >::operator()( long const& ) const noexcept;

// functor whose non const operator takes const ref (stack elements are const)
struct FnS {
    long s;
    void operator()( E const& ) noexcept;
    void operator()( E const& ) const noexcept;
};

extern "C" void* vp_alloc( std::size_t bytes, long arena );          // may throw
extern "C" void  vp_free( void*, std::size_t bytes, long arena ) noexcept;

template < class T >
struct VA {
    typedef T value_type;
    long      arena;    // allocators are equal, and may return each other's memory, only if their arenas are equal
    VA() noexcept :
        arena( 0 )
    {}
    template < class X >
    VA( VA< X > const& rhs ) noexcept :
        arena( rhs.arena )
    {}
    T* allocate( std::size_t n )
    {
        return (T*)vp_alloc( n * sizeof( T ), arena );
    }
    void deallocate( T* p, std::size_t n ) noexcept
    {
        vp_free( p, n * sizeof( T ), arena );
    }
    template < class X >
    bool operator==( VA< X > const& rhs ) const
    {
        return arena == rhs.arena;
    }
    template < class X >
    bool operator!=( VA< X > const& rhs ) const
    {
        return arena != rhs.arena;
    }
};
// output iterator with opaque assignment
struct OutIt {
    void*  p;
    struct ref {
        void* p;
        void  operator=( E const& ) noexcept;
    };
    typedef std::output_iterator_tag iterator_category;
    typedef void                     value_type;
    typedef std::ptrdiff_t           difference_type;
    typedef void                     pointer;
    typedef void                     reference;
};
#define X extern "C"
