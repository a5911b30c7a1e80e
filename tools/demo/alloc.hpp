// counting allocators and life-checked elements
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <set>
#include <vector>
inline long A_calls = 0, A_live = 0, A_bad = 0, A_elems = 0;
inline std::map< void*, std::size_t >& A_blocks() { static std::map< void*, std::size_t > m; return m; }
inline int  A_fill = 0;
template < typename T >
struct CA
{
    typedef T value_type;
    CA() {}
    template < typename U > CA( CA< U > const& ) {}
    template < typename U > struct rebind { typedef CA< U > other; };
    T* allocate( std::size_t n )
    {
        ++A_calls; ++A_live; A_elems += long( n );
        std::size_t sz = ( n * sizeof( T ) + 127 ) & ~std::size_t( 63 );
        void* p = aligned_alloc( 64, sz );
        if ( A_fill ) memset( p, A_fill, sz );
        A_blocks()[ p ] = n * sizeof( T );
        return static_cast< T* >( p );
    }
    void deallocate( T* p, std::size_t n )
    {
        auto i = A_blocks().find( p );
        if ( i == A_blocks().end() || i->second != n * sizeof( T ) ) { ++A_bad; return; }
        A_blocks().erase( i ); --A_live;
        free( p );
    }
    template < typename U > bool operator==( CA< U > const& ) const { return true; }
    template < typename U > bool operator!=( CA< U > const& ) const { return false; }
};
inline std::set< const void* >& L_objs() { static std::set< const void* > s; return s; }
inline long L_bad = 0;
inline void ( *L_event )() = nullptr;
struct Life
{
    int v;
    Life( int x = 0 ) : v( x ) { born(); }
    Life( Life const& o ) : v( o.v ) { o.need(); born(); }
    Life& operator=( Life const& o ) { need(); o.need(); v = o.v; return *this; }
    ~Life() { if ( L_event ) L_event(); if ( !L_objs().erase( this ) ) ++L_bad; v = -1; }
    void born() { if ( !L_objs().insert( this ).second ) ++L_bad; }
    void need() const { if ( !L_objs().count( this ) ) ++L_bad; }
};
inline int verdict( bool ok, const char* what )
{
    printf( "%s: %s\n", ok ? "holds" : "PROPERTY BROKEN", what );
    return ok ? 0 : 1;
}
