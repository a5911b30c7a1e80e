// Common parts of the instrumented harnesses. This header must not allocate inside fibers.
#pragma once
#include "lfmon.h"
#include "oracle.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <unordered_set>
#include <vector>

#define NOINSTR __attribute__( ( no_sanitize( "thread" ) ) )

namespace h {
using namespace lfmon;

struct Args
{
    std::string prop = "C01", mode = "lin";
    uint64_t    seed = 1, from = 0, n = 1000;
    bool        verbose = false;
    double      secs    = 0;
};
inline Args parse( int argc, char** argv )
{
    Args a;
    for ( int i = 1; i < argc; ++i ) {
        std::string s = argv[ i ], k = s.substr( 0, s.find( '=' ) ), v = s.substr( s.find( '=' ) + 1 );
        if ( k == "--prop" )
            a.prop = v;
        else if ( k == "--mode" )
            a.mode = v;
        else if ( k == "--seed" )
            a.seed = strtoull( v.c_str(), 0, 0 );
        else if ( k == "--from" )
            a.from = strtoull( v.c_str(), 0, 0 );
        else if ( k == "--n" )
            a.n = strtoull( v.c_str(), 0, 0 );
        else if ( k == "--verbose" )
            a.verbose = true;
    }
    return a;
}
inline uint64_t mix( uint64_t a, uint64_t b )
{
    Rng r( a * 0x100000001B3ull + b );
    return r.next();
}

inline uint64_t chk_of( uint64_t id ) { return ( id + 77 ) * 0x9E3779B97F4A7C15ull; }

// ---- allocator with identity
struct AllocState
{
    int      id = 0;
    uint64_t calls = 0;
    struct B
    {
        void*  p;
        size_t n, sz;
    };
    B        blocks[ 4096 ];
    unsigned nb        = 0;
    bool     check     = false; // report protocol violations (C14)
    uint64_t nodes     = 0;     // allocations of exactly one object: pool nodes
    uint64_t ev_step[ 512 ];
    int      ev_rec[ 512 ];
    unsigned nev = 0;
    int64_t  fail_at = -1; // throw at this call
};
extern int      cur_rec[ NT ];
inline NOINSTR void note_alloc( AllocState* s, void* p, size_t n, size_t sz )
{
    ++s->calls;
    if ( s->nb < 4096 )
        s->blocks[ s->nb++ ] = { p, n, sz };
    if ( n == 1 )
        ++s->nodes;
    if ( s->nev < 512 ) {
        s->ev_step[ s->nev ]  = step_now();
        s->ev_rec[ s->nev++ ] = in_op( self() ) ? cur_rec[ self() ] : -1;
    }
    count_alloc();
}
inline NOINSTR void note_free( AllocState* s, void* p, size_t n, size_t sz )
{
    count_free();
    for ( unsigned i = 0; i < s->nb; ++i )
        if ( s->blocks[ i ].p == p ) {
            if ( s->check && ( s->blocks[ i ].n != n || s->blocks[ i ].sz != sz ) )
                violation( "allocator", "block of %zu objects (%zu bytes each) given back as %zu objects (%zu bytes each)", s->blocks[ i ].n,
                           s->blocks[ i ].sz, n, sz );
            s->blocks[ i ] = s->blocks[ --s->nb ];
            return;
        }
    if ( s->check )
        violation( "allocator", "pointer %p given back which this allocator has not handed out (or twice)", p );
}
template < class T >
struct TrackAlloc
{
    typedef T   value_type;
    AllocState* st;
    explicit TrackAlloc( AllocState* s = nullptr ) : st( s ) {}
    template < class U >
    TrackAlloc( TrackAlloc< U > const& o ) : st( o.st )
    {}
    template < class U >
    struct rebind
    {
        typedef TrackAlloc< U > other;
    };
    T* allocate( size_t n )
    {
        if ( !st )
            violation( "allocator", "memory requested from a default-constructed allocator, not from the one passed" );
        size_t al = alignof( T ) < 16 ? 16 : alignof( T );
        if ( sizeof( T ) == 1 )
            al = 8;
        void* p = lfmon::alloc( n * sizeof( T ), al, A_BLOCK );
        note_alloc( st, p, n, sizeof( T ) );
        return (T*)p;
    }
    void deallocate( T* p, size_t n )
    {
        if ( !st )
            violation( "allocator", "memory returned to a default-constructed allocator" );
        note_free( st, p, n, sizeof( T ) );
        lfmon::release( p, n * sizeof( T ) );
    }
    template < class U >
    bool operator==( TrackAlloc< U > const& o ) const { return st == o.st; }
    template < class U >
    bool operator!=( TrackAlloc< U > const& o ) const { return st != o.st; }
};

// ---- pointees: plain user memory handed over through the containers (race-free by property C05)
struct Msg
{
    uint64_t a, b;
};
extern Msg* msgs; // indexed by element id, null if unused
constexpr unsigned MAXMSG = 512;

// ---- element types
struct Pay // trivial destructor and assignment
{
    uint64_t id, chk;
    Pay() : id( 0 ), chk( 0 ) {}
    explicit Pay( uint64_t i ) : id( i ), chk( chk_of( i ) ) {}
    Pay( Pay const& o ) : id( o.id ), chk( o.chk )
    {
        if ( in_arena( &o ) && !in_arena( this ) )
            spec_read( &o, sizeof( o ) );
        obj_construct( this, sizeof( *this ) );
    }
    Pay& operator=( Pay const& ) = default;
};
struct LPay // full life cycle
{
    uint64_t id, chk;
    LPay() : id( 0 ), chk( 0 ) { obj_construct( this, sizeof( *this ) ); }
    explicit LPay( uint64_t i ) : id( i ), chk( chk_of( i ) ) { obj_construct( this, sizeof( *this ) ); }
    LPay( LPay const& o ) : id( o.id ), chk( o.chk )
    {
        obj_read( &o, sizeof( o ) );
        obj_construct( this, sizeof( *this ) );
    }
    LPay& operator=( LPay const& o )
    {
        obj_read( &o, sizeof( o ) );
        id  = o.id;
        chk = o.chk;
        return *this;
    }
    ~LPay() { obj_destroy( this, sizeof( *this ) ); }
};
struct Conv // conversions performed by the operation running on a thread
{
    unsigned n;
    uint64_t id;
};
extern Conv     conv[ NT ];
inline NOINSTR void note_conv( uint64_t id )
{
    Conv& c = conv[ self() ];
    ++c.n;
    c.id = id;
}
struct Out // receives converted elements; a conversion may take ownership, so it is counted
{
    uint64_t id = 0, chk = 0;
    Out() {}
    Out( Pay const& p ) { take( p ); }
    Out& operator=( Pay const& p )
    {
        take( p );
        return *this;
    }
    Out( LPay const& p )
    {
        obj_read( &p, sizeof( p ) );
        take2( p );
    }
    Out& operator=( LPay const& p )
    {
        obj_read( &p, sizeof( p ) );
        take2( p );
        return *this;
    }
    void take( Pay const& p )
    {
        spec_read( &p, sizeof( p ) );
        take2( p );
    }
    template < class P > void take2( P const& p )
    {
        id  = p.id;
        chk = p.chk;
        note_conv( id );
    }
};

struct Stats
{
    std::unordered_set< uint64_t > seen;
    uint64_t                       nontrivial = 0, skipped = 0, fails = 0, empties = 0, visited = 0, notes = 0, judged = 0, aged = 0;
    std::string                    sample;
};
extern Stats stats;

std::string jsonesc( std::string const& );
void print_result( Args const& );
} // namespace h
