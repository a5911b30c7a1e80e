// Demonstration helper: replaces boost/lockfree/detail/atomic.hpp (by its include guard) with an atomic<> whose
// operations are switch points of cooperative fibers and that tracks happens-before with vector clocks.
#pragma once
#define BOOST_LOCKFREE_DETAIL_ATOMIC_HPP
#include <ucontext.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace fib {
typedef std::array< long, 32 > Clock;
struct Fiber
{
    ucontext_t              ctx;
    std::function< void() > fn;
    bool                    done = false;
    char*                   stack = nullptr;
};
inline std::vector< std::unique_ptr< Fiber > > F;
inline std::vector< char* >                    stacks; // reused
enum { STACK = 128 * 1024 };
inline int                                     cur = -1; // -1: main
inline long                                    budget = 0;
inline long                                    events = 0; // events of the last run()
inline ucontext_t                              mainctx;
inline Clock                                   vc[ 32 ];
inline std::map< const void*, Clock >          rel;
inline Clock& mine() { return vc[ cur + 1 ]; }
inline void   join( Clock& a, Clock const& b )
{
    for ( size_t i = 0; i < a.size(); ++i )
        if ( b[ i ] > a[ i ] )
            a[ i ] = b[ i ];
}
inline void ev()
{
    if ( cur < 0 )
        return;
    ++events;
    if ( budget-- == 0 ) {
        int me = cur;
        cur    = -1;
        swapcontext( &F[ me ]->ctx, &mainctx );
        cur = me;
    }
}
inline void entry()
{
    int me = cur;
    F[ me ]->fn();
    F[ me ]->done = true;
    cur           = -1;
    swapcontext( &F[ me ]->ctx, &mainctx );
}
inline void reset()
{
    F.clear();
    rel.clear();
    for ( auto& c : vc )
        c.fill( 0 );
}
inline int spawn( std::function< void() > f )
{
    F.emplace_back( new Fiber );
    Fiber& x = *F.back();
    if ( F.size() > 31 )
        abort();
    x.fn     = f;
    getcontext( &x.ctx );
    if ( stacks.size() < F.size() )
        stacks.push_back( static_cast< char* >( malloc( STACK ) ) );
    x.stack = stacks[ F.size() - 1 ];
    x.ctx.uc_stack.ss_sp   = x.stack;
    x.ctx.uc_stack.ss_size = STACK;
    x.ctx.uc_link          = nullptr;
    makecontext( &x.ctx, entry, 0 );
    int id = int( F.size() ) - 1;
    vc[ id + 1 ] = vc[ 0 ]; // created by main: sees what main did
    vc[ id + 1 ][ id + 1 ]++;
    return id;
}
// let fiber i execute n atomic operations (it stops right before operation n+1); true when it has finished
inline bool run( int i, long n = 100000000 )
{
    if ( F[ i ]->done )
        return true;
    budget = n;
    events = 0;
    cur    = i;
    swapcontext( &mainctx, &F[ i ]->ctx );
    return F[ i ]->done;
}
inline bool acq( int m ) { return m == int( std::memory_order_acquire ) || m == int( std::memory_order_consume ) || m >= int( std::memory_order_acq_rel ); }
inline bool rls( int m ) { return m == int( std::memory_order_release ) || m >= int( std::memory_order_acq_rel ); }

template < typename T >
class atomic
{
    T v;

public:
    atomic() = default;
    atomic( T x ) : v( x ) {}
    atomic( atomic const& )            = delete;
    atomic& operator=( atomic const& ) = delete;
    bool    is_lock_free() const { return true; }
    T       load( std::memory_order m = std::memory_order_seq_cst ) const
    {
        ev();
        if ( acq( int( m ) ) ) {
            auto i = rel.find( this );
            if ( i != rel.end() )
                join( mine(), i->second );
        }
        return v;
    }
    operator T() const { return load(); }
    void store( T x, std::memory_order m = std::memory_order_seq_cst )
    {
        ev();
        v = x;
        if ( rls( int( m ) ) ) {
            rel[ this ] = mine();
            mine()[ cur + 1 ]++;
        } else
            rel.erase( this );
    }
    T operator=( T x )
    {
        store( x );
        return x;
    }
    bool compare_exchange_strong( T& e, T d, std::memory_order s, std::memory_order f )
    {
        ev();
        if ( memcmp( (const void*)&v, (const void*)&e, sizeof( T ) ) == 0 ) {
            if ( acq( int( s ) ) ) {
                auto i = rel.find( this );
                if ( i != rel.end() )
                    join( mine(), i->second );
            }
            v = d;
            if ( rls( int( s ) ) ) {
                join( rel.insert( { this, Clock {} } ).first->second, mine() );
                mine()[ cur + 1 ]++;
            }
            return true;
        }
        e = v;
        if ( acq( int( f ) ) ) {
            auto i = rel.find( this );
            if ( i != rel.end() )
                join( mine(), i->second );
        }
        return false;
    }
    bool compare_exchange_strong( T& e, T d, std::memory_order s = std::memory_order_seq_cst )
    {
        std::memory_order f = s == std::memory_order_acq_rel ? std::memory_order_acquire
                              : s == std::memory_order_release ? std::memory_order_relaxed
                                                               : s;
        return compare_exchange_strong( e, d, s, f );
    }
    bool compare_exchange_weak( T& e, T d, std::memory_order s, std::memory_order f ) { return compare_exchange_strong( e, d, s, f ); }
    bool compare_exchange_weak( T& e, T d, std::memory_order s = std::memory_order_seq_cst ) { return compare_exchange_strong( e, d, s ); }
    T    exchange( T d, std::memory_order m = std::memory_order_seq_cst )
    {
        T e = v;
        compare_exchange_strong( e, d, m );
        return e;
    }
    template < typename U >
    T fetch_add( U d, std::memory_order m = std::memory_order_seq_cst )
    {
        T e = v;
        T o = e;
        compare_exchange_strong( e, T( o + d ), m );
        return o;
    }
    template < typename U >
    T fetch_sub( U d, std::memory_order m = std::memory_order_seq_cst ) { return fetch_add( T( 0 ) - d, m ); }
};

// something thread-private that is handed over: touch() stamps it, check() demands happens-before with the stamp
struct Stamp
{
    int  who  = -1;
    long when = 0;
    void touch()
    {
        who  = cur + 1;
        when = mine()[ cur + 1 ];
    }
    bool ordered() const { return who < 0 || who == cur + 1 || mine()[ who ] >= when; }
};
inline void fail( const char* what )
{
    printf( "PROPERTY BROKEN: %s\n", what );
    fflush( stdout );
    _exit( 1 );
}
} // namespace fib

#include <unistd.h>

namespace boost { namespace lockfree {
namespace detail {
using fib::atomic;
using std::memory_order_acquire;
using std::memory_order_consume;
using std::memory_order_relaxed;
using std::memory_order_release;
using std::memory_order_acq_rel;
using std::memory_order_seq_cst;
} // namespace detail
using detail::atomic;
using detail::memory_order_acquire;
using detail::memory_order_consume;
using detail::memory_order_relaxed;
using detail::memory_order_release;
using detail::memory_order_acq_rel;
using detail::memory_order_seq_cst;
}} // namespace boost::lockfree
