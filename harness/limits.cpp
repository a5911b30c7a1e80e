// Sizes at and around the limits. -DQUEUE / -DSTACK / -DSPSC
#include "nat.h"
#include <algorithm>
#include <cstring>
#include <iterator>
#include <memory>
#if defined( STACK )
#    include <boost/lockfree/stack.hpp>
#elif defined( SPSC )
#    include <boost/lockfree/spsc_queue.hpp>
#else
#    include <boost/lockfree/queue.hpp>
#endif

using namespace nat;
namespace lf = boost::lockfree;

static bool unbounded; // the structure under test can grow
#if defined( STACK )
template < class T, class... O > using Cont = lf::stack< T, O... >;
static const uint64_t LIMIT = 65535;
static const bool     LIFO  = true;
#    define CNAME "stack"
#elif defined( SPSC )
template < class T, class... O > using Cont = lf::spsc_queue< T, O... >;
static const uint64_t LIMIT = ~0ull;
static const bool     LIFO  = false;
#    define CNAME "spsc_queue"
#else
template < class T, class... O > using Cont = lf::queue< T, O... >;
static const uint64_t LIMIT = 65534;
static const bool     LIFO  = false;
#    define CNAME "queue"
#endif

#define LOG( ... ) note( __VA_ARGS__ )
static uint64_t counter;

template < class C >
static bool put( C& c, uint64_t v, unsigned k )
{
    typedef typename C::value_type T;
#ifdef SPSC
    (void)k;
    return c.push( El< T >::make( v ) );
#else
    if ( unbounded || k == 2 )
        return c.bounded_push( El< T >::make( v ) );
    return k == 3 ? c.unsynchronized_push( El< T >::make( v ) ) : c.push( El< T >::make( v ) );
#endif
}
template < class C >
static uint64_t put_many( C& c, std::vector< typename C::value_type > const& in, unsigned k )
{
#if defined( SPSC )
    return k & 1 ? c.push( in.data(), in.size() ) : c.push( in.begin(), in.end() ) - in.begin();
#elif defined( STACK )
    return ( k % 3 == 0 && !unbounded ? c.push( in.begin(), in.end() ) : k % 3 == 1 && !unbounded ? c.unsynchronized_push( in.begin(), in.end() ) : c.bounded_push( in.begin(), in.end() ) )
           - in.begin();
#else
    uint64_t n = 0;
    for ( auto& x : in )
        if ( unbounded || k % 2 ? c.bounded_push( x ) : c.push( x ) )
            ++n;
        else
            break;
    return n;
#endif
}
template < class C >
static bool take( C& c, uint64_t& v, unsigned k )
{
    typedef typename C::value_type T;
    bool                           ok = false;
    auto                           f  = [ & ]( T const& t ) { v = El< T >::val( t ), ok = true; };
    T                              t = El< T >::make( 0 );
    switch ( k % 3 ) {
    case 0: c.consume_one( f ); break;
#ifndef SPSC
    case 1:
        if ( c.unsynchronized_pop( t ) )
            f( t );
        break;
#endif
    default:
        if ( c.pop( t ) )
            f( t );
    }
    return ok;
}

// fill to the limit in several ways, read everything back
template < class C >
static void exercise( C& c, uint64_t n, Rng& r, char const* what )
{
    typedef typename C::value_type T;
    ++stats.execs, ++stats.checks;
    stats.seen.insert( mix( n, std::hash< std::string >()( std::string( what ) ) ) );
    ++stats.per[ what ];
    std::deque< uint64_t > m;
    auto val = [] { return ++counter % El< T >::mod; };
    auto lap = [ & ]( uint64_t in, uint64_t out, unsigned kind, bool many ) {
        // puts up to `in`, exact refusal, takes `out`
        uint64_t n_in = 0;
        if ( many ) {
            std::vector< T >        b;
            std::vector< uint64_t > vs;
            for ( uint64_t i = 0; i < in; ++i )
                vs.push_back( val() ), b.push_back( El< T >::make( vs.back() ) );
            n_in = put_many( c, b, kind );
            for ( uint64_t i = 0; i < n_in && i < in; ++i )
                m.push_back( vs[ i ] );
        } else
            for ( ; n_in < in; ++n_in ) {
                uint64_t v = val();
                if ( !put( c, v, kind ) )
                    break;
                m.push_back( v );
            }
        uint64_t want = std::min< uint64_t >( in, n - ( m.size() - n_in ) );
        LOG( "put %llu (kind %u%s)", (unsigned long long)in, kind, many ? ", range" : "" );
        if ( n_in != want )
            fail( "capacity", "%s of size %llu with %llu elements accepted %llu of %llu more", what, (unsigned long long)n, (unsigned long long)( m.size() - n_in ), (unsigned long long)n_in,
                  (unsigned long long)in );
        if ( m.size() == n ) {
            ++stats.refused;
            if ( put( c, 1, 2 ) || put( c, 1, 1 ) )
                fail( "capacity", "%s of size %llu accepted one element too many", what, (unsigned long long)n );
        }
#ifdef SPSC
        if ( c.read_available() != m.size() || c.write_available() != n - m.size() )
            fail( "capacity", "%s of size %llu holding %zu: read_available %zu, write_available %zu", what, (unsigned long long)n, m.size(), c.read_available(), c.write_available() );
#endif
        LOG( "take %llu", (unsigned long long)out );
        stats.ops += n_in + out;
        auto expect = [ & ]( uint64_t v ) {
            uint64_t x = LIFO ? m.back() : m.front();
            LIFO ? m.pop_back() : m.pop_front();
            if ( v != x )
                fail( "content", "%s of size %llu delivered %llu, expected %llu", what, (unsigned long long)n, (unsigned long long)v, (unsigned long long)x );
        };
        if ( many && out == m.size() ) {
            auto f = [ & ]( T const& t ) {
                if ( m.empty() )
                    fail( "content", "%s delivered more than it held", what );
                expect( El< T >::val( t ) );
            };
            auto const& g = f; // picks the overloads for const functors
            unsigned    t = unsigned( r.below( 4 ) );
            size_t      k;
#if defined( STACK )
            if ( kind == 2 ) { // oldest first
                std::reverse( m.begin(), m.end() );
                k = t & 1 ? c.consume_all_atomic_reversed( g ) : c.consume_all_atomic_reversed( f );
            } else if ( kind & 1 )
                k = t & 1 ? c.consume_all( g ) : c.consume_all( f );
            else
                k = t & 1 ? c.consume_all_atomic( g ) : c.consume_all_atomic( f );
#elif defined( SPSC )
            if ( t % 4 < 2 )
                k = t & 1 ? c.consume_all( g ) : c.consume_all( f );
            else {
                std::vector< T > b;
                if ( t & 1 ) {
                    b.assign( m.size() + 3, El< T >::make( 0 ) );
                    k = c.pop( b.data(), b.size() );
                } else
                    k = c.pop( std::back_inserter( b ) );
                for ( size_t i = 0; i < std::min( k, b.size() ); ++i )
                    f( b[ i ] );
            }
#else
            k = t & 1 ? c.consume_all( g ) : c.consume_all( f );
#endif
            if ( k != out || !m.empty() )
                fail( "content", "%s of size %llu: consume_all returned %zu, expected %llu", what, (unsigned long long)n, k, (unsigned long long)out );
        } else
            for ( uint64_t i = 0; i < out; ++i ) {
                uint64_t v = ~0ull - 5;
                if ( m.empty() || !take( c, v, kind + ( i & 3 ? 0 : i ) ) )
                    fail( "content", "%s of size %llu found empty with %zu elements stored", what, (unsigned long long)n, m.size() );
                expect( v );
            }
    };
    lap( n, n, 0, false );
    lap( n, n / 3, 2, false );
    lap( n, n, 1, false );
    lap( n, n, 0, true );
    lap( n / 2, n / 4, 1, true );
    lap( n + 3, n - n / 7, 2, true );
    uint64_t rest = m.size();
    lap( 0, rest, 1, false );
    lap( n, n, 2, true );
    lap( n, n, 3, !unbounded );
    uint64_t v;
    if ( take( c, v, 0 ) || take( c, v, 1 ) || take( c, v, 2 ) || !c.empty() )
        fail( "content", "%s of size %llu is not empty after everything was taken", what, (unsigned long long)n );
}

template < class MK >
static void must_throw( MK mk, uint64_t n, char const* what )
{
    ++stats.execs, ++stats.checks, ++stats.refused;
    stats.seen.insert( mix( n, std::hash< std::string >()( what ) + 1 ) );
    LOG( "construct %s(%llu)", what, (unsigned long long)n );
    bool threw = false;
    try {
        mk( n );
    } catch ( std::exception& ) {
        threw = true;
    }
    if ( !threw )
        fail( "limit", "%s for %llu elements was constructed without complaint", what, (unsigned long long)n );
}

template < class C >
static void run_time( std::vector< uint64_t > const& sizes, Rng& r, char const* what )
{
    for ( uint64_t n : sizes ) {
        char b[ 100 ];
        snprintf( b, sizeof b, "%s(%llu)", what, (unsigned long long)n );
        ctx = b;
        trace.clear();
        LOG( "construct %s", b );
        C* c = nullptr;
        try {
            c = new C( n );
        } catch ( std::exception& e ) {
            fail( "limit", "%s for %llu elements could not be constructed: %s", what, (unsigned long long)n, e.what() );
        }
        exercise( *c, n, r, what );
        delete c;
    }
}
template < class C >
static void compile_time( uint64_t n, Rng& r, char const* what )
{
    char b[ 100 ];
    snprintf( b, sizeof b, "%s<%llu>", what, (unsigned long long)n );
    ctx = b;
    trace.clear();
    LOG( "construct %s", b );
    C* c = new C;
    exercise( *c, n, r, what );
    delete c;
}

#ifdef SPSC
// indices beyond 32 bits
static void wide_ring( uint64_t n, Rng& r )
{
    char what[ 60 ];
    snprintf( what, sizeof what, "spsc_queue<char>(%llu)", (unsigned long long)n );
    ctx = what;
    trace.clear();
    std::unique_ptr< Cont< unsigned char > > c;
    try {
        c.reset( new Cont< unsigned char >( n ) );
    } catch ( std::bad_alloc& ) {
        ++stats.skipped;
        return;
    }
    // the k-th element is pattern( k )
    const size_t                 P = 1000003, CH = 8u << 20;
    std::vector< unsigned char > pat( P + CH ), out( CH );
    for ( size_t i = 0; i < pat.size(); ++i )
        pat[ i ] = (unsigned char)( ( i % P ) * 2654435761u >> 13 );
    uint64_t in = 0, gone = 0;
    auto check = [ & ] {
        if ( c->read_available() != in - gone || c->write_available() != n - ( in - gone ) )
            fail( "capacity", "%s holding %llu: read_available %zu, write_available %zu", what, (unsigned long long)( in - gone ), c->read_available(), c->write_available() );
    };
    auto fill = [ & ]( uint64_t upto ) {
        LOG( "fill up to %llu", (unsigned long long)upto );
        while ( in - gone < upto ) {
            size_t k    = std::min< uint64_t >( CH, upto - ( in - gone ) );
            size_t want = k;
            if ( upto == n && r.chance( 1, 8 ) ) // ask for more than fits
                k = CH, want = std::min< uint64_t >( CH, n - ( in - gone ) );
            size_t got = c->push( &pat[ in % P ], k );
            if ( got != want )
                fail( "capacity", "%s holding %llu accepted %zu of %zu", what, (unsigned long long)( in - gone ), got, k );
            in += got;
            if ( in - gone < n && r.chance( 1, 20 ) ) {
                if ( !c->push( pat[ in % P ] ) )
                    fail( "capacity", "%s holding %llu refused an element", what, (unsigned long long)( in - gone ) );
                ++in;
            }
            check();
        }
        if ( in - gone == n && ( c->push( 1 ) || c->push( &pat[ 0 ], 5 ) ) )
            fail( "capacity", "%s accepted more than it holds", what );
    };
    auto drain = [ & ]( uint64_t downto ) {
        LOG( "drain down to %llu", (unsigned long long)downto );
        while ( in - gone > downto ) {
            size_t k = std::min< uint64_t >( CH, in - gone - downto ), got = c->pop( out.data(), k );
            if ( got != k || memcmp( out.data(), &pat[ gone % P ], k ) )
                fail( "content", "%s delivered wrong content after %llu elements", what, (unsigned long long)gone );
            gone += got;
            check();
        }
    };
    fill( n );
    drain( n / 2 );
    fill( n );
    drain( n / 3 );
    {
        LOG( "consume_all" );
        size_t at = gone % P, bad = 0;
        auto   f  = [ & ]( unsigned char x ) {
            bad += x != pat[ at ];
            at = at + 1 == P ? 0 : at + 1;
        };
        size_t k = c->consume_all( f );
        if ( bad || k != in - gone )
            fail( "content", "%s: consume_all returned %zu, expected %llu", what, k, (unsigned long long)( in - gone ) );
        gone += k;
        check();
    }
    stats.ops += in + gone, ++stats.execs, ++stats.checks, ++stats.per[ "ring of more than 2^32 slots" ];
    stats.seen.insert( n );
}
#endif

static std::vector< uint64_t > sizes( Rng& r, uint64_t max, bool big )
{
    std::vector< uint64_t > s = { 1, 2, 3, 4, 127, 128, 129, 254, 255, 256, 257, 258 };
    for ( int i = 0; i < 6; ++i )
        s.push_back( 5 + r.below( 2000 ) );
    for ( uint64_t x : { 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65533, 65534 } )
        s.push_back( x );
    s.push_back( 2000 + r.below( 60000 ) );
    if ( max >= 65535 )
        s.push_back( 65535 );
    if ( big )
        for ( uint64_t x : { uint64_t( 65536 ), uint64_t( 65537 ), uint64_t( 131071 ), uint64_t( 131073 ), uint64_t( 65540 + r.below( 100000 ) ) } )
            s.push_back( x );
    return s;
}

int main( int argc, char** argv )
{
    parse( argc, argv );
    watch_hangs();
    typedef unsigned char    Ch;
    typedef Blob< 80, 8 >    B80;
    for ( uint64_t i = args.from; i < args.from + args.n; ++i ) {
        Rng r( mix( args.seed, i ) );
#ifdef SPSC
        if ( i == 0 )
            wide_ring( ( uint64_t( 1 ) << 32 ) + 2 + r.below( 100000 ), r );
        run_time< Cont< uint32_t > >( sizes( r, 0, true ), r, "run-time sized spsc_queue<uint32_t>" );
        run_time< Cont< Ch > >( sizes( r, 0, true ), r, "run-time sized spsc_queue<char>" );
        must_throw( []( uint64_t n ) { Cont< int > c( n ); }, ~0ull, "run-time sized spsc_queue" );
        must_throw( []( uint64_t n ) { Cont< int > c( n ); }, ~0ull - 1, "run-time sized spsc_queue" );
        must_throw( []( uint64_t n ) { Cont< int > c( n ); }, ~0ull / 2, "run-time sized spsc_queue" );
        must_throw( []( uint64_t n ) { Cont< int > c( n, Cont< int >::allocator() ); }, ~0ull, "run-time sized spsc_queue with allocator" );
#    define CAPS( X ) X( 1 ) X( 127 ) X( 128 ) X( 254 ) X( 255 ) X( 256 ) X( 257 ) X( 32767 ) X( 32768 ) X( 65534 ) X( 65535 ) X( 65536 ) X( 65537 ) X( 70001 )
#else
        typedef Cont< uint32_t, lf::fixed_sized< true > >  F;
        typedef Cont< B80, lf::fixed_sized< true > >       FB;
        run_time< F >( sizes( r, LIMIT, false ), r, "fixed_sized " CNAME "<uint32_t>" );
        run_time< FB >( { 1, 255, 256, 257, 32768, LIMIT - 1, LIMIT }, r, "fixed_sized " CNAME "<80 bytes>" );
        for ( uint64_t n : { uint64_t( LIMIT + 1 ), uint64_t( LIMIT + 2 ), uint64_t( 65537 ), uint64_t( 65636 ), uint64_t( 131071 ), uint64_t( 131072 ), uint64_t( LIMIT + 1 + r.below( 1000000 ) ), uint64_t( 1 ) << 32, ( uint64_t( 1 ) << 32 ) + 5,
                             uint64_t( 1 ) << 48, uint64_t( ~0ull - 1 ), uint64_t( ~0ull ) } ) {
            must_throw( []( uint64_t n ) { F c( n ); }, n, "fixed_sized " CNAME );
            must_throw( []( uint64_t n ) { F c( n, F::allocator() ); }, n, "fixed_sized " CNAME " with allocator" );
        }
#    ifndef STACK
        typedef Cont< int > Nd;
        must_throw( []( uint64_t n ) { Nd c( n ); }, ~0ull, "node-based " CNAME );
        must_throw( []( uint64_t n ) { Nd c( n, Nd::allocator() ); }, ~0ull, "node-based " CNAME " with allocator" );
#    endif
        // node-based: no limit at 65535
        unbounded = true;
        run_time< Cont< uint32_t > >( { 0 + 1u, 255, 256, 65534, 65535, 65536, 65537, 131072, 65540 + r.below( 100000 ) }, r, "node-based " CNAME " filled with bounded_push" );
        {
            Cont< uint32_t > c( 1 );
            uint64_t         n = 140000 + r.below( 100000 );
            ctx                = "node-based " CNAME " grown from 1";
            LOG( "push %llu elements", (unsigned long long)n );
            c.reserve( 66000 );
            for ( uint64_t k = 0; k < n; ++k )
                if ( !c.push( uint32_t( k ) ) )
                    fail( "capacity", "push number %llu failed", (unsigned long long)k );
            for ( uint64_t k = 0; k < n; ++k ) {
                uint32_t v;
                if ( !c.pop( v ) || v != ( LIFO ? n - 1 - k : k ) )
                    fail( "content", "pop number %llu is wrong", (unsigned long long)k );
            }
            stats.ops += 2 * n, ++stats.execs, ++stats.checks;
            stats.seen.insert( n );
        }
        for ( uint64_t m : { uint64_t( 1 ), uint64_t( 255 ), uint64_t( 256 ), uint64_t( 257 ), uint64_t( 65535 ), uint64_t( 65536 ), uint64_t( 65537 + r.below( 100000 ) ) } )
            for ( int unsafe = 0; unsafe < 2; ++unsafe ) {
                uint64_t         n = r.chance( 1, 4 ) ? 70000 : r.below( 300 );
                Cont< uint32_t > c( n );
                ctx = "node-based " CNAME " after reserve";
                trace.clear();
                LOG( "construct(%llu), reserve%s(%llu)", (unsigned long long)n, unsafe ? "_unsafe" : "", (unsigned long long)m );
                unsafe ? c.reserve_unsafe( m ) : c.reserve( m );
                exercise( c, n + m, r, "node-based " CNAME " after reserve" );
            }
        unbounded = false;
#    ifdef STACK
#        define LAST X( 65535 )
#    else
#        define LAST
#    endif
#    define CAPS( X ) X( 1 ) X( 127 ) X( 128 ) X( 254 ) X( 255 ) X( 256 ) X( 257 ) X( 32767 ) X( 32768 ) X( 65533 ) X( 65534 )
#endif
#define X( N ) compile_time< Cont< uint32_t, lf::capacity< N > > >( N, r, "capacity<> " CNAME );
        CAPS( X )
#ifdef STACK
        X( 65535 )
#endif
    }
    stats.sample = "fixed size 65534: filled, refused, emptied, refilled by ranges, all content compared";
    print_result();
}
