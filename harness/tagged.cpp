// Tagged handles: compressed pointer, double-width pointer (-DDCAS_PTR), index. Every part is read back after every change.
#include "nat.h"
#ifdef DCAS_PTR
#    define BOOST_LOCKFREE_PREFIX_HPP_INCLUDED
#    define BOOST_LOCKFREE_CACHELINE_BYTES 64
#    include <boost/predef.h>
#endif
#include <boost/lockfree/detail/freelist.hpp>
#include <boost/lockfree/detail/tagged_ptr.hpp>
#include <limits>

using namespace nat;
namespace d = boost::lockfree::detail;
#if defined( DCAS_PTR ) == defined( BOOST_LOCKFREE_PTR_COMPRESSION )
#    error "the wrong representation was selected"
#endif

struct Big
{
    char  c[ 40 ];
    int   x;
};
template < class P > static unsigned long long ull( P p ) { return (unsigned long long)(uintptr_t)p; }

// judged results are counted, not stored: there are hundreds of millions
static uint64_t checks, pairs, ptrs_seen;
#define EXPECT( cond, ... )           \
    do {                              \
        ++checks;                     \
        if ( !( cond ) )              \
            fail( "tagged", __VA_ARGS__ ); \
    } while ( 0 )

template < class T >
static void pointer_tag( uintptr_t a, uint64_t t, uintptr_t b, uint64_t u )
{
    typedef d::tagged_ptr< T > TP;
    typedef typename TP::tag_t  tag_t;
    T *    p = (T*)a, *q = (T*)b;
    tag_t  s = tag_t( t ), v = tag_t( u );
    TP     x( p, s );
    ++pairs;
    EXPECT( x.get_ptr() == p && x.get_tag() == s, "tagged_ptr( %llx, %llx ) holds %llx, %llx", ull( p ), (unsigned long long)s, ull( x.get_ptr() ), (unsigned long long)x.get_tag() );
    tag_t nx = x.get_next_tag();
    EXPECT( nx == tag_t( s + 1 ), "next tag of %llx is %llx", (unsigned long long)s, (unsigned long long)nx );
    EXPECT( bool( x ) == ( p != nullptr ), "bool of %llx", ull( p ) );
    if ( p )
        EXPECT( x.operator->() == p && &*x == p, "dereference" );
    TP y( x );
    EXPECT( y == x && !( y != x ), "a copy of ( %llx, %llx ) differs", ull( p ), (unsigned long long)s );
    x.set_ptr( q );
    EXPECT( x.get_ptr() == q && x.get_tag() == s, "set_ptr( %llx ) on ( %llx, %llx ) gave ( %llx, %llx )", ull( q ), ull( p ), (unsigned long long)s, ull( x.get_ptr() ), (unsigned long long)x.get_tag() );
    EXPECT( ( x == y ) == ( p == q ) && ( x != y ) == ( p != q ), "comparison of ( %llx, %llx ) and ( %llx, %llx )", ull( q ), (unsigned long long)s, ull( p ), (unsigned long long)s );
    x.set_tag( v );
    EXPECT( x.get_ptr() == q && x.get_tag() == v, "set_tag( %llx ) on ( %llx, %llx ) gave ( %llx, %llx )", (unsigned long long)v, ull( q ), (unsigned long long)s, ull( x.get_ptr() ), (unsigned long long)x.get_tag() );
    EXPECT( ( x == y ) == ( p == q && s == v ) && ( x != y ) == !( p == q && s == v ), "comparison of ( %llx, %llx ) and ( %llx, %llx )", ull( q ), (unsigned long long)v, ull( p ), (unsigned long long)s );
    y.set( q, v );
    EXPECT( y == x && y.get_ptr() == q && y.get_tag() == v, "set( %llx, %llx ) gave ( %llx, %llx )", ull( q ), (unsigned long long)v, ull( y.get_ptr() ), (unsigned long long)y.get_tag() );
    TP z( q );
    EXPECT( z.get_ptr() == q && z.get_tag() == 0, "tagged_ptr( %llx ) holds %llx, %llx", ull( q ), ull( z.get_ptr() ), (unsigned long long)z.get_tag() );
    z = y;
    EXPECT( z == y && z.get_ptr() == q && z.get_tag() == v, "assignment" );
    y.set_tag( tag_t( v + 1 ) );
    EXPECT( !( y == z ) && y != z, "handles that differ in the tag only are equal" );
}
// in an atomic, as the containers use it
template < class H, class Same >
static void in_atomic( H a, H b, Same same )
{
    using namespace boost::lockfree::detail;
    boost::lockfree::detail::atomic< H > m( a );
    H                                    e = m.load();
    EXPECT( same( e, a ), "atomic load changes the handle" );
    H    expected = b;
    bool ok       = m.compare_exchange_strong( expected, b );
    EXPECT( ok == same( a, b ), "compare_exchange of handles: %d, same parts: %d", ok, same( a, b ) );
    if ( !ok )
        EXPECT( same( expected, a ), "compare_exchange returns another handle" );
    m.store( b );
    EXPECT( same( m.load(), b ), "atomic store changes the handle" );
}

static void index_tag( uint32_t i, uint32_t t, uint32_t j, uint32_t u )
{
    typedef d::tagged_index TI;
    uint16_t                a = i, s = t, b = j, v = u;
    TI                      x( a, s );
    ++pairs;
    EXPECT( x.get_index() == a && x.get_tag() == s, "tagged_index( %u, %u ) holds %u, %u", a, s, x.get_index(), x.get_tag() );
    EXPECT( x.get_next_tag() == uint16_t( s + 1 ), "next tag of %u is %u", s, x.get_next_tag() );
    TI y( x );
    EXPECT( y == x && !( y != x ), "copy" );
    x.set_index( b );
    EXPECT( x.get_index() == b && x.get_tag() == s, "set_index( %u ) on ( %u, %u ) gave ( %u, %u )", b, a, s, x.get_index(), x.get_tag() );
    EXPECT( ( x == y ) == ( a == b ) && ( x != y ) == ( a != b ), "comparison" );
    x.set_tag( v );
    EXPECT( x.get_index() == b && x.get_tag() == v, "set_tag( %u ) on ( %u, %u ) gave ( %u, %u )", v, b, s, x.get_index(), x.get_tag() );
    EXPECT( ( x == y ) == ( a == b && s == v ) && ( x != y ) == !( a == b && s == v ), "comparison of ( %u, %u ) and ( %u, %u )", b, v, a, s );
    TI z( b );
    EXPECT( z.get_index() == b && z.get_tag() == 0, "tagged_index( %u )", b );
    z = x;
    EXPECT( z == x && z.get_index() == b && z.get_tag() == v, "assignment" );
    z.set_tag( uint16_t( v + 1 ) );
    EXPECT( !( z == x ) && z != x, "handles that differ in the tag only are equal" );
}

static const uintptr_t M48 = ( uintptr_t( 1 ) << 48 ) - 1;
static uintptr_t       rnd_ptr( Rng& r )
{
    uintptr_t p = r.next() & M48;
    switch ( r.below( 6 ) ) {
    case 0: p &= ( uintptr_t( 1 ) << ( 1 + r.below( 47 ) ) ) - 1; break;
    case 1: p |= M48 << r.below( 48 ); break;
    case 2: p &= ~uintptr_t( 63 ); break;
    case 3: p ^= uintptr_t( 1 ) << r.below( 48 ); break;
    }
    return p & M48;
}
static uint64_t rnd_tag( Rng& r )
{
    uint64_t t = r.next();
    switch ( r.below( 5 ) ) {
    case 0: return t & 0xffff;
    case 1: return t >> r.below( 64 );
    case 2: return ~uint64_t( 0 ) << r.below( 64 );
    case 3: return ( uint64_t( 1 ) << r.below( 64 ) ) - 1;
    }
    return t;
}

int main( int argc, char** argv )
{
    parse( argc, argv );
    watch_hangs();
    Rng r( args.seed );
    note( "structured pointers" );
    typedef d::tagged_ptr< Big >::tag_t tag_t;
    const bool                          small = sizeof( tag_t ) == 2;
    // walking ones and zeros, boundaries
    std::vector< uintptr_t > ps = { 0, 1, 2, 3, 63, 64, M48, M48 - 1, M48 >> 1, ( M48 >> 1 ) + 1, 0x7ffffffff000ull, 0x0000800000000000ull, 0x555555555555ull, 0xaaaaaaaaaaaaull };
    for ( int b = 0; b < 48; ++b )
        ps.push_back( uintptr_t( 1 ) << b ), ps.push_back( M48 ^ ( uintptr_t( 1 ) << b ) ), ps.push_back( M48 >> b );
    for ( int i = 0; i < 20; ++i )
        ps.push_back( rnd_ptr( r ) );
    ptrs_seen += ps.size();
    for ( uintptr_t p : ps ) {
        ++noted;
        uintptr_t q = ps[ r.below( ps.size() ) ];
        if ( small )
            for ( uint32_t t = 0; t < 65536; ++t ) // every tag
                pointer_tag< Big >( p, t, q, uint32_t( t * 40503u + 1 ) );
        else {
            for ( int a = 0; a < 64; ++a )
                for ( int b = 0; b < 64; ++b ) {
                    pointer_tag< Big >( p, uint64_t( 1 ) << a, q, ~uint64_t( 0 ) >> b );
                    pointer_tag< Big >( p, ~uint64_t( 0 ) << a, q, ~( uint64_t( 1 ) << b ) );
                }
            for ( uint32_t t = 0; t < 65536; t += 7 )
                pointer_tag< Big >( p, t, q, t + 1 );
        }
        stats.seen.insert( p );
    }
    note( "random pointers and tags" );
    for ( uint64_t i = 0; i < args.n * 20000; ++i ) {
        ++noted;
        uintptr_t p = rnd_ptr( r ), q = r.chance( 1, 4 ) ? p ^ ( uintptr_t( 1 ) << r.below( 48 ) ) : rnd_ptr( r );
        uint64_t  t = rnd_tag( r ), u = r.chance( 1, 4 ) ? t ^ ( uint64_t( 1 ) << r.below( 64 ) ) : rnd_tag( r );
        pointer_tag< char >( p, t, q, u );
        pointer_tag< Big >( q, u, p, t );
        ptrs_seen += 2;
        if ( i < 200000 )
            stats.seen.insert( p ), stats.seen.insert( q );
        if ( i % 16 == 0 ) {
            typedef d::tagged_ptr< char > TP;
            auto same = []( TP a, TP b ) { return a.get_ptr() == b.get_ptr() && a.get_tag() == b.get_tag(); };
            TP   a( (char*)p, tag_t( t ) ), b( (char*)p, tag_t( u ) ), c( (char*)q, tag_t( t ) ), e;
            in_atomic( a, b, same );
            in_atomic( a, c, same );
            e.set( (char*)q, tag_t( u ) );
            e.set_ptr( (char*)p );
            e.set_tag( tag_t( t ) );
            in_atomic( a, e, same );
        }
    }
    note( "indices" );
    uint64_t ni = 0;
    for ( uint32_t i = 0; i < 65536; ++i ) {
        ++noted;
        uint32_t k = args.n >= 50 ? 4096 : 64;
        for ( uint32_t c = 0; c < k; ++c, ++ni )
            index_tag( i, ( c < 8 ? c * 8191 : r.next() ), c % 3 == 0 ? i : i + c + 1, c % 5 == 0 ? i : uint32_t( r.next() ) );
        index_tag( i, 65535, i, 0 );
        index_tag( i, 0, i, 65535 );
        index_tag( i, i, i, i ^ 0x8000 );
        typedef d::tagged_index TI;
        auto same = []( TI a, TI b ) { return a.get_index() == b.get_index() && a.get_tag() == b.get_tag(); };
        uint16_t t = r.next();
        TI       a( i, t ), b( i, t + 1 ), c( i ^ 1, t ), e( t, i );
        e.set_index( i );
        e.set_tag( t );
        in_atomic( a, b, same ), in_atomic( a, c, same ), in_atomic( a, e, same );
    }
    for ( uint32_t t = 0; t < 65536; ++t )
        for ( uint32_t i : { 0u, 1u, 2u, 255u, 256u, 32767u, 32768u, 65534u, 65535u } )
            index_tag( i, t, t, i ), ++ni;
    char b[ 300 ];
    snprintf( b, sizeof b, "pointer %llx with tag 8001, then pointer %llx, then tag ffff: all parts read back", ull( ps[ 20 ] ), ull( ps[ 30 ] ) );
    stats.sample = b;
    stats.execs  = pairs;
    stats.checks = checks;
    stats.per[ small ? "compressed" : "double-width" ] = pairs - ni;
    stats.per[ "index" ]                               = ni;
    print_result( ",\"pointers\":" + std::to_string( ptrs_seen ) );
}
