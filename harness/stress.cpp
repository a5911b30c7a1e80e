// Real threads, or real processes that map the structure at different addresses, on real hardware.
// Oracle: exactly-once delivery, per-producer order, capacity after the run, progress.
// -DQUEUE / -DSTACK / -DSPSC
#include "nat.h"
#if defined( STACK )
#    include <boost/lockfree/stack.hpp>
#elif defined( SPSC )
#    include <boost/lockfree/spsc_queue.hpp>
#else
#    include <boost/lockfree/queue.hpp>
#endif
#ifdef SPSC
#    include <boost/interprocess/allocators/allocator.hpp>
#    include <boost/interprocess/managed_external_buffer.hpp>
#endif
#include <atomic>
#include <ctime>
#include <sched.h>
#include <sys/wait.h>
#include <thread>

using namespace nat;
namespace lf = boost::lockfree;

static const unsigned MAXW = 8;
struct alignas( 128 ) Worker
{
    std::atomic< uint64_t > attempts, done; // calls made / elements moved
    std::atomic< uint32_t > finished;
    std::atomic< uint32_t > bad; // 1 value, 2 order, 3 duplicate, 4 lost
    uint64_t                bad_info[ 3 ];
    uint64_t                sum, xorsum, count; // consumers: of everything received; producers: pushed
    uint64_t                refused, empties;
};
struct Control
{
    std::atomic< uint32_t > go, stop, producers_left;
    Worker                  w[ MAXW ];
};
static Control* ctl;

struct Item // torn copies show
{
    uint64_t v, a, b;
    Item( uint64_t x = 0 ) : v( x ), a( ~x ), b( x * 0x9E3779B97F4A7C15ull ) {}
    bool ok() const { return a == ~v && b == v * 0x9E3779B97F4A7C15ull; }
};

static const uint64_t STOPPED = ~0ull;
static uint64_t       value( unsigned p, uint64_t i ) { return uint64_t( p + 1 ) << 40 | i; }

static void got( Worker& w, Item const& it, uint64_t* last, unsigned producers, bool ordered )
{
    unsigned p = unsigned( it.v >> 40 ) - 1;
    uint64_t i = it.v & ( ( 1ull << 40 ) - 1 );
    if ( !it.ok() || p >= producers ) {
        w.bad_info[ 0 ] = it.v;
        w.bad           = 1;
        return;
    }
    if ( ordered ) {
        if ( i + 1 <= last[ p ] ) {
            w.bad_info[ 0 ] = p, w.bad_info[ 1 ] = i, w.bad_info[ 2 ] = last[ p ] - 1;
            w.bad           = 2;
        }
        last[ p ] = i + 1;
    }
    ++w.count;
    w.sum += it.v * 0x9E3779B97F4A7C15ull;
    w.xorsum ^= mix( it.v, 7 );
    w.done.store( w.done.load( std::memory_order_relaxed ) + 1, std::memory_order_relaxed );
}
static void put( Worker& w, uint64_t v )
{
    ++w.count;
    w.sum += v * 0x9E3779B97F4A7C15ull;
    w.xorsum ^= mix( v, 7 );
    w.done.store( w.done.load( std::memory_order_relaxed ) + 1, std::memory_order_relaxed );
}

template < class C >
static void producer( C& c, unsigned me, uint64_t n, uint64_t seed, bool unbounded )
{
    Worker&  w = ctl->w[ me ];
    Rng      r( seed );
    uint64_t i = 0;
    while ( !ctl->go )
        sched_yield();
    while ( i < n && !ctl->stop ) {
        w.attempts.store( w.attempts.load( std::memory_order_relaxed ) + 1, std::memory_order_relaxed );
        uint64_t took = 0;
        unsigned k    = r.below( 8 );
        (void)unbounded;
#ifdef SPSC
        if ( k < 4 )
            took = c.push( Item( value( me, i ) ) );
        else {
            std::vector< Item > b;
            for ( unsigned j = 0, m = 1 + r.below( 12 ); j < m && i + j < n; ++j )
                b.emplace_back( value( me, i + j ) );
            if ( k < 6 )
                took = c.push( b.data(), b.size() );
            else
                took = c.push( b.begin(), b.end() ) - b.begin();
        }
#else
        if ( k < 3 )
            took = c.push( Item( value( me, i ) ) );
        else if ( k < 6 )
            took = c.bounded_push( Item( value( me, i ) ) );
#    ifdef STACK
        else {
            std::vector< Item > b;
            for ( unsigned j = 0, m = 1 + r.below( 5 ); j < m && i + j < n; ++j )
                b.emplace_back( value( me, i + j ) );
            took = ( k == 6 ? c.push( b.begin(), b.end() ) : c.bounded_push( b.begin(), b.end() ) ) - b.begin();
        }
#    else
        else
            took = c.push( Item( value( me, i ) ) );
#    endif
#endif
        if ( took ) {
            for ( uint64_t j = 0; j < took; ++j )
                put( w, value( me, i + j ) );
            i += took;
        } else {
            ++w.refused;
            if ( r.chance( 1, 4 ) )
                sched_yield();
        }
    }
    --ctl->producers_left;
    w.finished = 1;
}

template < class C >
static void consumer( C& c, unsigned me, unsigned producers, uint64_t seed, bool ordered )
{
    Worker&  w = ctl->w[ me ];
    Rng      r( seed );
    uint64_t last[ MAXW ] = {};
    while ( !ctl->go )
        sched_yield();
    for ( ;; ) {
        bool     over = ctl->producers_left == 0;
        w.attempts.store( w.attempts.load( std::memory_order_relaxed ) + 1, std::memory_order_relaxed );
        size_t   n = 0;
        unsigned k = r.below( 10 );
        auto     f = [ & ]( Item const& it ) { got( w, it, last, producers, ordered ); };
        if ( k < 5 ) {
            Item it;
            n = c.pop( it );
            if ( n )
                f( it );
        } else if ( k < 8 )
            n = c.consume_one( f );
        else if ( k == 8 )
            n = c.consume_all( f );
        else {
#if defined( SPSC )
            Item b[ 9 ];
            n = c.pop( b, 1 + r.below( 9 ) );
            for ( size_t i = 0; i < n; ++i )
                f( b[ i ] );
#elif defined( STACK )
            n = r.chance( 1, 2 ) ? c.consume_all_atomic( f ) : c.consume_all_atomic_reversed( f );
#else
            Item it;
            n = c.pop( it );
            if ( n )
                f( it );
#endif
        }
        if ( !n ) {
            ++w.empties;
            if ( over || ctl->stop ) // nothing was left after the last producer had finished
                break;
            if ( r.chance( 1, 4 ) )
                sched_yield();
        }
        if ( w.bad )
            break;
    }
    w.finished = 1;
}

static bool own_result() { return is( "C01" ) || is( "C02" ) || is( "C04" ) || is( "C19" ); }
static bool own_capacity() { return is( "C10" ) || is( "C19" ); }

// the runner waits for the workers; no progress while everybody keeps trying is a violation
static void wait_workers( unsigned workers )
{
    uint64_t last = 0, base[ MAXW ] = {};
    time_t   t0 = time( nullptr );
    for ( ;; ) {
        bool     fin  = true;
        uint64_t done = 0;
        for ( unsigned i = 0; i < workers; ++i ) {
            fin &= ctl->w[ i ].finished != 0;
            done += ctl->w[ i ].done.load();
            if ( ctl->w[ i ].bad )
                ctl->stop = 1;
        }
        if ( fin )
            return;
        if ( done != last || ( last == 0 && base[ 0 ] == 0 ) ) {
            last = done;
            for ( unsigned i = 0; i < workers; ++i )
                base[ i ] = ctl->w[ i ].attempts.load();
            t0 = time( nullptr );
        } else if ( time( nullptr ) - t0 > 4 ) {
            bool all = true;
            for ( unsigned i = 0; i < workers; ++i )
                if ( !ctl->w[ i ].finished && ctl->w[ i ].attempts.load() < base[ i ] + 200000 )
                    all = false;
            if ( all ) {
                ctl->stop = 1;
                if ( own_capacity() || own_result() )
                    fail( "progress", "every thread keeps calling, but pushes are refused and pops find nothing: elements or nodes are lost" );
                ++stats.skipped;
                return;
            }
        }
        timespec ts = { 0, 2000000 };
        nanosleep( &ts, nullptr );
    }
}

template < class C >
static void judge( C& c, unsigned producers, unsigned workers, int64_t cap, uint64_t n )
{
    ++stats.execs;
    uint64_t ps = 0, px = 0, pc = 0, cs = 0, cx = 0, cc = 0;
    for ( unsigned i = 0; i < workers; ++i ) {
        Worker& w = ctl->w[ i ];
        if ( w.bad == 1 && own_result() )
            fail( "value", "consumer %u received a value nobody pushed: %llx", i, (unsigned long long)w.bad_info[ 0 ] );
        if ( w.bad == 2 && own_result() )
            fail( "order", "consumer %u received element %llu of producer %llu after element %llu", i, (unsigned long long)w.bad_info[ 1 ], (unsigned long long)w.bad_info[ 0 ],
                  (unsigned long long)w.bad_info[ 2 ] );
        ( i < producers ? ps : cs ) += w.sum;
        ( i < producers ? px : cx ) ^= w.xorsum;
        ( i < producers ? pc : cc ) += w.count;
        stats.refused += w.refused, stats.empties += w.empties;
        if ( i >= producers )
            stats.seen.insert( mix( stats.execs, mix( w.sum, w.count ) ) ); // which elements this consumer got
        stats.ops += w.attempts;
    }
    if ( ctl->stop ) {
        ++stats.skipped;
        return;
    }
    auto left = [ & ]( Item const& it ) {
        cs += it.v * 0x9E3779B97F4A7C15ull, cx ^= mix( it.v, 7 ), ++cc;
        if ( own_result() )
            fail( "lost", "an element was still stored although all consumers found nothing after the last push: %llx", (unsigned long long)it.v );
    };
    for ( unsigned i = 0; i < 100000 && c.consume_one( left ); ++i ) {}
    ++stats.checks;
    if ( own_result() && ( pc != cc || ps != cs || px != cx || pc != n * producers ) )
        fail( "conservation", "%llu elements were pushed, %llu received; checksums %s", (unsigned long long)pc, (unsigned long long)cc, ps == cs && px == cx ? "agree" : "differ" );
    if ( cap >= 0 ) {
        int64_t i = 0;
#ifdef SPSC
        while ( i <= cap && c.push( Item( i ) ) )
#else
        while ( i <= cap && c.bounded_push( Item( i ) ) )
#endif
            ++i;
        if ( own_capacity() && i != cap )
            fail( "capacity", "%lld elements fit after the run, the capacity is %lld", (long long)i, (long long)cap );
        Item it;
        for ( int64_t k = 0; k < i; ++k )
            if ( ( !c.pop( it ) || it.v >= uint64_t( i ) ) && own_result() )
                fail( "value", "refill: an element is missing or wrong" );
    }
}

static void reset( unsigned producers )
{
    memset( (void*)ctl, 0, sizeof *ctl );
    ctl->producers_left = producers;
}

template < class C, class Mk >
static void threads( char const* name, Mk mk, int64_t cap, bool unbounded, uint64_t seed, uint64_t n )
{
    Rng      r( seed );
    unsigned P = 1 + r.below( 3 ), Q = 1 + r.below( 3 );
    bool     ordered = true;
#ifdef SPSC
    P = Q = 1;
#endif
#ifdef STACK
    ordered = false;
#endif
    char b[ 200 ];
    snprintf( b, sizeof b, "%s, %u producers, %u consumers, threads, run seed %llu", name, P, Q, (unsigned long long)seed );
    ctx = b;
    if ( stats.sample.empty() )
        stats.sample = ctx;
    ++stats.per[ std::string( name ) + "/threads" ];
    reset( P );
    C*                         c = mk();
    std::vector< std::thread > t;
    for ( unsigned i = 0; i < P; ++i )
        t.emplace_back( [ =, &r ] { producer( *c, i, n, mix( seed, i ), unbounded ); } );
    for ( unsigned i = 0; i < Q; ++i )
        t.emplace_back( [ = ] { consumer( *c, P + i, P, mix( seed, 100 + i ), ordered ); } );
    ctl->go = 1;
    wait_workers( P + Q );
    for ( auto& x : t )
        x.join();
    judge( *c, P, P + Q, cap, n );
    delete c;
}

template < class C, class Mk >
static void processes( char const* name, Mk mk, int64_t cap, uint64_t seed, uint64_t n )
{
    Rng      r( seed );
    unsigned P = 1 + r.below( 3 ), Q = 1 + r.below( 3 );
    bool     ordered = true;
#ifdef SPSC
    P = Q = 1;
#endif
#ifdef STACK
    ordered = false;
#endif
    char b[ 200 ];
    snprintf( b, sizeof b, "%s, %u producers, %u consumers, processes, run seed %llu", name, P, Q, (unsigned long long)seed );
    ctx = b;
    ++stats.per[ std::string( name ) + "/processes" ];
    reset( P );
    char*     base = Shm::fresh( r );
    C*        c    = mk( base );
    ptrdiff_t off  = (char*)c - base;
    pid_t     kid[ MAXW ];
    for ( unsigned i = 0; i < P + Q; ++i ) {
        Shm::move( r ); // each process sees the structure elsewhere, never where it was constructed
        fflush( stdout );
        kid[ i ] = fork();
        if ( kid[ i ] < 0 )
            abort();
        if ( kid[ i ] == 0 ) {
            for ( int s : { SIGSEGV, SIGBUS, SIGABRT } )
                signal( s, SIG_DFL );
            C* mine = (C*)( Shm::area + Shm::slot * Shm::SZ + off );
            if ( i < P )
                producer( *mine, i, n, mix( seed, i ), false );
            else
                consumer( *mine, i, P, mix( seed, 100 + i ), ordered );
            _exit( 0 );
        }
    }
    ctl->go = 1;
    // a crashed process would leave the others waiting
    std::atomic< bool > over { false };
    int                 crashed = 0;
    std::thread         reaper( [ & ] {
        for ( unsigned i = 0; i < P + Q; ++i ) {
            int st = 0;
            pid_t p = waitpid( -1, &st, 0 );
            if ( p > 0 && WIFSIGNALED( st ) ) {
                crashed   = WTERMSIG( st );
                ctl->stop = 1;
                for ( unsigned k = 0; k < P + Q; ++k )
                    ctl->w[ k ].finished = 1;
            }
        }
        over = true;
    } );
    wait_workers( P + Q );
    if ( crashed ) { // do not leave the rest behind
        for ( int i = 0; i < 100 && !over; ++i )
            usleep( 20000 );
        if ( !over )
            for ( unsigned i = 0; i < P + Q; ++i )
                kill( kid[ i ], SIGKILL );
    }
    reaper.join();
    if ( crashed )
        fail( "crash", "a process using the structure through its own mapping died from signal %d", crashed );
    Shm::move( r );
    c = (C*)( Shm::area + Shm::slot * Shm::SZ + off );
    judge( *c, P, P + Q, cap, n );
    Shm::move( r );
    c = (C*)( Shm::area + Shm::slot * Shm::SZ + off );
    c->~C();
}

#ifdef SPSC
typedef boost::interprocess::managed_external_buffer Seg;
typedef boost::interprocess::allocator< Item, Seg::segment_manager > IA;
#endif

int main( int argc, char** argv )
{
    parse( argc, argv );
    ctl = (Control*)mmap( nullptr, sizeof( Control ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    uint64_t n = 6000;
    for ( uint64_t i = args.from; i < args.from + args.n; ++i ) {
        uint64_t s = mix( args.seed, i );
        if ( args.mode == "shm" ) {
#ifdef SPSC
            typedef lf::spsc_queue< Item, lf::capacity< 7 > > A;
            typedef lf::spsc_queue< Item, lf::capacity< 64 > > B;
            processes< A >( "spsc_queue capacity<7>", []( char* b ) { return new ( b ) A(); }, 7, mix( s, 1 ), n );
            processes< B >( "spsc_queue capacity<64>", []( char* b ) { return new ( b ) B(); }, 64, mix( s, 2 ), n );
            typedef lf::spsc_queue< Item, lf::allocator< IA > > D;
            processes< D >(
                "spsc_queue interprocess allocator",
                []( char* b ) {
                    Seg* g = new Seg( boost::interprocess::create_only, b, Shm::SZ );
                    D*   d = g->construct< D >( "q" )( 13, IA( g->get_segment_manager() ) );
                    delete g;
                    return d;
                },
                13, mix( s, 3 ), n );
#elif defined( STACK )
            typedef lf::stack< Item, lf::capacity< 4 > > A;
            typedef lf::stack< Item, lf::capacity< 64 > > B;
            processes< A >( "stack capacity<4>", []( char* b ) { return new ( b ) A(); }, 4, mix( s, 1 ), n );
            processes< B >( "stack capacity<64>", []( char* b ) { return new ( b ) B(); }, 64, mix( s, 2 ), n );
#else
            typedef lf::queue< Item, lf::capacity< 3 > > A;
            typedef lf::queue< Item, lf::capacity< 64 > > B;
            processes< A >( "queue capacity<3>", []( char* b ) { return new ( b ) A(); }, 3, mix( s, 1 ), n );
            processes< B >( "queue capacity<64>", []( char* b ) { return new ( b ) B(); }, 64, mix( s, 2 ), n );
#endif
            continue;
        }
#ifdef SPSC
        typedef lf::spsc_queue< Item > R;
        typedef lf::spsc_queue< Item, lf::capacity< 6 > > K;
        threads< R >( "spsc_queue run-time 5", [] { return new R( 5 ); }, 5, false, mix( s, 1 ), n * 4 );
        threads< R >( "spsc_queue run-time 100", [] { return new R( 100 ); }, 100, false, mix( s, 2 ), n * 4 );
        threads< K >( "spsc_queue capacity<6>", [] { return new K; }, 6, false, mix( s, 3 ), n * 4 );
#else
#    ifdef STACK
        typedef lf::stack< Item > N;
        typedef lf::stack< Item, lf::fixed_sized< true > > F;
        typedef lf::stack< Item, lf::capacity< 5 > > K;
#        define NM "stack"
#    else
        typedef lf::queue< Item > N;
        typedef lf::queue< Item, lf::fixed_sized< true > > F;
        typedef lf::queue< Item, lf::capacity< 5 > > K;
#        define NM "queue"
#    endif
        threads< N >( NM " node-based", [] { return new N( 2 ); }, -1, true, mix( s, 1 ), n );
        threads< F >( NM " fixed_sized 9", [] { return new F( 9 ); }, 9, false, mix( s, 2 ), n );
        threads< F >( NM " fixed_sized 200", [] { return new F( 200 ); }, 200, false, mix( s, 3 ), n );
        threads< K >( NM " capacity<5>", [] { return new K; }, 5, false, mix( s, 4 ), n );
#endif
    }
    print_result( ",\"moves\":" + std::to_string( Shm::moves ) );
}
