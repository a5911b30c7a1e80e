// Single-threaded call sequences on spsc_queue, compared with a bounded FIFO model after every call.
#include "nat.h"
#include <boost/lockfree/spsc_queue.hpp>
#include <algorithm>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>

#ifdef SHM
#    include <boost/interprocess/allocators/allocator.hpp>
#    include <boost/interprocess/managed_external_buffer.hpp>
#endif

using namespace nat;
namespace lf = boost::lockfree;

static uint64_t heap_events = 0;
static bool     heap_watch  = false;
extern "C" {
void* __real_malloc( size_t );
void  __real_free( void* );
void* __real_aligned_alloc( size_t, size_t );
int   __real_posix_memalign( void**, size_t, size_t );
void* __wrap_malloc( size_t n ) { heap_events += heap_watch; return __real_malloc( n ); }
void  __wrap_free( void* p ) { heap_events += heap_watch; __real_free( p ); }
void* __wrap_aligned_alloc( size_t a, size_t n ) { heap_events += heap_watch; return __real_aligned_alloc( a, n ); }
int   __wrap_posix_memalign( void** p, size_t a, size_t n ) { heap_events += heap_watch; return __real_posix_memalign( p, a, n ); }
}
#ifndef NO_NEW
void* operator new( size_t n )
{
    heap_events += heap_watch;
    if ( void* p = __real_malloc( n ? n : 1 ) )
        return p;
    throw std::bad_alloc();
}
void operator delete( void* p ) noexcept { heap_events += heap_watch; __real_free( p ); }
void operator delete( void* p, size_t ) noexcept { heap_events += heap_watch; __real_free( p ); }
#endif

struct Run // run-time sized, default allocator
{
    static const bool CT = false, NAL = false; static const unsigned CAP = 0;
    static char const* name() { return "run-time"; }
    template < class T > using C = lf::spsc_queue< T >;
    template < class T > static C< T >* make( unsigned n, AState* ) { return new C< T >( n ); }
};
struct RunA
{
    static const bool CT = false, NAL = true; static const unsigned CAP = 0;
    static char const* name() { return "run-time+allocator"; }
    template < class T > using C = lf::spsc_queue< T, lf::allocator< NA< T > > >;
    template < class T > static C< T >* make( unsigned n, AState* s ) { return new C< T >( n, NA< T >( s ) ); }
};
struct RunR
{
    static const bool CT = false, NAL = true; static const unsigned CAP = 0;
    static char const* name() { return "run-time+rebound allocator"; }
    template < class T > using C = lf::spsc_queue< T, lf::allocator< NA< char > > >;
    template < class T > static C< T >* make( unsigned n, AState* s ) { return new C< T >( n, NA< short >( s ) ); }
};
template < unsigned N >
struct Cap
{
    static const bool CT = true, NAL = false; static const unsigned CAP = N;
    static char const* name()
    {
        static std::string s = "capacity<" + std::to_string( N ) + ">";
        return s.c_str();
    }
    template < class T > using C = lf::spsc_queue< T, lf::capacity< N > >;
    template < class T > static C< T >* make( unsigned, AState* ) { return new C< T >(); }
};
#ifdef SHM
template < unsigned N > // moves to another address before every call
struct ShmCap
{
    static const bool NODE = false, CT = true, NAL = false; static const unsigned CAP = N;
    static char const* name()
    {
        static std::string s = "capacity<" + std::to_string( N ) + "> in shared memory";
        return s.c_str();
    }
    template < class T > using C = lf::spsc_queue< T, lf::capacity< N > >;
    template < class T > static C< T >* make( unsigned, AState* s )
    {
        Rng r( uintptr_t( s->seed ) );
        return new ( Shm::fresh( r ) + 256 ) C< T >();
    }
    template < class C > static void move( C*& c, Rng& r ) { c = (C*)( (char*)c + Shm::move( r ) ); }
    template < class C > static void destroy( C* c ) { c->~C(); }
};
// run-time sized, with an interprocess allocator
struct ShmRun
{
    static const bool NODE = false, CT = false, NAL = false; static const unsigned CAP = 0;
    static char const* name() { return "run-time sized with interprocess allocator in shared memory"; }
    typedef boost::interprocess::managed_external_buffer Seg;
    template < class T > using A = boost::interprocess::allocator< T, Seg::segment_manager >;
    template < class T > using C = lf::spsc_queue< T, lf::allocator< A< T > > >;
    template < class T > static C< T >* make( unsigned n, AState* s )
    {
        Rng  r( s->seed );
        Seg* g = new Seg( boost::interprocess::create_only, Shm::fresh( r ), Shm::SZ );
        typedef C< T > Q;
        Q* q = g->template construct< Q >( "q" )( n, A< T >( g->get_segment_manager() ) );
        delete g;
        return q;
    }
    template < class C > static void move( C*& c, Rng& r ) { c = (C*)( (char*)c + Shm::move( r ) ); }
    template < class C > static void destroy( C* c ) { c->~C(); }
};
#endif
template < class T > struct HeapT { static const bool value = false; };
template <> struct HeapT< std::string > { static const bool value = true; };
template <> struct HeapT< std::shared_ptr< uint64_t > > { static const bool value = true; };
template < class V > struct HeapT< ObjT< V > > { static const bool value = true; };

enum Cat { RESULT, CAPACITY, EVENTS };
static bool off;
static bool owned( Cat c )
{
    bool full = is( "C17" ) || is( "C20" ) || is( "C19" );
    switch ( c ) {
    case RESULT: return full;
    case CAPACITY: return full || is( "C10" );
    case EVENTS: return is( "C09" );
    }
    return false;
}
#define BAD( cat, ... )                    \
    do {                                   \
        if ( !off ) {                      \
            if ( owned( cat ) )            \
                fail( #cat, __VA_ARGS__ ); \
            off = true;                    \
            ++stats.skipped;               \
        }                                  \
    } while ( 0 )

static std::vector< uint64_t >* fn_sink;
static size_t                   room_hint; // elements a functor may receive
template < class T > struct FnC
{
    std::vector< uint64_t >* out;
    void operator()( T const& t ) const { out->push_back( El< T >::val( t ) ); }
};
template < class T > struct FnM
{
    std::vector< uint64_t > got;
    void operator()( T const& t ) { got.push_back( El< T >::val( t ) ); }
};
template < class T > static void free_fn( T const& t ) { fn_sink->push_back( El< T >::val( t ) ); }
template < class T, class F >
static size_t with_functor( unsigned kind, std::vector< uint64_t >& got, F consume )
{
    got.reserve( 512 + room_hint );
    switch ( kind ) {
    case 0: return consume( FnC< T > { &got } );
    case 1: {
        FnM< T > f;
        f.got.reserve( 512 + room_hint );
        size_t n = consume( f );
        got      = f.got;
        return n;
    }
    case 2: {
        FnC< T > const f { &got };
        return consume( f );
    }
    case 3: return consume( [ & ]( T const& t ) { got.push_back( El< T >::val( t ) ); } );
    case 4: fn_sink = &got; return consume( &free_fn< T > );
    case 5: return consume( [ & ]( T t ) { got.push_back( El< T >::val( t ) ); } );
    case 6: return consume( [ &, n = 0 ]( T const& t ) mutable { got.push_back( El< T >::val( t ) ); return ++n; } ); // the result is ignored
    default: {
        std::function< void( T const& ) > f = [ & ]( T const& t ) { got.push_back( El< T >::val( t ) ); };
        return consume( f );
    }
    }
}
static const unsigned FUNCTORS = 8;
// output iterator that is neither default constructible nor comparable
template < class T > struct OutIt
{
    typedef std::output_iterator_tag iterator_category;
    typedef void value_type;
    typedef void difference_type;
    typedef void pointer;
    typedef void reference;
    std::vector< uint64_t >* out;
    explicit OutIt( std::vector< uint64_t >* o ) : out( o ) {}
    struct Ref
    {
        std::vector< uint64_t >* out;
        void operator=( T const& t ) { out->push_back( El< T >::val( t ) ); }
    };
    Ref    operator*() const { return Ref { out }; }
    OutIt& operator++() { return *this; }
    OutIt  operator++( int ) { return *this; }
};

template < class T, class G >
struct Exec
{
    typedef typename G::template C< T > C;
    Rng                                 r;
    AState                              st;
    C*                                  c = nullptr;
    std::deque< uint64_t >              m;
    unsigned                            N = 0;
    Exec*                               twin = nullptr; // another queue that is used in between
    bool                                big = false, built = false;
    uint64_t                            next_v, hash = 0, total_in = 0;
    static const uint64_t               SENT = 3; // value of untouched output slots

    explicit Exec( uint64_t seed ) : r( seed ), next_v( r.below( 1000000 ) + 10 ) {}
    uint64_t fresh()
    {
        uint64_t v = next_v++ % El< T >::mod;
        return v == SENT ? fresh() : v;
    }
#ifdef SHM
    static inline Exec* self;
    void relocate()
    {
        self = this;
        G::move( c, r );
    }
#endif
    struct Watch
    {
        uint64_t ev;
        Watch( bool adding )
        {
            ev           = mem_events + heap_events;
            heap_watch   = is( "C09" ) && !HeapT< T >::value;
            faults_armed = adding && is( "C20" );
#ifdef SHM
            self->relocate();
#endif
        }
        void done()
        {
            heap_watch = false, faults_armed = false;
            if ( !HeapT< T >::value && mem_events + heap_events != ev )
                BAD( EVENTS, "%s used the allocator", trace.back().c_str() );
        }
        ~Watch() { heap_watch = false, faults_armed = false; }
    };
    unsigned batch_size()
    {
        unsigned k = r.below( 8 );
        return k == 0 ? 0 : k == 1 ? N : k == 2 ? N + 1 + r.below( 3 ) : k == 3 ? unsigned( N - m.size() ) : 1 + r.below( N + 1 );
    }
    void accepted( std::vector< uint64_t > const& vs, uint64_t got )
    {
        ++stats.ops;
        uint64_t want = std::min< uint64_t >( vs.size(), N - m.size() );
        if ( got != want )
            BAD( CAPACITY, "%s with %zu of %u places in use accepted %llu of %zu", trace.back().c_str(), m.size(), N, (unsigned long long)got, vs.size() );
        for ( uint64_t i = 0; i < got && i < vs.size(); ++i )
            m.push_back( vs[ i ] ), ++total_in;
        if ( got < vs.size() )
            ++stats.refused;
        hash = mix( hash, got * 4 + 1 );
    }
    template < size_t K > void push_array( std::vector< uint64_t >& vs )
    {
        vs.clear();
        for ( size_t i = 0; i < K; ++i )
            vs.push_back( fresh() );
        T        in[ K ];
        for ( size_t i = 0; i < K; ++i )
            in[ i ] = El< T >::make( vs[ i ] );
        T const( &cin )[ K ] = in;
        note( "push(array of %zu)", K );
        Watch w( true );
        try {
            size_t got = c->push( cin );
            w.done();
            accepted( vs, got );
        } catch ( Fault& ) {
            trace.back() += " threw";
        }
    }
    template < class R > void push_range( R const& in, std::vector< uint64_t > const& vs, char const* what )
    {
        note( "push(%zu from %s)", vs.size(), what );
        uint64_t got = 0;
        Watch    w( true );
        try {
            auto ret = c->push( in.begin(), in.end() );
            w.done();
            for ( auto i = in.begin(); i != ret; ++i, ++got )
                if ( i == in.end() ) {
                    BAD( RESULT, "%s returned an iterator outside the range", trace.back().c_str() );
                    break;
                }
            accepted( vs, got );
        } catch ( Fault& ) {
            trace.back() += " threw";
        }
    }
    void push()
    {
        unsigned kind = r.below( 8 );
        std::vector< uint64_t > vs;
        if ( kind <= 1 ) {
            vs.push_back( fresh() );
            T t = El< T >::make( vs[ 0 ] );
            note( "push(%llu)", (unsigned long long)vs[ 0 ] );
            Watch w( true );
            try {
                bool ok = c->push( t );
                w.done();
                accepted( vs, ok );
            } catch ( Fault& ) {
                trace.back() += " threw";
            }
            return;
        }
        if ( kind == 2 ) {
            ++stats.batches;
            switch ( r.below( 3 ) ) {
            case 0: return push_array< 1 >( vs );
            case 1: return push_array< 3 >( vs );
            default: return push_array< 6 >( vs );
            }
        }
        ++stats.batches;
        unsigned n = batch_size();
        for ( unsigned i = 0; i < n; ++i )
            vs.push_back( fresh() );
        if ( kind == 3 || kind == 4 ) {
            std::vector< T > in;
            for ( uint64_t v : vs )
                in.push_back( El< T >::make( v ) );
            if ( kind == 4 )
                return push_range( in, vs, "vector" );
            note( "push(pointer, %u)", n );
            Watch w( true );
            try {
                size_t got = c->push( in.data(), n );
                w.done();
                accepted( vs, got );
            } catch ( Fault& ) {
                trace.back() += " threw";
            }
        } else if ( kind == 5 ) {
            std::list< T > in;
            for ( uint64_t v : vs )
                in.push_back( El< T >::make( v ) );
            push_range( in, vs, "list" );
        } else if ( kind == 7 ) {
            push_range( Generated< T > { vs }, vs, "generator" );
        } else {
            std::forward_list< T > in;
            auto                   p = in.before_begin();
            for ( uint64_t v : vs )
                p = in.insert_after( p, El< T >::make( v ) );
            push_range( in, vs, "forward_list" );
        }
    }
    // elements received by a call that could take at most `most`
    void received( std::vector< uint64_t > const& got, uint64_t ret, uint64_t most )
    {
        ++stats.ops;
        uint64_t want = std::min< uint64_t >( most, m.size() );
        if ( ret != want )
            BAD( RESULT, "%s with %zu elements stored returned %llu, expected %llu", trace.back().c_str(), m.size(), (unsigned long long)ret, (unsigned long long)want );
        if ( got.size() != ret )
            BAD( RESULT, "%s returned %llu but delivered %zu elements", trace.back().c_str(), (unsigned long long)ret, got.size() );
        for ( size_t i = 0; i < got.size() && !m.empty(); ++i ) {
            if ( got[ i ] != m.front() )
                BAD( RESULT, "%s delivered %llu at position %zu, expected %llu", trace.back().c_str(), (unsigned long long)got[ i ], i, (unsigned long long)m.front() );
            m.pop_front();
        }
        if ( !ret )
            ++stats.empties;
        hash = mix( hash, ret * 4 + 2 );
    }
    // reads what an output buffer of k slots received: the slots after `ret` must be untouched
    template < class B > void from_buffer( B const& b, size_t k, uint64_t ret, uint64_t most )
    {
        std::vector< uint64_t > got;
        for ( size_t i = 0; i < k; ++i ) {
            uint64_t v = El< T >::val( b[ i ] );
            if ( i < ret )
                got.push_back( v );
            else if ( v != SENT % El< T >::mod )
                BAD( RESULT, "%s returned %llu but wrote slot %zu of the output", trace.back().c_str(), (unsigned long long)ret, i );
        }
        received( got, ret, most );
    }
    template < size_t K > void pop_array()
    {
        note( "pop(array of %zu)", K );
        T b[ K ];
        for ( auto& x : b )
            x = El< T >::make( SENT );
        Watch  w( false );
        size_t ret = c->pop( b );
        w.done();
        from_buffer( b, K, ret, K );
    }
    void pop()
    {
        unsigned                kind = r.below( 14 );
        std::vector< uint64_t > got;
        got.reserve( 512 + m.size() );
        room_hint = m.size();
        switch ( kind ) {
        case 0: {
            note( "pop()" );
            uint64_t front = m.empty() ? 0 : m.front();
            Watch    w( false );
            bool     ok = c->pop();
            w.done();
            if ( ok )
                got.push_back( front );
            received( got, ok, 1 );
            break;
        }
        case 1:
        case 2: {
            note( "pop(T&)" );
            T     t = El< T >::make( SENT );
            Watch w( false );
            bool  ok = c->pop( t );
            w.done();
            from_buffer( &t, 1, ok, 1 );
            break;
        }
        case 3: {
            note( "pop(U&)" );
            Take< T > t;
            uint64_t  cv = conversions, before = t.v;
            Watch     w( false );
            bool      ok = c->pop( t );
            w.done();
            if ( ok )
                got.push_back( t.v );
            else if ( t.v != before )
                BAD( RESULT, "a failed pop(U&) wrote its argument" );
            if ( conversions - cv != uint64_t( ok ) )
                BAD( RESULT, "pop(U&) converted %llu elements but returned %d", (unsigned long long)( conversions - cv ), ok );
            received( got, ok, 1 );
            break;
        }
        case 4:
        case 5: {
            unsigned         k = kind == 4 ? 1 + r.below( N + 2 ) : batch_size();
            note( "pop(pointer, %u)", k );
            ++stats.batches;
            std::vector< T > b;
            for ( unsigned i = 0; i < k + 2; ++i )
                b.push_back( El< T >::make( SENT ) );
            Watch  w( false );
            size_t ret = c->pop( b.data(), k );
            w.done();
            from_buffer( b, k + 2, ret, k );
            break;
        }
        case 6: {
            ++stats.batches;
            switch ( r.below( 3 ) ) {
            case 0: pop_array< 1 >(); break;
            case 1: pop_array< 4 >(); break;
            default: pop_array< 7 >();
            }
            break;
        }
        case 7: {
            note( "pop(output iterator)" );
            ++stats.batches;
            Watch  w( false );
            size_t ret = c->pop( OutIt< T >( &got ) );
            w.done();
            received( got, ret, ~0ull );
            break;
        }
        case 8: {
            note( "pop(back_inserter)" );
            ++stats.batches;
            std::vector< T > v;
            v.reserve( N + 4 );
            Watch  w( false );
            size_t ret = c->pop( std::back_inserter( v ) );
            w.done();
            for ( auto& x : v )
                got.push_back( El< T >::val( x ) );
            received( got, ret, ~0ull );
            break;
        }
        case 9: {
            note( "pop(vector iterator)" );
            ++stats.batches;
            std::vector< T > b;
            for ( unsigned i = 0; i < N + 2; ++i )
                b.push_back( El< T >::make( SENT ) );
            Watch  w( false );
            size_t ret = c->pop( b.begin() );
            w.done();
            from_buffer( b, N + 2, ret, ~0ull );
            break;
        }
        case 10:
        case 11: {
            unsigned f = r.below( FUNCTORS );
            note( "consume_one(functor %u)", f );
            size_t ret = with_functor< T >( f, got, [ & ]( auto&& fn ) -> size_t {
                Watch  w( false );
                size_t x = c->consume_one( fn );
                w.done();
                return x;
            } );
            received( got, ret, 1 );
            break;
        }
        default: {
            unsigned f = r.below( FUNCTORS );
            note( "consume_all(functor %u)", f );
            ++stats.batches;
            size_t ret = with_functor< T >( f, got, [ & ]( auto&& fn ) -> size_t {
                Watch  w( false );
                size_t x = c->consume_all( fn );
                w.done();
                return x;
            } );
            received( got, ret, ~0ull );
        }
        }
    }
    void look()
    {
        ++stats.ops;
        trace.emplace_back( "read_available, write_available, empty, front" );
        Watch    w( false );
        size_t   ra = const_cast< C const& >( *c ).read_available(), wa = const_cast< C const& >( *c ).write_available();
        bool     e = c->empty();
        w.done();
        if ( ra != m.size() )
            BAD( RESULT, "read_available() is %zu with %zu elements stored", ra, m.size() );
        if ( wa != N - m.size() )
            BAD( RESULT, "write_available() is %zu with %zu of %u places in use", wa, m.size(), N );
        if ( e != m.empty() )
            BAD( RESULT, "empty() is %d with %zu elements stored", e, m.size() );
        if ( !m.empty() && ra ) {
            uint64_t a = El< T >::val( const_cast< C const& >( *c ).front() ), b = El< T >::val( c->front() );
            if ( a != m.front() || b != m.front() )
                BAD( RESULT, "front() is %llu / %llu, expected %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)m.front() );
            if ( r.chance( 1, 4 ) ) { // front refers to the element itself
                uint64_t v  = fresh();
                c->front()  = El< T >::make( v );
                m.front()   = v;
                note( "front() = %llu", (unsigned long long)v );
            }
        }
    }
    void reset()
    {
        note( "reset" );
        ++stats.ops;
        Watch w( false );
        c->reset();
        w.done();
        m.clear();
        look();
    }
    bool construct()
    {
        N = G::CT ? G::CAP : r.below( big ? 3000 : r.chance( 1, 5 ) ? 40 : 7 );
        note( "construct spsc_queue<%s, %s>(%u)", El< T >::name(), G::name(), N );
        faults_armed = is( "C20" );
        try {
            c = G::template make< T >( N, &st );
        } catch ( Fault& ) {
            faults_armed = false;
            trace.back() += " threw";
            return false;
        }
        faults_armed = false;
        return built = true;
    }
    void ops( unsigned len )
    {
        unsigned wpush = 1 + r.below( 5 ), wpop = 1 + r.below( 5 );
        for ( unsigned i = 0; i < len; ++i ) {
            if ( twin && twin->built && r.chance( 1, 3 ) ) {
                note( "-- the other queue:" );
                twin->ops( 1 + r.below( 4 ) );
                note( "-- the first queue:" );
            }
            if ( r.chance( 1, 16 ) )
                wpush = 1 + r.below( 5 ), wpop = 1 + r.below( 5 );
            unsigned x = r.below( wpush + wpop + 2 );
            if ( x < wpush )
                push();
            else if ( x < wpush + wpop )
                pop();
            else if ( r.chance( 1, 8 ) )
                reset();
            else
                look();
        }
    }
    void end()
    {
        if ( !built )
            return;
        if ( r.chance( 1, 2 ) && !off ) { // exactly the free places are there
            for ( unsigned i = 0; i <= N && !off && m.size() <= N; ++i ) {
                std::vector< uint64_t > vs { fresh() };
                T                       t = El< T >::make( vs[ 0 ] );
                note( "push(%llu)", (unsigned long long)vs[ 0 ] );
                size_t before = m.size();
                accepted( vs, c->push( t ) );
                if ( m.size() == before )
                    break;
            }
            look();
            if ( r.chance( 1, 2 ) )
                while ( !m.empty() && !off )
                    pop();
        }
        note( "destroy with %zu elements", m.size() );
#ifdef SHM
        relocate();
        G::destroy( c );
#else
        delete c;
#endif
        if ( !st.blocks.empty() && ( is( "C14" ) || is( "C20" ) ) )
            fail( "allocator", "%zu blocks were not given back by the end of destruction", st.blocks.size() );
        stats.wraps += N ? total_in / ( N + 1 ) : 0;
    }
    void run()
    {
        trace.clear();
        off          = false;
#ifdef SHM
        self    = this;
        st.seed = r.next();
#endif
        size_t alive = Alive::alive().size();
#ifndef SHM
        std::unique_ptr< Exec > other( r.chance( 1, 8 ) ? new Exec( r.next() ) : nullptr );
        if ( ( twin = other.get() ) )
            twin->construct();
        big = !is( "C20" ) && r.chance( 1, 100 );
#endif
        unsigned len = is( "C20" ) ? 4 + r.below( 14 ) : r.chance( 1, 20 ) ? 600 : 5 + r.below( 60 );
        if ( construct() ) {
            ops( len );
            if ( twin && r.chance( 1, 2 ) )
                twin->end(), twin = nullptr;
            end();
        }
        if ( twin )
            twin->end(), twin = nullptr;
        if ( Alive::alive().size() != alive ) {
            if ( is( "C13" ) || is( "C20" ) )
                fail( "life", "%zu element copies left alive after destruction", Alive::alive().size() - alive );
            Alive::alive().clear();
        }
        if ( !st.blocks.empty() && ( is( "C14" ) || is( "C20" ) ) ) // also when the constructor threw
            fail( "allocator", "%zu blocks were not given back", st.blocks.size() );
    }
};

static uint64_t exec_no;
template < class T, class G >
static void one( uint64_t seed )
{
    char b[ 200 ];
    snprintf( b, sizeof b, "spsc_queue<%s, %s> exec=%llu", El< T >::name(), G::name(), (unsigned long long)exec_no );
    ctx          = b;
    auto account = [ & ]( uint64_t h ) {
        ++stats.execs;
        ++stats.checks;
        stats.seen.insert( mix( h, std::hash< std::string >()( std::string( El< T >::name() ) + G::name() ) ) );
        ++stats.per[ std::string( El< T >::name() ) + "/" + G::name() ];
        if ( stats.sample.empty() && trace.size() > 12 && trace.size() < 30 ) {
            stats.sample = ctx + ": ";
            for ( auto& t : trace )
                stats.sample += t + ", ";
        }
    };
    fault_at = -1, fault_points = 0;
    {
        Exec< T, G > e( seed );
        e.run();
        account( e.hash );
    }
    if ( is( "C20" ) ) {
        uint64_t p = fault_points;
        for ( uint64_t k = 0; k < p && k < 200; ++k ) {
            fault_at = int64_t( k ), fault_points = 0;
            ctx = std::string( b ) + " fault=" + std::to_string( k );
            uint64_t     hit = faults_hit;
            Exec< T, G > e( seed );
            e.run();
            if ( faults_hit > hit )
                account( mix( e.hash, k ) );
        }
        fault_at = -1;
    }
}
template < class T, class... G >
static void all_cfg( uint64_t seed )
{
    int i = 0;
    ( ( one< T, G >( mix( seed, ++i ) ) ), ... );
}
typedef Blob< 3, 1 >    B3;
typedef Blob< 64, 64 >  A64;
typedef Blob< 300, 4 >  Big;
typedef Blob< 100, 128 > A128;
typedef Blob< 256, 256 > A256;
typedef std::shared_ptr< uint64_t > SP;
typedef unsigned char   Ch;
#ifdef SHM
#    define TYPES( X ) X( int, ShmCap< 0 >, ShmCap< 1 >, ShmCap< 2 >, ShmCap< 16 >, ShmRun ) X( B3, ShmCap< 7 >, ShmRun ) X( A64, ShmCap< 3 > ) X( A128, ShmCap< 4 > ) X( uint64_t, ShmCap< 5 >, ShmRun )
#elif PART == 0
#    define TYPES( X ) X( int, Run, RunA, RunR, Cap< 0 >, Cap< 1 >, Cap< 2 >, Cap< 16 >, Cap< 1000 > ) X( std::string, RunA, Cap< 5 > )
#elif PART == 1
#    define TYPES( X ) X( Obj, Run, RunA, RunR, Cap< 0 >, Cap< 1 >, Cap< 4 > ) X( Ob1, RunA, Cap< 3 > ) X( Ob4, Run, Cap< 6 > ) X( Selfy, RunA, Cap< 5 > ) X( B3, RunA, Cap< 7 > )
#else
#    define TYPES( X ) X( A64, Run, Cap< 3 > ) X( A128, Run, Cap< 2 > ) X( A256, Run, Cap< 3 > ) X( Ch, Run, Cap< 3 > ) X( SP, RunA, Cap< 4 > ) X( Big, RunR, Cap< 2 > ) X( Thrower, RunA, Cap< 5 > )
#endif

int main( int argc, char** argv )
{
    parse( argc, argv );
    watch_hangs();
    for ( uint64_t i = args.from; i < args.from + args.n; ++i ) {
        uint64_t s = mix( args.seed, i );
        exec_no    = i;
        int t      = 0;
#define RUN( ... ) all_cfg< __VA_ARGS__ >( mix( s, 1000 + ++t ) );
        TYPES( RUN )
    }
    print_result( ",\"ring_wraps\":" + std::to_string( stats.wraps ) + ",\"moves\":" + std::to_string( Shm::moves ) );
}
