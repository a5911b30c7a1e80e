// Single-threaded call sequences on queue (default) or stack (-DSTACK), compared with a model after every call.
// -DPART selects the element types of this translation unit.
#include "nat.h"
#ifdef STACK
#    include <boost/lockfree/stack.hpp>
#else
#    include <boost/lockfree/queue.hpp>
#endif
#include <algorithm>
#include <forward_list>
#include <functional>
#include <list>

using namespace nat;
namespace lf = boost::lockfree;

#ifdef STACK
template < class T, class... O > using Cont = lf::stack< T, O... >;
static const bool LIFO = true;
#    define CNAME "stack"
#else
template < class T, class... O > using Cont = lf::queue< T, O... >;
static const bool LIFO = false;
#    define CNAME "queue"
#endif
static const unsigned DUMMY = LIFO ? 0 : 1;
static const unsigned HOWS  = LIFO ? 2 : 4; // kinds of pop: the stack only converts implicitly

// heap use outside the tracking allocator
static uint64_t heap_events = 0;
static bool     heap_watch  = false;
extern "C" {
void* __real_malloc( size_t );
void  __real_free( void* );
void* __real_aligned_alloc( size_t, size_t );
int   __real_posix_memalign( void**, size_t, size_t );
void* __wrap_malloc( size_t n ) { heap_events += heap_watch; return __real_malloc( n ); }
void  __wrap_free( void* p ) { heap_events += heap_watch; __real_free( p ); }
void* __wrap_aligned_alloc( size_t a, size_t n ) { heap_events += heap_watch; return __real_aligned_alloc( a, n ); }
int   __wrap_posix_memalign( void** p, size_t a, size_t n ) { heap_events += heap_watch; return __real_posix_memalign( p, a, n ); }
}
#ifndef NO_NEW
void* operator new( size_t n )
{
    heap_events += heap_watch;
    if ( void* p = __real_malloc( n ? n : 1 ) )
        return p;
    throw std::bad_alloc();
}
void operator delete( void* p ) noexcept { heap_events += heap_watch; __real_free( p ); }
void operator delete( void* p, size_t ) noexcept { heap_events += heap_watch; __real_free( p ); }
#endif

// ------------------------------------------------------------------------------------------ configurations
struct Node
{
    static const bool NODE = true, CT = false, NAL = false; static const unsigned CAP = 0;
    static char const* name() { return "node-based"; }
    template < class T > using C = Cont< T >;
    template < class T > static C< T >* make( unsigned n, AState* ) { return new C< T >( n ); }
};
struct NodeF // explicitly not fixed-sized
{
    static const bool NODE = true, CT = false, NAL = true; static const unsigned CAP = 0;
    static char const* name() { return "fixed_sized<false>+allocator"; }
    template < class T > using C = Cont< T, lf::allocator< NA< T > >, lf::fixed_sized< false > >;
    template < class T > static C< T >* make( unsigned n, AState* s ) { return new C< T >( n, NA< T >( s ) ); }
};
struct NodeA
{
    static const bool NODE = true, CT = false, NAL = true; static const unsigned CAP = 0;
    static char const* name() { return "node-based+allocator"; }
    template < class T > using C = Cont< T, lf::allocator< NA< char > > >;
    template < class T > static C< T >* make( unsigned n, AState* s ) { return new C< T >( n, NA< int >( s ) ); }
};
struct Fix
{
    static const bool NODE = false, CT = false, NAL = false; static const unsigned CAP = 0;
    static char const* name() { return "fixed_sized"; }
    template < class T > using C = Cont< T, lf::fixed_sized< true > >;
    template < class T > static C< T >* make( unsigned n, AState* ) { return new C< T >( n ); }
};
struct FixA
{
    static const bool NODE = false, CT = false, NAL = true; static const unsigned CAP = 0;
    static char const* name() { return "fixed_sized+allocator"; }
    template < class T > using C = Cont< T, lf::fixed_sized< true >, lf::allocator< NA< T > > >;
    template < class T > static C< T >* make( unsigned n, AState* s ) { return new C< T >( n, NA< T >( s ) ); }
};
template < unsigned N >
struct Cap
{
    static const bool NODE = false, CT = true, NAL = false; static const unsigned CAP = N;
    static char const* name()
    {
        static std::string s = "capacity<" + std::to_string( N ) + ">";
        return s.c_str();
    }
    template < class T > using C = Cont< T, lf::capacity< N > >;
    template < class T > static C< T >* make( unsigned, AState* ) { return new C< T >(); }
};
template < unsigned N >
struct CapA
{
    static const bool NODE = false, CT = true, NAL = true; static const unsigned CAP = N;
    static char const* name()
    {
        static std::string s = "fixed_sized+capacity<" + std::to_string( N ) + ">+allocator";
        return s.c_str();
    }
    template < class T > using C = Cont< T, lf::fixed_sized< true >, lf::allocator< NA< T > >, lf::capacity< N > >;
    template < class T > static C< T >* make( unsigned, AState* s ) { return new C< T >( NA< T >( s ) ); }
};
template < unsigned N >
struct CapF // capacity<> decides, whatever fixed_sized<> says; allocator passed as a rebound type
{
    static const bool NODE = false, CT = true, NAL = true; static const unsigned CAP = N;
    static char const* name()
    {
        static std::string s = "capacity<" + std::to_string( N ) + ">+fixed_sized<false>+allocator";
        return s.c_str();
    }
    template < class T > using C = Cont< T, lf::capacity< N >, lf::fixed_sized< false >, lf::allocator< NA< char > > >;
    template < class T > static C< T >* make( unsigned, AState* s ) { return new C< T >( NA< int >( s ) ); }
};

#ifdef SHM
template < unsigned N > // moves to another address before every call
struct ShmCap
{
    static const bool NODE = false, CT = true, NAL = false; static const unsigned CAP = N;
    static char const* name()
    {
        static std::string s = "capacity<" + std::to_string( N ) + "> in shared memory";
        return s.c_str();
    }
    template < class T > using C = Cont< T, lf::capacity< N > >;
    template < class T > static C< T >* make( unsigned, AState* s )
    {
        Rng r( uintptr_t( s->seed ) );
        return new ( Shm::fresh( r ) + 256 ) C< T >();
    }
    template < class C > static void move( C*& c, Rng& r ) { c = (C*)( (char*)c + Shm::move( r ) ); }
    template < class C > static void destroy( C* c ) { c->~C(); }
};
#endif
template < class T > struct HeapT { static const bool value = false; };
template <> struct HeapT< std::string > { static const bool value = true; };
template <> struct HeapT< std::shared_ptr< uint64_t > > { static const bool value = true; };
template < class V > struct HeapT< ObjT< V > > { static const bool value = true; };

// ------------------------------------------------------------------------------------------ what belongs to whom
enum Cat { RESULT, CAPACITY, GROWTH, EVENTS };
static bool off; // the model no longer applies to this execution
static bool owned( Cat c )
{
    bool full = is( LIFO ? "C16" : "C15" ) || is( "C20" ) || is( "C19" );
    switch ( c ) {
    case RESULT: return full;
    case CAPACITY: return full || is( "C10" );
    case GROWTH: return is( "C11" );
    case EVENTS: return is( "C09" );
    }
    return false;
}
#define BAD( cat, ... )                    \
    do {                                   \
        if ( !off ) {                      \
            if ( owned( cat ) )            \
                fail( #cat, __VA_ARGS__ ); \
            off = true;                    \
            ++stats.skipped;               \
        }                                  \
    } while ( 0 )

// ------------------------------------------------------------------------------------------ one execution
template < class T >
static void free_fn( T const& );
static std::vector< uint64_t >* fn_sink;
static size_t                   room_hint; // elements a functor may receive

template < class T > struct FnC // const call operator
{
    std::vector< uint64_t >* out;
    void operator()( T const& t ) const { out->push_back( El< T >::val( t ) ); }
};
template < class T > struct FnM // stateful, non-const call operator
{
    std::vector< uint64_t > got;
    void operator()( T const& t ) { got.push_back( El< T >::val( t ) ); }
};
template < class T > static void free_fn( T const& t ) { fn_sink->push_back( El< T >::val( t ) ); }

// call `consume` with one of several kinds of functors
template < class T, class F >
static size_t with_functor( unsigned kind, std::vector< uint64_t >& got, F consume )
{
    got.reserve( 4096 + room_hint );
    switch ( kind ) {
    case 0: return consume( FnC< T > { &got } );
    case 1: {
        FnM< T > f;
        f.got.reserve( 4096 + room_hint );
        size_t n = consume( f );
        got      = f.got;
        return n;
    }
    case 2: {
        FnC< T > const f { &got };
        return consume( f );
    }
    case 3: return consume( [ & ]( T const& t ) { got.push_back( El< T >::val( t ) ); } );
    case 4: fn_sink = &got; return consume( &free_fn< T > );
    case 5: return consume( [ & ]( T t ) { got.push_back( El< T >::val( t ) ); } );
    case 6: return consume( [ &, n = 0 ]( T const& t ) mutable { got.push_back( El< T >::val( t ) ); return ++n; } ); // the result is ignored
    default: {
        std::function< void( T const& ) > f = [ & ]( T const& t ) { got.push_back( El< T >::val( t ) ); };
        return consume( f );
    }
    }
}
static const unsigned FUNCTORS = 8;

template < class T, class G >
struct Exec
{
    typedef typename G::template C< T > C;
    static const bool                   ASG = std::is_copy_assignable< T >::value;
    Rng                                 r;
    AState                              st;
    C*                                  c = nullptr;
    std::deque< uint64_t >              m; // front: oldest
    unsigned                            n0 = 0;
    uint64_t                            model_nodes = 0; // usable nodes, default allocator
    uint64_t                            next_v;
    uint64_t                            hash = 0;
    Exec*                               twin  = nullptr; // another structure that is used in between
    bool                                big = false, built = false;
    bool                                blind = false; // default allocator: the pool may have grown before a fault

    explicit Exec( uint64_t seed ) : r( seed ), next_v( r.below( 1000000 ) + 1 ) {}

    uint64_t places() const { return G::CT ? G::CAP : !G::NODE ? n0 : G::NAL ? st.nodes - DUMMY : model_nodes; }
    uint64_t fresh() { return next_v++ % El< T >::mod; }
    uint64_t model_take()
    {
        uint64_t v = LIFO ? m.back() : m.front();
        LIFO ? m.pop_back() : m.pop_front();
        return v;
    }
    struct Watch // brackets a call into the library
    {
        Exec&    e;
        uint64_t ev, nodes, frees;
        bool     forbid, adding;
        Watch( Exec& x, bool forbid_, bool adding_ ) : e( x ), forbid( forbid_ ), adding( adding_ )
        {
            ev = mem_events + heap_events, nodes = e.st.nodes, frees = e.st.frees;
            heap_watch = is( "C09" ) && !HeapT< T >::value;
            faults_armed = adding;
#ifdef SHM
            e.relocate();
#endif
        }
        void done()
        {
            heap_watch   = false;
            faults_armed = false;
            if ( forbid && !HeapT< T >::value && mem_events + heap_events != ev )
                BAD( EVENTS, "an operation that must not use the allocator did so" );
            if ( G::NAL && e.st.frees != frees )
                BAD( GROWTH, "a node was given back before destruction" );
        }
        ~Watch() { heap_watch = false, faults_armed = false; }
    };
#ifdef SHM
    void relocate() { G::move( c, r ); }
#endif
    static bool armed() { return is( "C20" ); }

    // unbounded pushes on a node-based pool must grow exactly when nothing is free
    void judge_growth( uint64_t nodes_before, uint64_t size_before, uint64_t accepted, bool may_grow, bool threw )
    {
        if ( !G::NODE )
            return;
        uint64_t places_before = G::NAL ? nodes_before - DUMMY : model_nodes;
        uint64_t grow          = may_grow && size_before + accepted > places_before ? size_before + accepted - places_before : 0;
        if ( G::NAL && !threw && st.nodes - nodes_before != grow )
            BAD( GROWTH, "%llu nodes were allocated by a push with %llu of %llu nodes in use, %llu expected", (unsigned long long)( st.nodes - nodes_before ),
                 (unsigned long long)size_before, (unsigned long long)places_before, (unsigned long long)grow );
        if ( !G::NAL )
            model_nodes += grow;
    }

    void push( unsigned k )
    {
        uint64_t v  = fresh();
        bool     ub = G::NODE && k != 1; // may grow
        note( "%s(%llu)", k == 0 ? "push" : k == 1 ? "bounded_push" : "unsynchronized_push", (unsigned long long)v );
        T        t     = El< T >::make( v );
        uint64_t nodes = st.nodes, size = m.size();
        bool     want = ub || size < places(), ok = false, threw = false;
        Watch    w( *this, !ub, armed() );
        try {
            ok = k == 0 ? c->push( t ) : k == 1 ? c->bounded_push( t ) : c->unsynchronized_push( t );
        } catch ( Fault& ) {
            threw = true;
        }
        w.done();
        ++stats.ops;
        if ( threw ) {
            trace.back() += " threw";
            blind |= G::NODE && !G::NAL;
            hash = mix( hash, 99 );
            return;
        }
        judge_growth( nodes, size, 1, ub, false );
        if ( ok != want && !blind ) {
            if ( ub && !ok && owned( GROWTH ) && !off )
                fail( "GROWTH", "an unbounded push reported failure" );
            BAD( CAPACITY, "%s with %zu of %llu places in use returned %d", trace.back().c_str(), m.size(), (unsigned long long)places(), ok );
        }
        if ( ok )
            m.push_back( v );
        else
            ++stats.refused;
        hash = mix( hash, k * 2 + ok );
    }
#ifdef STACK
    template < class It >
    It call_range( unsigned k, It b, It e )
    {
        return k == 0 ? c->push( b, e ) : k == 1 ? c->bounded_push( b, e ) : c->unsynchronized_push( b, e );
    }
    template < class R >
    void range_with( unsigned k, R const& in, std::vector< uint64_t > const& vs )
    {
        bool     ub    = G::NODE && k != 1;
        uint64_t nodes = st.nodes, size = m.size();
        uint64_t free  = places() - size;
        uint64_t want  = ub ? vs.size() : std::min< uint64_t >( free, vs.size() );
        uint64_t got = 0;
        bool     threw = false;
        auto     b = in.begin(), e = in.end(), ret = b;
        Watch    w( *this, !ub, armed() );
        try {
            ret = call_range( k, b, e );
        } catch ( Fault& ) {
            threw = true;
        }
        w.done();
        ++stats.ops, ++stats.batches;
        if ( threw ) {
            trace.back() += " threw";
            blind |= G::NODE && !G::NAL;
            return;
        }
        for ( auto i = b; i != ret; ++i ) {
            if ( i == e ) {
                BAD( RESULT, "the returned iterator is outside the range" );
                break;
            }
            ++got;
        }
        judge_growth( nodes, size, got, ub, false );
        if ( got != want && !blind )
            BAD( CAPACITY, "%s with %zu of %llu places in use accepted %llu of %zu elements", trace.back().c_str(), m.size(), (unsigned long long)places(),
                 (unsigned long long)got, vs.size() );
        for ( uint64_t i = 0; i < got && i < vs.size(); ++i )
            m.push_back( vs[ i ] );
        if ( got < vs.size() )
            ++stats.refused;
        hash = mix( hash, k * 100 + got );
    }
    void push_range( unsigned k )
    {
        unsigned                n = r.chance( 1, 8 ) ? 0 : 1 + r.below( big && r.chance( 1, 3 ) ? 1500 : r.chance( 1, 6 ) ? 20 : 4 );
        std::vector< uint64_t > vs;
        for ( unsigned i = 0; i < n; ++i )
            vs.push_back( fresh() );
        unsigned it = r.below( 4 );
        note( "%s(range of %u, iterator %u)", k == 0 ? "push" : k == 1 ? "bounded_push" : "unsynchronized_push", n, it );
        if ( it == 0 ) {
            std::vector< T > in;
            in.reserve( n );
            for ( uint64_t v : vs )
                in.push_back( El< T >::make( v ) );
            range_with( k, in, vs );
        } else if ( it == 1 ) {
            std::list< T > in;
            for ( uint64_t v : vs )
                in.push_back( El< T >::make( v ) );
            range_with( k, in, vs );
        } else if ( it == 3 ) {
            range_with( k, Generated< T > { vs }, vs );
        } else {
            std::forward_list< T > in;
            auto                   p = in.before_begin();
            for ( uint64_t v : vs )
                p = in.insert_after( p, El< T >::make( v ) );
            range_with( k, in, vs );
        }
    }
#endif
    void popped( bool ok, uint64_t v, uint64_t conv )
    {
        ++stats.ops;
        bool want = !m.empty();
        if ( ok != want )
            BAD( RESULT, "%s with %zu elements stored returned %d", trace.back().c_str(), m.size(), ok );
        if ( conv != ~0ull && conv != uint64_t( ok ) )
            BAD( RESULT, "%s converted %llu elements but returned %d", trace.back().c_str(), (unsigned long long)conv, ok );
        if ( ok && want ) {
            uint64_t x = model_take();
            if ( v != x )
                BAD( RESULT, "%s delivered %llu, expected %llu", trace.back().c_str(), (unsigned long long)v, (unsigned long long)x );
        } else if ( !ok )
            ++stats.empties;
        hash = mix( hash, ok + 40 );
    }
    void pop( bool unsync, unsigned how )
    {
        note( "%spop<%s>", unsync ? "unsynchronized_" : "", how == 0 ? "T" : how == 1 ? "U" : how == 2 ? "U explicit" : "U move-only" );
        uint64_t v = 0, cv = conversions;
        bool     ok = false;
        if ( how == 0 && ASG ) {
            if constexpr ( ASG ) {
                T     t = El< T >::make( 3 );
                Watch w( *this, true, false );
                ok      = unsync ? c->unsynchronized_pop( t ) : c->pop( t );
                w.done();
                v = El< T >::val( t );
                popped( ok, v, ~0ull );
            }
        } else if ( how <= 1 ) {
            Take< T > t;
            Watch     w( *this, true, false );
            ok          = unsync ? c->unsynchronized_pop( t ) : c->pop( t );
            w.done();
            v = t.v;
            popped( ok, v, conversions - cv );
        }
#ifndef STACK
        else if ( how == 2 ) {
            TakeX< T > t;
            Watch      w( *this, true, false );
            ok           = unsync ? c->unsynchronized_pop( t ) : c->pop( t );
            w.done();
            v = t.v;
            popped( ok, v, conversions - cv );
        } else {
            TakeM< T > t;
            Watch      w( *this, false, false );
            ok           = unsync ? c->unsynchronized_pop( t ) : c->pop( t );
            w.done();
            popped( ok, t.val(), conversions - cv );
        }
#endif
    }
    void consume1( unsigned f )
    {
        note( "consume_one (functor %u)", f );
        std::vector< uint64_t > got;
        got.reserve( 4 );
        size_t n = with_functor< T >( f, got, [ & ]( auto&& fn ) -> size_t {
            Watch  w( *this, true, false );
            size_t x = c->consume_one( fn );
            w.done();
            return x;
        } );
        if ( got.size() != ( n ? 1 : 0 ) )
            BAD( RESULT, "consume_one returned %zu but called its functor %zu times", n, got.size() );
        popped( n, got.empty() ? 0 : got[ 0 ], ~0ull );
    }
    void batch( unsigned which, unsigned f ) // 0 consume_all, 1 atomic, 2 atomic_reversed
    {
        note( "%s (functor %u)", which == 0 ? "consume_all" : which == 1 ? "consume_all_atomic" : "consume_all_atomic_reversed", f );
        std::vector< uint64_t > got;
        room_hint = m.size();
        size_t n = with_functor< T >( f, got, [ & ]( auto&& fn ) -> size_t {
            Watch  w( *this, true, false );
#ifdef STACK
            size_t x = which == 0 ? c->consume_all( fn ) : which == 1 ? c->consume_all_atomic( fn ) : c->consume_all_atomic_reversed( fn );
#else
            size_t x = c->consume_all( fn );
#endif
            w.done();
            return x;
        } );
        ++stats.ops, ++stats.batches;
        if ( n != got.size() )
            BAD( RESULT, "%s returned %zu but called its functor %zu times", trace.back().c_str(), n, got.size() );
        std::vector< uint64_t > want( m.begin(), m.end() );
        if ( LIFO && which != 2 )
            std::reverse( want.begin(), want.end() );
        m.clear();
        if ( got != want ) {
            std::string s;
            for ( uint64_t v : got )
                s += std::to_string( v ) + " ";
            BAD( RESULT, "%s delivered [ %s], %zu elements expected%s", trace.back().c_str(), s.c_str(), want.size(),
                 got.size() == want.size() ? " in another order" : "" );
        }
        hash = mix( hash, 60 + n );
    }
    void check_empty()
    {
        note( "empty" );
        Watch w( *this, true, false );
        bool  e = const_cast< C const& >( *c ).empty();
        w.done();
        ++stats.ops;
        if ( e != m.empty() )
            BAD( RESULT, "empty() is %d with %zu elements stored", e, m.size() );
    }
    void reserve( bool unsafe )
    {
        if constexpr ( G::NODE ) {
            unsigned n = r.below( big ? 400 : 4 );
            note( "reserve%s(%u)", unsafe ? "_unsafe" : "", n );
            uint64_t before = st.nodes;
            bool     threw  = false;
            Watch    w( *this, false, armed() );
            try {
                unsafe ? c->reserve_unsafe( n ) : c->reserve( n );
            } catch ( Fault& ) {
                threw = true;
                trace.back() += " threw";
            }
            w.done();
            ++stats.ops;
            if ( G::NAL && !threw && st.nodes != before + n )
                BAD( GROWTH, "reserve(%u) allocated %llu nodes", n, (unsigned long long)( st.nodes - before ) );
            model_nodes += n;
        }
    }
    bool construct()
    {
        n0 = G::CT ? G::CAP : r.below( big ? 3000 : r.chance( 1, 5 ) ? 20 : 6 );
        note( "construct %s<%s, %s>(%u)", CNAME, El< T >::name(), G::name(), n0 );
        faults_armed = armed();
        try {
            c = G::template make< T >( n0, &st );
        } catch ( Fault& ) {
            faults_armed = false;
            trace.back() += " threw";
            return false;
        }
        faults_armed = false;
        built        = true;
        model_nodes  = n0;
        if ( G::CT && st.calls )
            BAD( EVENTS, "a capacity<> %s called its allocator", CNAME );
        if ( G::NODE && G::NAL && st.nodes != n0 + DUMMY )
            BAD( GROWTH, "constructed for %u elements but holds %llu nodes", n0, (unsigned long long)st.nodes );
        return true;
    }
    void fill_and_drain()
    {
        if ( off || blind )
            return;
        if ( !is( "C13" ) || r.chance( 1, 2 ) ) {
            uint64_t room = places() - m.size();
            if ( room <= ( big ? 4096 : 64 ) ) {
                for ( uint64_t i = 0; i <= room && !off; ++i )
                    push( 1 );
            }
        }
    }
    void drain()
    {
        unsigned how = r.below( LIFO ? 5 : 4 );
        size_t   lim = m.size() + 3;
        if ( how == 0 )
            batch( 0, r.below( FUNCTORS ) );
        else if ( how == 1 )
            for ( size_t i = 0; i < lim && !m.empty() && !off; ++i )
                pop( false, r.below( HOWS ) );
        else if ( how == 2 )
            for ( size_t i = 0; i < lim && !m.empty() && !off; ++i )
                pop( true, r.below( HOWS ) );
        else if ( how == 3 )
            for ( size_t i = 0; i < lim && !m.empty() && !off; ++i )
                consume1( r.below( FUNCTORS ) );
        else
            batch( 1 + r.below( 2 ), r.below( FUNCTORS ) );
        pop( false, 0 );
        check_empty();
    }
    // turns the nodes round so often that every version tag passes its 16-bit limit
    void age()
    {
        if ( places() <= m.size() || off || blind )
            return;
        unsigned how = r.below( 4 ), n = 65536 - r.below( 24 ) + ( r.chance( 1, 2 ) ? r.below( 48 ) : 0 );
        if ( !LIFO && r.chance( 1, 3 ) )
            n *= 2;
        note( "%u times %s and %s", n, how & 1 ? "unsynchronized_push" : "bounded_push", how & 2 ? "consume_one" : "pop" );
        for ( unsigned i = 0; i < n && !off; ++i ) {
            uint64_t v = fresh(), got = 0;
            bool     a, b;
            {
                T t = El< T >::make( v ), o = El< T >::make( 3 );
                a   = how & 1 ? c->unsynchronized_push( t ) : c->bounded_push( t );
                if ( how & 2 )
                    b = c->consume_one( [ & ]( T const& x ) { got = El< T >::val( x ); } );
                else if constexpr ( ASG ) {
                    b   = c->pop( o );
                    got = El< T >::val( o );
                } else {
                    Take< T > u;
                    b   = c->pop( u );
                    got = u.v;
                }
            }
            if ( !a )
                BAD( CAPACITY, "round %u: a push with %zu of %llu places in use failed", i, m.size(), (unsigned long long)places() );
            m.push_back( v );
            uint64_t x = model_take();
            if ( !off && ( !b || got != x ) )
                BAD( RESULT, "round %u: delivered %d %llu, expected %llu", i, b, (unsigned long long)got, (unsigned long long)x );
        }
        stats.ops += 2 * n;
        ++stats.aged;
    }
    void bulk()
    {
        unsigned n = r.below( 1200 ), k = r.below( 3 );
        if ( r.chance( 1, 2 ) )
            for ( unsigned i = 0; i < n && !off; ++i )
                push( k );
        else
            for ( unsigned i = 0; i < n && !off && !m.empty(); ++i )
                pop( r.chance( 1, 2 ), r.below( HOWS ) );
    }
    void ops( unsigned len )
    {
#ifndef SHM
        unsigned ageing = !is( "C20" ) && len > 4 && r.chance( 1, 800 ) ? 1 + r.below( len ) : 0;
#else
        unsigned ageing = 0;
#endif
        unsigned wpush = 1 + r.below( 5 ), wpop = 1 + r.below( 5 );
        bool     bounded_only = r.chance( 1, 5 );
        for ( unsigned i = 0; i < len; ++i ) {
            if ( ageing && i == ageing )
                age();
            if ( twin && twin->built && r.chance( 1, 3 ) ) {
                note( "-- the other structure:" );
                twin->ops( 1 + r.below( 4 ) );
                note( "-- the first structure:" );
            }
            if ( big && r.chance( 1, 6 ) )
                bulk();
            if ( r.chance( 1, 24 ) ) {
                wpush = 1 + r.below( 5 ), wpop = 1 + r.below( 5 );
            }
            unsigned x = r.below( wpush + wpop + 1 );
            if ( x < wpush ) {
#ifdef STACK
                if ( r.chance( 1, 4 ) ) {
                    push_range( bounded_only ? 1 : r.below( 3 ) );
                    continue;
                }
#endif
                push( bounded_only ? 1 : r.below( 3 ) );
            } else if ( x < wpush + wpop ) {
                unsigned y = r.below( 16 );
                if ( y < 5 )
                    pop( false, r.below( HOWS ) );
                else if ( y < 10 )
                    pop( true, r.below( HOWS ) );
                else if ( y < 14 )
                    consume1( r.below( FUNCTORS ) );
                else
                    batch( LIFO ? r.below( 3 ) : 0, r.below( FUNCTORS ) );
            } else if ( r.chance( 1, 3 ) )
                reserve( r.chance( 1, 2 ) );
            else
                check_empty();
        }
    }
    void check_blocks()
    {
        if ( !st.blocks.empty() && ( is( "C14" ) || is( "C20" ) ) )
            fail( "allocator", "%zu blocks were not given back by the end of destruction", st.blocks.size() );
        if ( G::CT && st.calls )
            BAD( EVENTS, "a capacity<> %s called its allocator", CNAME );
    }
    void end()
    {
        if ( !built )
            return;
        if ( r.chance( 1, 2 ) ) {
            fill_and_drain();
            if ( r.chance( 3, 4 ) )
                drain();
        }
        note( "destroy with %zu elements", m.size() );
#ifdef SHM
        relocate();
        G::destroy( c );
#else
        delete c;
#endif
        check_blocks();
    }
    void run()
    {
        trace.clear();
        off = false;
#ifdef SHM
        st.seed = r.next();
#endif
        size_t alive = Alive::alive().size();
#ifndef SHM
        std::unique_ptr< Exec > other( r.chance( 1, 8 ) ? new Exec( r.next() ) : nullptr );
        if ( ( twin = other.get() ) )
            twin->construct();
        big = !is( "C20" ) && r.chance( 1, 300 );
#endif
        {
            unsigned len = is( "C20" ) ? 4 + r.below( 14 ) : r.chance( 1, 20 ) ? 600 : 5 + r.below( 60 );
            if ( construct() ) {
                ops( len );
                if ( twin && r.chance( 1, 2 ) )
                    twin->end(), twin = nullptr;
                end();
            }
            if ( twin )
                twin->end(), twin = nullptr;
        }
        if ( Alive::alive().size() != alive ) {
            if ( is( "C13" ) || is( "C20" ) )
                fail( "life", "%zu element copies left alive after destruction", Alive::alive().size() - alive );
            Alive::alive().clear();
        }
        check_blocks();
    }
};

static uint64_t exec_no;
template < class T, class G >
static void one( uint64_t seed )
{
    char b[ 200 ];
    snprintf( b, sizeof b, CNAME "<%s, %s> exec=%llu", El< T >::name(), G::name(), (unsigned long long)exec_no );
    ctx = b;
    auto account = [ & ]( uint64_t h ) {
        ++stats.execs;
        ++stats.checks;
        stats.seen.insert( mix( h, std::hash< std::string >()( std::string( El< T >::name() ) + G::name() ) ) );
        ++stats.per[ std::string( El< T >::name() ) + "/" + G::name() ];
        if ( stats.sample.empty() && trace.size() > 12 && trace.size() < 30 ) {
            stats.sample = ctx + ": ";
            for ( auto& t : trace )
                stats.sample += t + ", ";
        }
    };
    if ( is( "C20" ) ) {
        // every allocation and element copy made while adding fails once
        fault_at = -1, fault_points = 0;
        {
            Exec< T, G > e( seed );
            e.run();
            account( e.hash );
        }
        uint64_t p = fault_points;
        for ( uint64_t k = 0; k < p && k < 200; ++k ) {
            fault_at = int64_t( k ), fault_points = 0;
            ctx = std::string( b ) + " fault=" + std::to_string( k );
            uint64_t     hit = faults_hit;
            Exec< T, G > e( seed );
            e.run();
            if ( faults_hit > hit )
                account( mix( e.hash, k ) );
        }
        fault_at = -1;
        return;
    }
    Exec< T, G > e( seed );
    e.run();
    account( e.hash );
}

template < class T, class... G >
static void all_cfg( uint64_t seed )
{
    int i = 0;
    ( ( one< T, G >( mix( seed, ++i ) ) ), ... );
}
typedef Blob< 3, 1 >    B3;
typedef Blob< 24, 8 >   B24;
typedef Blob< 64, 64 >  A64;
typedef Blob< 300, 4 >  Big;
typedef Blob< 100, 128 > A128;
typedef Blob< 256, 256 > A256;
typedef std::shared_ptr< uint64_t > SP;
typedef int*            IP;
typedef unsigned char   Ch;
// every type with some configurations, every configuration with some types
#ifdef SHM
#    ifdef STACK
#        define TYPES( X ) X( int, ShmCap< 1 >, ShmCap< 2 >, ShmCap< 16 > ) X( B3, ShmCap< 7 > ) X( A64, ShmCap< 3 > ) X( A128, ShmCap< 4 > ) X( uint64_t, ShmCap< 5 > )
#    else
#        define TYPES( X ) X( int, ShmCap< 0 >, ShmCap< 1 >, ShmCap< 2 >, ShmCap< 16 > ) X( B3, ShmCap< 7 > ) X( A64, ShmCap< 3 > ) X( A128, ShmCap< 4 > ) X( uint64_t, ShmCap< 5 > )
#    endif
#elif defined( STACK )
#    if PART == 0
#        define TYPES( X ) X( int, Node, NodeA, NodeF, Fix, FixA, Cap< 1 >, Cap< 2 >, CapA< 3 >, CapF< 4 >, Cap< 300 > ) X( std::string, NodeA, FixA, Cap< 7 > )
#    elif PART == 1
#        define TYPES( X ) X( Obj, Node, NodeA, Fix, FixA, Cap< 2 >, CapA< 3 >, Cap< 7 > ) X( B3, NodeA, Fix, Cap< 7 > ) X( Ob1, NodeA, Fix, Cap< 2 > ) X( Ob4, Node, FixA ) X( Selfy, NodeA, FixA, Cap< 5 > ) X( Minimal, Node, NodeA, FixA, Cap< 4 > )
#    else
#        define TYPES( X ) X( A64, Node, FixA, Cap< 2 > ) X( A128, Fix, Cap< 3 > ) X( A256, Node, Cap< 2 > ) X( B24, NodeA, Cap< 7 > ) X( Ch, Node, Fix, CapA< 3 > ) X( SP, NodeA, Fix ) X( Big, NodeA, Cap< 2 > )
#    endif
#else
#    if PART == 0
#        define TYPES( X ) X( int, Node, NodeA, NodeF, Fix, FixA, Cap< 0 >, Cap< 1 >, Cap< 2 >, CapA< 3 >, CapF< 4 >, Cap< 300 > ) X( B24, NodeA, Cap< 7 > ) X( Thrower, Node, NodeA, Fix, FixA, Cap< 2 > )
#    elif PART == 1
#        define TYPES( X ) X( uint64_t, Node, NodeA, Fix, FixA, Cap< 1 >, CapA< 3 >, Cap< 7 > ) X( B3, NodeA, Fix, Cap< 7 > )
#    else
#        define TYPES( X ) X( IP, Node, NodeA, FixA, Cap< 2 > ) X( A64, NodeA, Fix, Cap< 2 > ) X( A128, Node, Cap< 3 > ) X( A256, Fix, Cap< 2 > ) X( Ch, Node, Fix, CapA< 3 > ) X( Big, NodeA, Cap< 2 > ) X( double, Fix )
#    endif
#endif

int main( int argc, char** argv )
{
    parse( argc, argv );
    watch_hangs();
    for ( uint64_t i = args.from; i < args.from + args.n; ++i ) {
        uint64_t s = mix( args.seed, i );
        exec_no    = i;
        int t      = 0;
#define RUN( ... ) all_cfg< __VA_ARGS__ >( mix( s, 1000 + ++t ) );
        TYPES( RUN )
    }
    print_result( ",\"moves\":" + std::to_string( Shm::moves ) );
}
