// Concurrent executions of spsc_queue under lfmon. -DCFG: 0 run-time sized with a tracking allocator,
// 1 capacity<CAP>, 2 run-time sized with the default allocator. -DTRIV: element with trivial destructor.
#include "h.h"
#include <boost/lockfree/spsc_queue.hpp>
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <iterator>

using namespace h;
namespace lf = boost::lockfree;

#ifndef CAP
#    define CAP 3
#endif
#ifdef TRIV
typedef Pay       T;
static const bool LIFE = false;
#else
typedef LPay      T;
static const bool LIFE = true;
#endif
#if CFG == 0
typedef lf::spsc_queue< T, lf::allocator< TrackAlloc< T > > > C;
static const bool                                             CT = false, TRACK = true;
#elif CFG == 1
typedef lf::spsc_queue< T, lf::capacity< CAP > > C;
static const bool                                CT = true, TRACK = false;
#else
typedef lf::spsc_queue< T > C;
static const bool           CT = false, TRACK = false;
#endif
static const char* cfg_name() { return CFG == 0 ? "run-time sized" : CFG == 1 ? "capacity" : "run-time sized/default-allocator"; }

enum Kind : uint8_t
{
    PUSH, PUSHA, PUSHARR, PUSHIT, WAVAIL, POP, POPU, POPV, POPA, POPARR, POPO, C1, C1C, CALL, CALLC, RAVAIL, FRONT, EMPTY, RESET, NKIND
};
static char const* kname[] = { "push", "push(array,n)", "push(array)", "push(range)", "write_available", "pop", "pop<U>", "pop()", "pop(array,n)", "pop(array)", "pop(iterator)", "consume_one", "consume_one(const)", "consume_all", "consume_all(const)", "read_available", "front", "empty", "reset" };
static bool        is_push( Kind k ) { return k <= PUSHIT; }
static bool        is_pop( Kind k ) { return k >= POP && k <= CALLC; }
static bool        takes_all( Kind k ) { return k == POPO || k == CALL || k == CALLC; }

constexpr unsigned MAXN = 80, MAXOUT = 160, MAXREC = 400;
struct Rec
{
    Kind     kind;
    bool     done, bad, hidden;
    int      tid;
    unsigned n_in, n_out, ask;
    uint32_t in[ MAXN ], out[ MAXOUT ];
    int64_t  ret;
    Stamp    b, e;
};
static Rec         recs[ MAXREC ];
static unsigned    nrec;
static Args        args;
static C*          cont;
static AllocState* AS;
static uint32_t    next_id;
static bool        with_msgs, noalloc;
static uint64_t    bound_base, bound_per;
static uint64_t    N;

static void reject( char const* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
static void reject( char const* fmt, ... )
{
    char    buf[ 600 ];
    va_list ap;
    va_start( ap, fmt );
    vsnprintf( buf, sizeof buf, fmt, ap );
    va_end( ap );
    violation( "oracle", "%s", buf );
}
static std::string describe( unsigned to = ~0u )
{
    std::string s;
    for ( unsigned i = 0; i < nrec && i < to; ++i ) {
        Rec& r = recs[ i ];
        char b[ 128 ];
        snprintf( b, sizeof b, "T%d [%llu,%s] %s(", r.tid == MAXT ? 99 : r.tid, (unsigned long long)r.b.step, r.done ? std::to_string( r.e.step ).c_str() : "-", kname[ r.kind ] );
        s += b;
        for ( unsigned k = 0; k < r.n_in; ++k )
            s += ( k ? "," : "" ) + std::to_string( r.in[ k ] );
        if ( r.kind == POPA )
            s += std::to_string( r.ask );
        s += ")=" + ( r.done ? std::to_string( r.ret ) : std::string( "pending" ) );
        if ( r.n_out ) {
            s += " {";
            for ( unsigned k = 0; k < r.n_out; ++k )
                s += ( k ? "," : "" ) + std::to_string( r.out[ k ] );
            s += "}";
        }
        s += "\n";
    }
    return s;
}
static void dump() { printf( "HISTORY (T99 = quiescent)\n%s", describe().c_str() ); }

NOINSTR __attribute__( ( noinline ) ) static uint32_t fresh_id()
{
    asm volatile( "" ::: "memory" );
    uint32_t id = next_id++;
    asm volatile( "" ::: "memory" );
    return id;
}
NOINSTR static void got( Rec& r, uint64_t id, uint64_t chk )
{
    if ( chk != chk_of( id ) || id == 0 || id >= 1000000 )
        r.bad = true;
    if ( r.n_out < MAXOUT )
        r.out[ r.n_out ] = uint32_t( id );
    else
        reject( "an operation delivered more than %u elements", MAXOUT );
    ++r.n_out;
    if ( bound_per )
        set_bound( bound_base + bound_per * ( r.n_out + 1 ) );
}
static void use_msg( uint64_t id )
{
    if ( !with_msgs || id == 0 || id >= MAXMSG )
        return;
    Msg* m = &msgs[ id ];
    if ( m->a != id * 3 || m->b != id * 5 )
        violation( "publication", "what the producer wrote before pushing element %llu is not visible to its receiver", (unsigned long long)id );
    m->a = 0;
    m->b = 1;
}
struct Fn
{
    Rec* r;
    template < class E >
    void operator()( E const& e ) const
    {
        obj_read( &e, sizeof( e ) );
        uint64_t id = e.id, chk = e.chk;
        got( *r, id, chk );
        use_msg( id );
    }
};
// output iterator: what is assigned to it goes into the record
struct OutIt
{
    typedef std::output_iterator_tag iterator_category;
    typedef void                     value_type;
    typedef void                     difference_type;
    typedef void                     pointer;
    typedef void                     reference;
    Rec*                             r;
    struct Proxy
    {
        Rec* r;
        template < class E >
        void operator=( E const& e ) const
        {
            Fn { r }( e );
        }
    };
    Proxy  operator*() const { return Proxy { r }; }
    OutIt& operator++() { return *this; }
    OutIt  operator++( int ) { return *this; }
};
// forward iterator that is no pointer
struct FwdIt
{
    typedef std::forward_iterator_tag iterator_category;
    typedef T                         value_type;
    typedef std::ptrdiff_t            difference_type;
    typedef T const*                  pointer;
    typedef T const&                  reference;
    T const*                          p;
    reference                         operator*() const { return *p; }
    pointer                           operator->() const { return p; }
    FwdIt&                            operator++()
    {
        ++p;
        return *this;
    }
    FwdIt operator++( int )
    {
        FwdIt o( *this );
        ++p;
        return o;
    }
    bool operator==( FwdIt const& o ) const { return p == o.p; }
    bool operator!=( FwdIt const& o ) const { return p != o.p; }
};

static Rec& new_rec( Kind k )
{
    if ( nrec >= MAXREC )
        abort();
    Rec& r            = recs[ nrec ];
    cur_rec[ self() ] = nrec++;
    r.kind = k, r.done = r.bad = r.hidden = false, r.tid = self(), r.n_in = r.n_out = 0, r.ret = 0, r.ask = 0;
    return r;
}

// some elements on the caller's side
struct Buf
{
    alignas( T ) char raw[ MAXN * sizeof( T ) ];
    T*       p;
    unsigned n;
    explicit Buf( unsigned n ) : p( reinterpret_cast< T* >( raw ) ), n( n )
    {
        for ( unsigned i = 0; i < n; ++i )
            new ( p + i ) T;
    }
    ~Buf()
    {
        for ( unsigned i = 0; i < n; ++i )
            p[ i ].~T();
    }
};
static unsigned big; // an execution with a large ring and large batches

static Rec& perform( Kind k, unsigned n )
{
    if ( k == FRONT && n != 1 ) { // precondition: something is there
        Rec& a = perform( RAVAIL, 0 );
        if ( a.ret == 0 )
            return a;
    }
    Rec& r = new_rec( k );
    if ( k == PUSH || k == PUSHARR )
        n = k == PUSH ? 1 : 3;
    Buf            ib( is_push( k ) ? n : 0 );
    T*             in     = ib.p;
    const unsigned NB     = k == POPARR ? 6 : k == POPA ? n + 3 : 0;
    r.ask = n;
    if ( is_push( k ) )
        for ( unsigned i = 0; i < n; ++i ) {
            uint32_t id      = fresh_id();
            r.in[ r.n_in++ ] = id;
            in[ i ].id = id, in[ i ].chk = chk_of( id );
            if ( with_msgs && id < MAXMSG ) {
                msgs[ id ].a = id * 3;
                msgs[ id ].b = id * 5;
            }
        }
    T   out;
    Buf ob( NB );
    T*  buf = ob.p;
    Out uout;
    Fn  fn { &r };
    r.b = op_begin( bound_base ? bound_base + bound_per * ( n + 1 ) : 0 );
    if ( noalloc )
        forbid_alloc();
    switch ( k ) {
    case PUSH: r.ret = cont->push( in[ 0 ] ); break;
    case PUSHA: r.ret = cont->push( (T const*)in, (typename C::size_type)n ); break;
    case PUSHARR: {
        T const( &a )[ 3 ] = *reinterpret_cast< T const( * )[ 3 ] >( in );
        r.ret              = cont->push( a );
        break;
    }
    case PUSHIT: r.ret = cont->push( FwdIt { in }, FwdIt { in + n } ).p - in; break;
    case WAVAIL: r.ret = cont->write_available(); break;
    case POP: r.ret = cont->pop( out ); break;
    case POPU: r.ret = cont->pop( uout ); break;
    case POPV: r.ret = cont->pop(); break;
    case POPA: r.ret = cont->pop( buf, (typename C::size_type)n ); break;
    case POPARR: {
        T( &a )[ 3 ] = *reinterpret_cast< T( * )[ 3 ] >( buf );
        r.ask        = 3;
        r.ret        = cont->pop( a );
        break;
    }
    case POPO: r.ret = cont->pop( OutIt { &r } ); break;
    case C1: r.ret = cont->consume_one( fn ); break;
    case C1C: r.ret = cont->consume_one( (Fn const&)fn ); break;
    case CALL: r.ret = cont->consume_all( fn ); break;
    case CALLC: r.ret = cont->consume_all( (Fn const&)fn ); break;
    case RAVAIL: r.ret = cont->read_available(); break;
    case FRONT: {
        T& f = n & 2 ? cont->front() : const_cast< T& >( static_cast< C const* >( cont )->front() );
        obj_read( &f, sizeof( f ) );
        uint64_t id = f.id, chk = f.chk;
        if ( chk != chk_of( id ) )
            r.bad = true;
        r.ret = id;
        yield_point();
        // still the same while it has not been taken
        id = f.id, chk = f.chk;
        if ( chk != chk_of( id ) || int64_t( id ) != r.ret )
            r.bad = true;
        break;
    }
    case EMPTY: r.ret = cont->empty(); break;
    case RESET: cont->reset(); break;
    default: abort();
    }
    r.e    = op_end();
    r.done = true;
    if ( k == POP && r.ret ) {
        got( r, out.id, out.chk );
        use_msg( out.id );
    }
    if ( k == POPU && r.ret ) {
        got( r, uout.id, uout.chk );
        use_msg( uout.id );
    }
    if ( k == POPV && r.ret )
        r.hidden = true; // one element, not shown
    if ( k == POPA || k == POPARR ) {
        for ( int64_t i = 0; i < r.ret && i < int64_t( NB ); ++i ) {
            got( r, buf[ i ].id, buf[ i ].chk );
            use_msg( buf[ i ].id );
        }
        for ( unsigned i = r.ret < 0 ? 0 : r.ret; i < NB; ++i )
            if ( buf[ i ].id || buf[ i ].chk )
                r.bad = true;
    }
    if ( is_push( k ) && r.ret < int64_t( n ) )
        ++stats.fails;
    if ( is_pop( k ) && r.ret == 0 )
        ++stats.empties;
    return r;
}

struct Step
{
    Kind    k;
    uint8_t n;
};
static Step     script[ MAXT ][ 40 ];
static unsigned slen[ MAXT ];
static void     fiber_body( void* p )
{
    int t = int( (intptr_t)p );
    for ( unsigned i = 0; i < slen[ t ]; ++i )
        perform( script[ t ][ i ].k, script[ t ][ i ].n );
}

// ------------------------------------------------------------------------------------------ set-up
static void* mem;
static bool  is( char const* p ) { return args.prop == p; }

static uint32_t prop_monitors()
{
    if ( is( "C12" ) )
        return MON_HEAP;
    if ( is( "C05" ) )
        return MON_RACE | MON_OBJ;
    if ( is( "C09" ) )
        return MON_ALLOC;
    if ( is( "C13" ) )
        return LIFE ? MON_LIFE : 0;
    if ( is( "C08" ) )
        return MON_STEPS;
    return 0;
}
static void begin_exec( Options& o, Rng& r )
{
    snprintf( context, sizeof context, "spsc_queue/%s/%s prop=%s mode=%s seed=%llu exec=%llu", cfg_name(), LIFE ? "class" : "trivial", args.prop.c_str(),
              args.mode.c_str(), (unsigned long long)args.seed, (unsigned long long)o.seed );
    o.seed     = r.next();
    o.monitors = prop_monitors();
    exec_begin( o );
    nrec    = 0;
    next_id = 1;
    static AllocState storage;
    AS         = &storage;
    AS->calls = AS->nodes = 0;
    AS->nb = AS->nev = 0;
    AS->check = is( "C14" );
    for ( int& c : cur_rec )
        c = -1;
    with_msgs = false;
    bound_base = bound_per = 0;
    if ( is( "C08" ) )
        bound_base = 200, bound_per = 60;
    noalloc = is( "C09" );
    if ( is( "C05" ) ) {
        with_msgs = true;
        msgs      = (Msg*)lfmon::alloc( sizeof( Msg ) * MAXMSG, 16, A_STRICT );
        lfmon::declare_init( msgs, sizeof( Msg ) * MAXMSG );
    }
}
static void construct( unsigned n )
{
    N   = CT ? CAP : n;
    mem = lfmon::alloc( sizeof( C ), alignof( C ), is( "C05" ) ? A_STRICT : 0 );
    op_begin();
#if CFG == 0
    cont = new ( mem ) C( n, TrackAlloc< T >( AS ) );
#elif CFG == 1
    cont = new ( mem ) C();
#else
    cont = new ( mem ) C( n );
#endif
    op_end();
    if ( is( "C05" ) && TRACK && AS->nb )
        lfmon::set_strict( AS->blocks[ 0 ].p, AS->blocks[ 0 ].n * AS->blocks[ 0 ].sz, true );
    if ( is( "C10" ) && TRACK && ( AS->nb != 1 || AS->blocks[ 0 ].n < N + 1 ) )
        reject( "storage for %llu elements is too small", (unsigned long long)N );
}
static void destroy()
{
    op_begin();
    cont->~C();
    op_end();
    lfmon::drop( mem, sizeof( C ) );
    if ( is( "C14" ) ) {
        if ( TRACK && AS->nb )
            reject( "%u blocks were not given back to the allocator by the end of destruction", AS->nb );
        if ( live_blocks() )
            reject( "%llu memory blocks leaked", (unsigned long long)live_blocks() );
    }
    if ( is( "C13" ) && LIFE && live_objects() )
        reject( "%zu element copies left alive after destruction", live_objects() );
}
static void schedule( Options& o, Rng& r )
{
    switch ( r.below( 10 ) ) {
    case 0: o.strategy = 0, o.switch_pm = 1000; break;
    case 1: o.strategy = 0, o.switch_pm = 500; break;
    case 2:
    case 3: o.strategy = 0, o.switch_pm = 120 + r.below( 150 ); break;
    case 4: o.strategy = 0, o.switch_pm = 30 + r.below( 60 ); break;
    case 5:
        o.strategy = 2, o.quantum = 1 + r.below( 8 );
        if ( r.chance( 2, 3 ) )
            o.slow = r.below( 2 ), o.quantum = 2 + r.below( 60 );
        break;
    default:
        o.strategy  = 1;
        o.pct_depth = 1 + r.below( 6 );
        o.est_len   = 40 + r.below( 300 );
    }
}
static Kind draw_prod( Rng& r, unsigned style )
{
    static const Kind a[] = { PUSH, PUSH, PUSHA, PUSHIT, PUSHARR, WAVAIL, PUSH, PUSHA };
    if ( style == 1 )
        return PUSH;
    if ( style == 2 )
        return r.chance( 1, 2 ) ? PUSHA : PUSHIT;
    if ( style == 3 )
        return r.chance( 1, 2 ) ? WAVAIL : r.chance( 1, 2 ) ? PUSH : PUSHA;
    return a[ r.below( 8 ) ];
}
static Kind draw_cons( Rng& r, unsigned style )
{
    static const Kind a[] = { POP, POP, POPU, POPV, POPA, POPA, POPARR, POPO, C1, C1C, CALL, CALLC, RAVAIL, FRONT, EMPTY, POP };
    if ( style == 1 )
        return r.chance( 3, 4 ) ? POP : C1;
    if ( style == 2 )
        return r.chance( 1, 2 ) ? POPA : r.chance( 1, 2 ) ? POPO : CALL;
    if ( style == 3 )
        return r.chance( 1, 3 ) ? RAVAIL : r.chance( 1, 2 ) ? FRONT : r.chance( 1, 3 ) ? POPV : r.chance( 1, 2 ) ? POP : POPA;
    return a[ r.below( 16 ) ];
}
static unsigned arg_for( Kind k, Rng& r )
{
    if ( big && ( k == PUSHA || k == PUSHIT || k == POPA ) && r.chance( 2, 3 ) )
        return 1 + r.below( MAXN - 4 );
    if ( k == PUSHA || k == PUSHIT || k == POPA )
        return r.chance( 1, 15 ) ? 0 : 1 + r.below( r.chance( 1, 4 ) ? 9 : unsigned( N ) + 2 > 9 ? 9 : unsigned( N ) + 2 );
    if ( k == FRONT )
        return 2 * r.below( 2 );
    return 1;
}

// ------------------------------------------------------------------------------------------ oracle
// producer's and consumer's operations are each totally ordered; `hb` says which operations of one side were
// complete before an operation of the other began
static void judge()
{
    static std::vector< uint32_t > acc, accop; // accepted elements in order, record that pushed them
    acc.clear();
    accop.clear();
    bool     c04 = is( "C04" ), c18 = is( "C18" );
    // accepted counts by prefix of records: the producer's records appear in program order in recs (fibers append
    // when they begin, one producer at a time)
    struct Cum
    {
        unsigned rec;
        uint64_t total; // accepted / taken including this one
    };
    static std::vector< Cum > pu, po;
    pu.clear();
    po.clear();
    uint64_t a = 0, t = 0;
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( !r.done )
            reject( "an operation never returned" );
        if ( is_push( r.kind ) ) {
            if ( r.ret < 0 || r.ret > int64_t( r.n_in ) )
                reject( "%s reports %lld of %u elements accepted", kname[ r.kind ], (long long)r.ret, r.n_in );
            for ( int64_t k = 0; k < r.ret; ++k )
                acc.push_back( r.in[ k ] ), accop.push_back( i );
            a += r.ret;
            pu.push_back( { i, a } );
        }
    }
    uint64_t next = 0;
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( is_pop( r.kind ) || r.kind == RESET ) {
            if ( r.bad )
                reject( "%s delivered a torn or invented element, or touched more of the output than it reported", kname[ r.kind ] );
            if ( r.kind == RESET ) { // quiescent: everything accepted so far is gone
                uint64_t sofar = 0;
                for ( Cum& c : pu )
                    if ( c.rec < i )
                        sofar = c.total;
                next = t = sofar;
            } else {
                if ( r.hidden ) {
                    if ( next >= acc.size() )
                        reject( "pop() reports an element that was never pushed" );
                    ++next;
                } else {
                    if ( r.ret != int64_t( r.n_out ) )
                        reject( "%s reports %lld elements but delivered %u", kname[ r.kind ], (long long)r.ret, r.n_out );
                    if ( ( r.kind == POPA || r.kind == POPARR ) && r.ret > int64_t( r.ask ) )
                        reject( "%s delivered %lld elements where %u were asked for", kname[ r.kind ], (long long)r.ret, r.ask );
                    for ( unsigned k = 0; k < r.n_out; ++k, ++next )
                        if ( next >= acc.size() || acc[ next ] != r.out[ k ] )
                            reject( "%s delivered element %u where %s was next", kname[ r.kind ], r.out[ k ],
                                    next < acc.size() ? std::to_string( acc[ next ] ).c_str() : "nothing" );
                }
                t = next;
            }
            po.push_back( { i, t } );
        }
    }
    auto pushed_before = [ & ]( Stamp const& b ) { // certainly complete
        uint64_t v = 0;
        for ( Cum& c : pu )
            if ( hb( recs[ c.rec ].e, b ) )
                v = c.total;
        return v;
    };
    auto pushed_begun = [ & ]( Stamp const& e ) { // may have taken effect
        uint64_t v = 0;
        for ( Cum& c : pu )
            if ( !hb( e, recs[ c.rec ].b ) )
                v = c.total;
        return v;
    };
    auto taken_before = [ & ]( Stamp const& b ) {
        uint64_t v = 0;
        for ( Cum& c : po )
            if ( hb( recs[ c.rec ].e, b ) )
                v = c.total;
        return v;
    };
    auto taken_begun = [ & ]( Stamp const& e ) {
        uint64_t v = 0;
        for ( Cum& c : po )
            if ( !hb( e, recs[ c.rec ].b ) )
                v = c.total;
        return v;
    };
    a = t = 0;
    int64_t  promised_r = -1, promised_w = -1; // elements still promised by the last report
    uint64_t cur_a = 0, cur_t = 0;             // per side, in program order
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( is_push( r.kind ) ) {
            cur_a += r.ret;
            if ( r.ret < int64_t( r.n_in ) ) {
                ++stats.judged;
                if ( c04 && cur_a - taken_before( r.b ) < N )
                    reject( "%s was refused or cut short at %lld although at most %llu of %llu places were taken", kname[ r.kind ], (long long)r.ret,
                            (unsigned long long)( cur_a - taken_before( r.b ) ), (unsigned long long)N );
                if ( c18 && promised_w > r.ret )
                    reject( "%s accepted only %lld elements although write_available had promised %lld more", kname[ r.kind ], (long long)r.ret,
                            (long long)promised_w );
            }
            if ( c04 && cur_a > N + taken_begun( r.e ) )
                reject( "%s: %llu elements in a ring of %llu", kname[ r.kind ], (unsigned long long)( cur_a - taken_begun( r.e ) ), (unsigned long long)N );
            if ( promised_w >= 0 )
                promised_w = promised_w > r.ret ? promised_w - r.ret : 0;
        } else if ( is_pop( r.kind ) ) {
            uint64_t n_out = r.ret;
            cur_t += n_out;
            bool shrt = takes_all( r.kind ) || ( ( r.kind == POPA || r.kind == POPARR ) ? n_out < r.ask : n_out == 0 );
            if ( shrt ) {
                ++stats.judged;
                if ( c04 && pushed_before( r.b ) > cur_t )
                    reject( "%s delivered only %llu elements although %llu more were there", kname[ r.kind ], (unsigned long long)n_out,
                            (unsigned long long)( pushed_before( r.b ) - cur_t ) );
                if ( c18 && promised_r > int64_t( n_out ) )
                    reject( "%s delivered only %llu elements although read_available had promised %lld", kname[ r.kind ], (unsigned long long)n_out,
                            (long long)promised_r );
            }
            if ( promised_r >= 0 )
                promised_r = promised_r > int64_t( n_out ) ? promised_r - n_out : 0;
        } else if ( r.kind == RESET ) {
            uint64_t sofar = 0;
            for ( Cum& c : pu )
                if ( c.rec < i )
                    sofar = c.total;
            cur_t      = sofar;
            promised_r = promised_w = -1;
        } else if ( r.kind == RAVAIL && c18 ) {
            ++stats.judged;
            if ( uint64_t( r.ret ) > N )
                reject( "read_available reports %lld in a ring of %llu", (long long)r.ret, (unsigned long long)N );
            if ( r.ret > int64_t( pushed_begun( r.e ) - cur_t ) )
                reject( "read_available reports %lld where at most %llu elements can be there", (long long)r.ret, (unsigned long long)( pushed_begun( r.e ) - cur_t ) );
            if ( r.ret < int64_t( pushed_before( r.b ) - cur_t ) || r.ret < promised_r )
                reject( "read_available reports %lld where at least %llu elements are there", (long long)r.ret,
                        (unsigned long long)std::max< int64_t >( pushed_before( r.b ) - cur_t, promised_r ) );
            promised_r = r.ret;
        } else if ( r.kind == WAVAIL && c18 ) {
            ++stats.judged;
            if ( uint64_t( r.ret ) > N )
                reject( "write_available reports %lld in a ring of %llu", (long long)r.ret, (unsigned long long)N );
            if ( r.ret > int64_t( N - ( cur_a - taken_begun( r.e ) ) ) )
                reject( "write_available reports %lld where at most %lld places can be free", (long long)r.ret, (long long)( N - ( cur_a - taken_begun( r.e ) ) ) );
            if ( r.ret < int64_t( N - ( cur_a - taken_before( r.b ) ) ) || r.ret < promised_w )
                reject( "write_available reports %lld where at least %lld places are free", (long long)r.ret, (long long)( N - ( cur_a - taken_before( r.b ) ) ) );
            promised_w = r.ret;
        } else if ( r.kind == FRONT && c18 ) {
            ++stats.judged;
            if ( r.bad || cur_t >= acc.size() || acc[ cur_t ] != uint32_t( r.ret ) )
                reject( "front refers to %lld instead of the next element %s", (long long)r.ret, cur_t < acc.size() ? std::to_string( acc[ cur_t ] ).c_str() : "-" );
        } else if ( r.kind == EMPTY && ( c04 || c18 ) ) {
            if ( r.tid == MAXT && ( r.ret != 0 ) != ( cur_a == cur_t ) )
                reject( "empty() is %lld with %llu elements stored", (long long)r.ret, (unsigned long long)( cur_a - cur_t ) );
        }
    }
}
static uint64_t stored_now()
{
    int64_t s = 0;
    for ( unsigned i = 0; i < nrec; ++i ) {
        if ( is_push( recs[ i ].kind ) )
            s += recs[ i ].ret;
        else if ( is_pop( recs[ i ].kind ) )
            s -= recs[ i ].ret;
        else if ( recs[ i ].kind == RESET )
            s = 0;
    }
    return s < 0 ? 0 : s;
}

static void quiet_ops( Rng& r, unsigned n )
{
    for ( unsigned i = 0; i < n && nrec < 250; ++i ) {
        Kind k = r.chance( 1, 2 ) ? draw_prod( r, r.below( 4 ) ) : draw_cons( r, r.below( 4 ) );
        if ( r.chance( 1, 12 ) )
            k = RESET;
        if ( r.chance( 1, 12 ) )
            k = EMPTY;
        perform( k, arg_for( k, r ) );
        if ( is( "C18" ) && r.chance( 1, 4 ) ) {
            int64_t a = perform( RAVAIL, 0 ).ret, b = perform( WAVAIL, 0 ).ret;
            if ( uint64_t( a + b ) != N || uint64_t( a ) != stored_now() )
                reject( "with no operation running read_available is %lld, write_available is %lld, %llu stored, capacity %llu", (long long)a, (long long)b,
                        (unsigned long long)stored_now(), (unsigned long long)N );
        }
    }
}

static void exec_one( uint64_t idx )
{
    uint64_t es = mix( args.seed, idx * 2 + 1 );
    Rng      r( es );
    Options  o;
    o.seed  = idx;
    bool wm = args.mode == "wm", fr = args.mode == "freeze";
    if ( wm ) {
        o.hb    = true;
        o.stale = r.below( 4 ) ? 10 + r.below( 70 ) : 0;
    }
    schedule( o, r );
    o.run_bound = 200000;
    big         = CT ? CAP > 9 : r.chance( 1, 12 );
    if ( big )
        o.est_len *= 4;
    begin_exec( o, r );
    construct( CT ? CAP : big ? 10 + r.below( 60 ) : r.chance( 1, 30 ) ? 0 : 1 + r.below( r.chance( 1, 4 ) ? 9 : 4 ) );
    quiet_ops( r, r.below( 8 ) );
    sync_point();
    unsigned phases = fr ? 1 : 1 + r.below( 2 ), fibers = 0, frozen = 0;
    for ( unsigned ph = 0; ph < phases; ++ph ) {
        unsigned ps = r.below( 4 ), cs = r.below( 4 );
        bool     swap = r.chance( 1, 2 );
        for ( unsigned t = 0; t < 2; ++t ) {
            bool     prod = ( t == 0 ) != swap;
            unsigned len  = 2 + r.below( 9 );
            int      fr_budget = 60 / phases;
            slen[ fibers + t ] = len;
            for ( unsigned i = 0; i < len; ++i ) {
                Kind k = prod ? draw_prod( r, ps ) : draw_cons( r, cs );
                if ( k == EMPTY && !fr_budget-- )
                    k = POP;
                script[ fibers + t ][ i ] = { k, uint8_t( arg_for( k, r ) ) };
            }
            spawn( fiber_body, (void*)(intptr_t)( fibers + t ) );
        }
        if ( fr )
            freeze_at( fibers + r.below( 2 ), 1 + r.below( 60 ) );
        fibers += 2;
        if ( run() < 0 )
            violation( "stuck", "operations did not finish" );
        for ( unsigned t = 0; t < fibers; ++t )
            frozen += is_frozen( t );
        if ( fr )
            break;
        sync_point();
        quiet_ops( r, r.below( 4 ) );
        sync_point();
    }
    if ( cur.preempt_in_op || frozen ) {
        ++stats.nontrivial;
        uint64_t x = sched_hash();
        for ( unsigned i = 0; i < nrec; ++i )
            x = mix( x, recs[ i ].kind * 1000003ull + recs[ i ].ret * 131 );
        stats.seen.insert( x );
        if ( stats.sample.empty() && nrec > 8 )
            stats.sample = std::string( context ) + "\n" + describe( 24 );
    }
    stats.judged += frozen;
    if ( fr ) { // a thread stays inside forever: no destruction
        exec_end();
        return;
    }
    if ( is( "C10" ) ) {
        uint64_t have = stored_now(), want = N - std::min( have, N );
        for ( uint64_t i = 0; i < want; ++i )
            if ( perform( r.chance( 1, 2 ) ? PUSH : PUSHA, 1 ).ret != 1 )
                reject( "with %llu of %llu places in use only %llu further pushes succeeded", (unsigned long long)have, (unsigned long long)N, (unsigned long long)i );
        if ( perform( r.chance( 1, 2 ) ? PUSH : PUSHIT, 1 ).ret )
            reject( "%llu elements fitted into a ring of %llu", (unsigned long long)N + 1, (unsigned long long)N );
        ++stats.judged;
    }
    if ( r.chance( 2, 3 ) ) {
        static const Kind all[] = { CALL, CALLC, POPO, POP, RESET };
        Kind              k     = all[ r.below( 5 ) ];
        for ( unsigned i = 0; i < N + 2 && nrec < MAXREC - 10; ++i ) {
            perform( k, 1 );
            if ( k != POP )
                break;
        }
        if ( nrec < MAXREC - 2 && ( is( "C04" ) || is( "C18" ) ) )
            if ( !perform( EMPTY, 0 ).ret )
                reject( "empty() is false after everything was taken out" );
    }
    if ( is( "C04" ) || is( "C18" ) )
        judge();
    if ( is( "C05" ) )
        for ( unsigned i = 0; i < nrec; ++i )
            if ( recs[ i ].bad )
                reject( "%s received a torn element", kname[ recs[ i ].kind ] );
    destroy();
    exec_end();
}

// ---------------------------------------------------------------- one side slow, the other never resting, large ring
static bool fast_prod;
static int  fast_ops;
static void fast_body( void* )
{
    for ( int i = 0; i < fast_ops && !is_done( 0 ); ++i ) {
        op_begin();
        if ( fast_prod ) {
            uint64_t id = fresh_id();
            T        e;
            e.id = id, e.chk = chk_of( id );
            cont->push( e );
        } else
            cont->pop();
        op_end();
    }
}
static void exec_adv( uint64_t idx )
{
    uint64_t es = mix( args.seed, idx * 2 + 1 );
    Rng      r( es );
    Options  o;
    o.seed      = idx;
    o.strategy  = 2;
    o.slow      = 0;
    o.quantum   = 8 + r.below( 40 );
    o.slow_pc   = r.chance( 1, 4 ) ? 90 : 100;
    o.run_bound = 4000000;
    big         = r.chance( 1, 3 );
    begin_exec( o, r );
    construct( CT ? CAP : 1500 + r.below( 1000 ) );
    uint64_t pre = r.chance( 1, 2 ) ? 0 : N - r.below( unsigned( N < 9 ? N : 9 ) );
    fast_prod    = r.chance( 1, 2 );
    if ( !fast_prod && r.chance( 3, 4 ) )
        pre = N;
    for ( uint64_t i = 0; i < pre; ++i ) {
        T e;
        e.id = fresh_id(), e.chk = chk_of( e.id );
        cont->push( e );
    }
    fast_ops    = 3000;
    unsigned st = r.below( 4 ), len = 1 + r.below( 3 );
    slen[ 0 ]   = len;
    for ( unsigned i = 0; i < len; ++i ) {
        Kind k = fast_prod ? draw_cons( r, st ) : draw_prod( r, st );
        if ( takes_all( k ) )
            k = POPA; // number of elements received is not limited by the harness
        script[ 0 ][ i ] = { k, uint8_t( arg_for( k, r ) ) };
    }
    spawn( fiber_body, (void*)(intptr_t)0 );
    spawn( fast_body, nullptr );
    if ( run() < 0 )
        violation( "stuck", "operations did not finish" );
    sync_point();
    ++stats.judged;
    if ( cur.preempt_in_op ) {
        ++stats.nontrivial;
        stats.seen.insert( mix( sched_hash(), recs[ 0 ].kind ) );
    }
    destroy();
    exec_end();
}

int main( int argc, char** argv )
{
    args = parse( argc, argv );
    init();
    set_dump( dump );
    capture_ops( !TRACK );
    for ( uint64_t i = args.from; i < args.from + args.n; ++i )
        args.mode == "adv" ? exec_adv( i ) : exec_one( i );
    print_result( args );
    return 0;
}
