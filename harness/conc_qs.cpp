// Concurrent executions of queue (default) or stack (-DSTACK) under lfmon. -DCFG selects the configuration.
#ifdef DCAS
#    define BOOST_LOCKFREE_PREFIX_HPP_INCLUDED
#    define BOOST_LOCKFREE_CACHELINE_BYTES 64
#    include <boost/predef.h>
#endif
#include "h.h"
#ifdef STACK
#    include <boost/lockfree/stack.hpp>
#else
#    include <boost/lockfree/queue.hpp>
#endif
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <deque>
#include <set>

using namespace h;
namespace lf = boost::lockfree;

// ------------------------------------------------------------------------------------------ configurations
#ifndef CAP
#    define CAP 3
#endif
#ifdef STACK
typedef LPay                  T;
template < class... O > using Cont = lf::stack< T, O... >;
static const bool LIFO = true;
static const char* const cname = "stack";
#else
typedef Pay                   T;
template < class... O > using Cont = lf::queue< T, O... >;
static const bool LIFO = false;
static const char* const cname = "queue";
#endif
static const unsigned DUMMY = LIFO ? 0 : 1; // nodes the structure itself needs

#if CFG == 0 // node based
typedef Cont< lf::allocator< TrackAlloc< T > > > C;
static const bool NODE = true, FIXED = false, CT = false, TRACK = true;
#elif CFG == 1 // run-time fixed size
typedef Cont< lf::fixed_sized< true >, lf::allocator< TrackAlloc< T > > > C;
static const bool NODE = false, FIXED = true, CT = false, TRACK = true;
#elif CFG == 2 // compile-time capacity
typedef Cont< lf::capacity< CAP >, lf::allocator< TrackAlloc< T > > > C;
static const bool NODE = false, FIXED = true, CT = true, TRACK = true;
#elif CFG == 4 // node based, default allocator
typedef Cont<> C;
static const bool NODE = true, FIXED = false, CT = false, TRACK = false;
#elif CFG == 5 // run-time fixed size, default allocator
typedef Cont< lf::fixed_sized< true > > C;
static const bool NODE = false, FIXED = true, CT = false, TRACK = false;
#endif
#ifdef DCAS
static const char* const variant = "double-width";
#else
static const char* const variant = "compressed";
#endif
static const char* cfg_name()
{
    return CT ? "capacity" : NODE ? ( TRACK ? "node-based" : "node-based/default-allocator" ) : ( TRACK ? "fixed_sized" : "fixed_sized/default-allocator" );
}

// ------------------------------------------------------------------------------------------ recorded history
enum Kind : uint8_t
{
    PUSH, BPUSH, UPUSH, RPUSH, RBPUSH, RUPUSH, POP, POPU, UPOP, UPOPU, C1, C1C, CALL, CALLC, CAA, CAAC, CAAR, CAARC, EMPTY, RESERVE, RESERVEU, NKIND
};
static char const* kname[] = { "push", "bounded_push", "unsynchronized_push", "push(range)", "bounded_push(range)", "unsynchronized_push(range)", "pop", "pop<U>", "unsynchronized_pop", "unsynchronized_pop<U>", "consume_one", "consume_one(const)", "consume_all", "consume_all(const)", "consume_all_atomic", "consume_all_atomic(const)", "consume_all_atomic_reversed", "consume_all_atomic_reversed(const)", "empty", "reserve", "reserve_unsafe" };
static bool is_range( Kind k ) { return k == RPUSH || k == RBPUSH || k == RUPUSH; }
static bool is_push( Kind k ) { return k <= RUPUSH; }
static bool is_call( Kind k ) { return k == CALL || k == CALLC; }
static bool is_caa( Kind k ) { return k >= CAA && k <= CAARC; }
static bool is_pop( Kind k ) { return k >= POP && k <= CAARC; }

constexpr unsigned MAXOUT = 256, MAXRANGE = 48;
struct Rec
{
    Kind     kind;
    bool     done, bad;
    int      tid;
    unsigned n_in, n_out;
    uint32_t in[ MAXRANGE ], out[ MAXOUT ];
    int64_t  ret;  // result: 0/1, number accepted, count
    Stamp    b, e, tin[ MAXOUT ], tout[ MAXOUT ];
    uint64_t nodes_at_begin;
    Conv     conv; // conversions into another type
};
static Rec      recs[ 192 ];
static unsigned nrec;
static Args     args;
static C*       cont;
static AllocState* AS;
static uint32_t next_id;
// the compiler must not move this across monitored accesses
NOINSTR __attribute__( ( noinline ) ) static uint32_t fresh_id()
{
    asm volatile( "" ::: "memory" );
    uint32_t id = next_id++;
    asm volatile( "" ::: "memory" );
    return id;
}
static bool     with_msgs;
static std::atomic< uint64_t >* syncw; // harness-level synchronisation between operations
static uint32_t sync_pct;
static uint64_t bound_base, bound_per; // step bounds (0: none)
static bool     noalloc;               // C09
static uint64_t last_op_done_step;

static void reject( char const* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
static void reject( char const* fmt, ... )
{
    char    buf[ 600 ];
    va_list ap;
    va_start( ap, fmt );
    vsnprintf( buf, sizeof buf, fmt, ap );
    va_end( ap );
    violation( "oracle", "%s", buf );
}

static std::string describe( unsigned from = 0, unsigned to = ~0u )
{
    std::string s;
    for ( unsigned i = from; i < nrec && i < to; ++i ) {
        Rec& r = recs[ i ];
        char b[ 128 ];
        snprintf( b, sizeof b, "T%d [%llu,%s] %s(", r.tid == MAXT ? 99 : r.tid, (unsigned long long)r.b.step, r.done ? std::to_string( r.e.step ).c_str() : "-", kname[ r.kind ] );
        s += b;
        for ( unsigned k = 0; k < r.n_in; ++k )
            s += ( k ? "," : "" ) + std::to_string( r.in[ k ] );
        s += ")=" + ( r.done ? std::to_string( r.ret ) : std::string( "pending" ) );
        if ( r.n_out ) {
            s += " {";
            for ( unsigned k = 0; k < r.n_out; ++k )
                s += ( k ? "," : "" ) + std::to_string( r.out[ k ] );
            s += "}";
        }
        s += "\n";
    }
    return s;
}
static void dump()
{
    printf( "HISTORY (T99 = quiescent)\n%s", describe().c_str() );
}

NOINSTR static void got( Rec& r, uint64_t id, uint64_t chk )
{
    if ( chk != chk_of( id ) || id == 0 || id >= 1000000 )
        r.bad = true;
    if ( r.n_out < MAXOUT )
        r.out[ r.n_out ] = uint32_t( id );
    else
        reject( "an operation delivered more than %u elements", MAXOUT );
    ++r.n_out;
    if ( bound_per )
        set_bound( bound_base + bound_per * ( r.n_out + 1 ) );
}
static void use_msg( uint64_t id )
{
    if ( !with_msgs || id == 0 || id >= MAXMSG )
        return;
    Msg* m = &msgs[ id ];
    if ( m->a != id * 3 || m->b != id * 5 )
        violation( "publication", "what the producer wrote before pushing element %llu is not visible to its receiver", (unsigned long long)id );
    m->a = 0;
    m->b = 1;
}

struct Fn // functor, callable as const and non-const
{
    Rec* r;
    template < class E >
    void operator()( E const& e ) const
    {
        r->tin[ r->n_out < MAXOUT ? r->n_out : 0 ] = stamp_now();
        spec_commit();
        obj_read( &e, sizeof( e ) );
        uint64_t id = e.id, chk = e.chk;
        got( *r, id, chk );
        use_msg( id );
        r->tout[ r->n_out - 1 ] = stamp_now();
    }
};

static Rec& new_rec( Kind k )
{
    if ( nrec >= 192 )
        abort();
    Rec& r = recs[ nrec ];
    cur_rec[ self() ] = nrec++;
    r.kind = k, r.done = r.bad = false, r.tid = self(), r.n_in = r.n_out = 0, r.ret = 0;
    r.nodes_at_begin = AS->nodes;
    // what a reserve still running has allocated may not have reached the pool yet
    for ( unsigned i = 0; i + 1 < nrec; ++i )
        if ( ( recs[ i ].kind == RESERVE || recs[ i ].kind == RESERVEU ) && !recs[ i ].done )
            for ( unsigned e = 0; e < AS->nev; ++e )
                r.nodes_at_begin -= AS->ev_rec[ e ] == int( i );
    return r;
}

// the elements handed to a push
struct InBuf
{
    alignas( T ) char raw[ MAXRANGE * sizeof( T ) ];
    T*       p;
    unsigned n;
    explicit InBuf( unsigned n ) : p( reinterpret_cast< T* >( raw ) ), n( n )
    {
        for ( unsigned i = 0; i < n; ++i )
            new ( p + i ) T;
    }
    ~InBuf()
    {
        for ( unsigned i = 0; i < n; ++i )
            p[ i ].~T();
    }
};

// perform one operation; n: number of elements for pushes / count for reserve
static Rec& perform( Kind k, unsigned n )
{
    Rec&  r = new_rec( k );
    InBuf ib( is_push( k ) ? n : 0 );
    T*    in = ib.p;
    if ( is_push( k ) )
        for ( unsigned i = 0; i < n; ++i ) {
            uint32_t id = fresh_id();
            r.in[ r.n_in++ ] = id;
            in[ i ].id = id, in[ i ].chk = chk_of( id );
            if ( with_msgs && id < MAXMSG ) {
                msgs[ id ].a = id * 3;
                msgs[ id ].b = id * 5;
            }
        }
    T   out;
    Out uout;
    Fn  fn { &r };
    conv[ self() ] = Conv { 0, 0 };
    r.b = op_begin( bound_base ? bound_base + bound_per * ( n + 1 ) : 0 );
    if ( noalloc && !( NODE && ( k == PUSH || k == UPUSH || k == RPUSH || k == RUPUSH || k == RESERVE || k == RESERVEU ) ) )
        forbid_alloc();
    switch ( k ) {
    case PUSH: r.ret = cont->push( in[ 0 ] ); break;
    case BPUSH: r.ret = cont->bounded_push( in[ 0 ] ); break;
    case UPUSH: r.ret = cont->unsynchronized_push( in[ 0 ] ); break;
#ifdef STACK
    case RPUSH: r.ret = cont->push( (T const*)in, (T const*)in + n ) - in; break;
    case RBPUSH: r.ret = cont->bounded_push( (T const*)in, (T const*)in + n ) - in; break;
    case RUPUSH: r.ret = cont->unsynchronized_push( (T const*)in, (T const*)in + n ) - in; break;
#endif
    case POP:
        r.ret = cont->pop( out );
        if ( r.ret )
            spec_commit();
        break;
    case UPOP: r.ret = cont->unsynchronized_pop( out ); break;
    case POPU:
        r.ret = cont->pop( uout );
        if ( r.ret )
            spec_commit();
        break;
    case UPOPU: r.ret = cont->unsynchronized_pop( uout ); break;
    case C1: r.ret = cont->consume_one( fn ); break;
    case C1C: r.ret = cont->consume_one( (Fn const&)fn ); break;
    case CALL: r.ret = cont->consume_all( fn ); break;
    case CALLC: r.ret = cont->consume_all( (Fn const&)fn ); break;
#ifdef STACK
    case CAA: r.ret = cont->consume_all_atomic( fn ); break;
    case CAAC: r.ret = cont->consume_all_atomic( (Fn const&)fn ); break;
    case CAAR: r.ret = cont->consume_all_atomic_reversed( fn ); break;
    case CAARC: r.ret = cont->consume_all_atomic_reversed( (Fn const&)fn ); break;
#endif
    case EMPTY: r.ret = cont->empty(); break;
#if !defined( STACK ) || ( CFG != 2 )
    case RESERVE:
        if constexpr ( NODE )
            cont->reserve( n );
        r.ret = n;
        break;
    case RESERVEU:
        if constexpr ( NODE )
            cont->reserve_unsafe( n );
        r.ret = n;
        break;
#endif
    default: abort();
    }
    r.e    = op_end();
    r.conv = conv[ self() ];
    r.done = true;
    last_op_done_step = step_now();
    if ( ( k == POP || k == UPOP ) && r.ret ) {
        got( r, out.id, out.chk );
        use_msg( out.id );
    }
    if ( ( k == POPU || k == UPOPU ) && r.ret ) {
        got( r, uout.id, uout.chk );
        use_msg( uout.id );
    }
    if ( is_push( k ) && r.ret < int64_t( n ) )
        ++stats.fails;
    if ( is_pop( k ) && r.n_out == 0 )
        ++stats.empties;
    return r;
}

struct Step
{
    Kind    k;
    uint8_t n;
};
static Step     script[ MAXT ][ 32 ];
static unsigned slen[ MAXT ];
static void     fiber_body( void* p )
{
    int t = int( (intptr_t)p );
    for ( unsigned i = 0; i < slen[ t ]; ++i ) {
        perform( script[ t ][ i ].k, script[ t ][ i ].n );
        if ( sync_pct && Rng( next_id * 131 + i + t ).chance( sync_pct, 100 ) )
            syncw->fetch_add( 1, std::memory_order_acq_rel );
    }
}

// ------------------------------------------------------------------------------------------ set-up helpers
static void*       mem;
static std::string conf;

static void construct( unsigned n )
{
    mem = lfmon::alloc( sizeof( C ), alignof( C ) );
    op_begin();
    {
#if CFG == 2
        cont = new ( mem ) C( TrackAlloc< T >( AS ) );
#elif CFG == 0 || CFG == 1
        cont = new ( mem ) C( n, TrackAlloc< T >( AS ) );
#else
        cont = new ( mem ) C( n );
#endif
    }
    op_end();
}
static void destroy()
{
    op_begin();
    {
        cont->~C();
    }
    op_end();
    lfmon::drop( mem, sizeof( C ) );
}

static void schedule( Options& o, Rng& r, bool fair = false )
{
    switch ( r.below( fair ? 6 : 10 ) ) {
    case 0: o.strategy = 0, o.switch_pm = 1000; break;
    case 1: o.strategy = 0, o.switch_pm = 500; break;
    case 2:
    case 3: o.strategy = 0, o.switch_pm = 120 + r.below( 150 ); break;
    case 4: o.strategy = 0, o.switch_pm = 30 + r.below( 60 ); break;
    case 5:
        o.strategy = 2, o.quantum = 1 + r.below( 8 );
        if ( r.chance( 2, 3 ) ) // the others run whole operations between the steps of one
            o.slow = r.below( 3 ), o.slow_pc = r.chance( 1, 2 ) ? 80 : 100, o.quantum = 2 + r.below( r.chance( 1, 2 ) ? 20 : 80 );
        break;
    default:
        o.strategy  = 1;
        o.pct_depth = 1 + r.below( 6 );
        o.est_len   = 40 + r.below( 400 );
    }
}

struct Mix
{
    int w[ NKIND ] = {};
};
static Mix random_mix( Rng& r )
{
    Mix m;
    int push = 1 + r.below( 6 ), pop = 1 + r.below( 6 );
    m.w[ PUSH ] = push * ( 1 + r.below( 3 ) );
    m.w[ BPUSH ] = push * r.below( 3 );
    m.w[ POP ] = pop * ( 1 + r.below( 3 ) );
    m.w[ POPU ] = pop * r.below( 3 );
    m.w[ C1 ] = pop * r.below( 2 );
    m.w[ C1C ] = pop * r.below( 2 );
    if ( r.chance( 1, 3 ) )
        m.w[ r.chance( 1, 2 ) ? CALL : CALLC ] = 1 + r.below( 3 );
    if ( LIFO ) {
        if ( r.chance( 1, 2 ) ) {
            m.w[ RPUSH ]  = push * r.below( 3 );
            m.w[ RBPUSH ] = push * r.below( 2 );
        }
        if ( r.chance( 1, 2 ) )
            m.w[ CAA + r.below( 4 ) ] = 1 + r.below( 5 );
        if ( r.chance( 1, 2 ) )
            m.w[ CAA + r.below( 4 ) ] = 1 + r.below( 5 );
        m.w[ EMPTY ] = r.below( 3 );
    }
    return m;
}
static Kind draw( Mix const& m, Rng& r )
{
    int sum = 0;
    for ( int w : m.w )
        sum += w;
    int x = r.below( sum );
    for ( int k = 0; k < NKIND; ++k ) {
        if ( x < m.w[ k ] )
            return Kind( k );
        x -= m.w[ k ];
    }
    return POP;
}
static bool     big; // an execution with large ranges and much content
static unsigned big_left;
static unsigned arg_for( Kind k, Rng& r )
{
    if ( is_range( k ) && big && big_left && r.chance( 1, 2 ) ) {
        unsigned a = 1 + r.below( std::min( big_left, MAXRANGE ) );
        big_left -= a;
        return a;
    }
    if ( is_range( k ) )
        return r.chance( 1, 12 ) ? 0 : 1 + r.below( 4 );
    if ( k == RESERVE || k == RESERVEU )
        return r.below( 3 );
    return 1;
}

// ------------------------------------------------------------------------------------------ oracles
static void check_values()
{
    static uint8_t in[ 4096 ], out[ 4096 ];
    memset( in, 0, sizeof in );
    memset( out, 0, sizeof out );
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( is_push( r.kind ) ) {
            if ( r.done && ( r.ret < 0 || r.ret > int64_t( r.n_in ) ) )
                reject( "%s reports %lld of %u elements accepted", kname[ r.kind ], (long long)r.ret, r.n_in );
            for ( unsigned k = 0; k < r.n_in; ++k )
                in[ r.in[ k ] ] = r.done ? ( int64_t( k ) < r.ret ? 1 : 2 ) : 3;
        }
    }
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( r.bad )
            reject( "%s by thread %d delivered a torn or invented element", kname[ r.kind ], r.tid );
        for ( unsigned k = 0; k < r.n_out; ++k ) {
            uint32_t v = r.out[ k ];
            if ( v >= 4096 || !in[ v ] )
                reject( "%s delivered element %u which was never pushed", kname[ r.kind ], v );
            if ( in[ v ] == 2 )
                reject( "%s delivered element %u whose push had reported failure", kname[ r.kind ], v );
            if ( out[ v ]++ )
                reject( "element %u was delivered twice", v );
        }
        if ( r.done && ( r.kind == POPU || r.kind == UPOPU ) ) {
            if ( r.conv.n != unsigned( r.ret ) )
                reject( "%s converted %u elements but returned %lld: a conversion that takes ownership would be applied to elements it does not receive",
                        kname[ r.kind ], r.conv.n, (long long)r.ret );
            if ( r.conv.n && r.conv.id != r.out[ 0 ] )
                reject( "%s converted element %llu but delivered %u", kname[ r.kind ], (unsigned long long)r.conv.id, r.out[ 0 ] );
        }
        if ( r.done && is_pop( r.kind ) && r.ret != int64_t( r.n_out ) )
            reject( "%s reports %lld elements but delivered %u", kname[ r.kind ], (long long)r.ret, r.n_out );
    }
}

// histories -> operations of the linearizability oracle
static bool build( std::vector< oracle::LOp >& ops, bool use_hb )
{
    using namespace oracle;
    struct Iv
    {
        Stamp b, e;
        int   chain;
    };
    std::vector< Iv > iv;
    auto add = [ & ]( Type t, std::vector< uint32_t > v, Stamp const& b, Stamp const& e, int chain = -1 ) {
        LOp o;
        o.type = t;
        o.v    = std::move( v );
        ops.push_back( std::move( o ) );
        iv.push_back( Iv { b, e, chain } );
    };
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( !r.done )
            return false;
        if ( is_push( r.kind ) ) {
            if ( r.ret )
                add( ADD, std::vector< uint32_t >( r.in, r.in + r.ret ), r.b, r.e );
        } else if ( is_call( r.kind ) && r.tid == MAXT ) {
            add( REM_ALL, std::vector< uint32_t >( r.out, r.out + r.n_out ), r.b, r.e );
        } else if ( is_call( r.kind ) ) {
            int   chain = -1;
            Stamp b     = r.b;
            for ( unsigned k = 0; k < r.n_out; ++k ) {
                add( REM, { r.out[ k ] }, use_hb ? r.b : b, use_hb ? r.e : r.tin[ k ], chain );
                chain = ops.size() - 1;
                b     = r.tout[ k ];
            }
            add( REM_EMPTY, {}, use_hb ? r.b : b, r.e, chain );
        } else if ( is_caa( r.kind ) ) {
            if ( r.n_out == 0 )
                add( REM_EMPTY, {}, r.b, r.e );
            else {
                std::vector< uint32_t > v( r.out, r.out + r.n_out );
                if ( r.kind == CAAR || r.kind == CAARC )
                    std::reverse( v.begin(), v.end() );
                add( REM_ALL, v, r.b, use_hb ? r.e : r.tin[ 0 ] );
            }
        } else if ( is_pop( r.kind ) ) {
            if ( r.n_out )
                add( REM, { r.out[ 0 ] }, r.b, r.e );
            else
                add( REM_EMPTY, {}, r.b, r.e );
        } else if ( r.kind == EMPTY )
            add( r.ret ? SEEN_EMPTY : SEEN_NONEMPTY, {}, r.b, r.e );
    }
    if ( ops.size() > 64 )
        return false;
    for ( size_t i = 0; i < ops.size(); ++i ) {
        if ( iv[ i ].chain >= 0 )
            ops[ i ].pred |= 1ull << iv[ i ].chain;
        for ( size_t j = 0; j < ops.size(); ++j )
            if ( i != j && hb( iv[ j ].e, iv[ i ].b ) )
                ops[ i ].pred |= 1ull << j;
    }
    return true;
}

static uint64_t hist_hash()
{
    uint64_t x = sched_hash();
    for ( unsigned i = 0; i < nrec; ++i )
        x = mix( x, recs[ i ].kind * 1000003ull + recs[ i ].ret * 131 + ( recs[ i ].n_out ? recs[ i ].out[ 0 ] : 0 ) + recs[ i ].tid * 7919 );
    return x;
}

// most nodes that can have been in use at one time within [from, to]: elements from the begin of their push
// to the end of the operation that received them
static uint64_t demand( uint64_t from, uint64_t to, unsigned skip, uint64_t* at = nullptr )
{
    struct Ev
    {
        uint64_t t;
        int      d;
    };
    static std::vector< Ev >  ev;
    static std::vector< int > gone; // record receiving the element
    ev.clear();
    gone.assign( next_id + 1, -1 );
    for ( unsigned i = 0; i < nrec; ++i )
        for ( unsigned k = 0; k < recs[ i ].n_out; ++k )
            if ( recs[ i ].out[ k ] <= next_id )
                gone[ recs[ i ].out[ k ] ] = i;
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( !is_push( r.kind ) )
            continue;
        for ( unsigned k = 0; k < r.n_in; ++k ) {
            bool acc = !r.done || int64_t( k ) < r.ret;
            if ( !acc && i == skip )
                continue;
            ev.push_back( { r.b.step, +1 } );
            if ( !acc ) // a failed push holds nothing afterwards
                ev.push_back( { r.e.step, -1 } );
            else if ( gone[ r.in[ k ] ] >= 0 && recs[ gone[ r.in[ k ] ] ].done )
                ev.push_back( { recs[ gone[ r.in[ k ] ] ].e.step, -1 } );
        }
    }
    // at equal times count + first
    std::sort( ev.begin(), ev.end(), []( Ev const& a, Ev const& b ) { return a.t != b.t ? a.t < b.t : a.d > b.d; } );
    int64_t v = 0, best = 0;
    bool    in = false;
    for ( Ev& e : ev ) {
        if ( e.t > to )
            break;
        if ( e.t >= from && !in ) {
            in   = true;
            best = v;
        }
        v += e.d;
        if ( in && v > best )
            best = v;
    }
    if ( !in )
        best = v;
    (void)at;
    return best;
}

// C10: pushes may only be refused when all nodes were in use; C11: nodes are only allocated when none is free
static uint64_t n_init, n_reserved;
static void     judge_refusals()
{
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& r = recs[ i ];
        if ( !is_push( r.kind ) || r.ret >= int64_t( r.n_in ) || !r.done )
            continue;
        ++stats.judged;
        if ( NODE && ( r.kind == PUSH || r.kind == RPUSH || r.kind == UPUSH || r.kind == RUPUSH ) )
            reject( "an unbounded push on a node-based %s reported failure", cname );
        uint64_t nodes = NODE ? r.nodes_at_begin - DUMMY : n_init;
        // the elements it did accept itself count
        uint64_t d = demand( r.b.step, r.e.step, i );
        if ( d < nodes )
            reject( "%s by thread %d was refused although at most %llu of %llu places were taken during the call", kname[ r.kind ], r.tid,
                    (unsigned long long)d, (unsigned long long)nodes );
    }
}
static void judge_growth()
{
    uint64_t nodes = 0;
    for ( unsigned e = 0; e < AS->nev; ++e ) {
        int ri = AS->ev_rec[ e ];
        ++nodes;
        if ( ri < 0 || (unsigned)ri >= nrec )
            continue;
        Rec& r = recs[ ri ];
        if ( r.kind == RESERVE || r.kind == RESERVEU )
            continue;
        ++stats.judged;
        if ( r.kind == BPUSH || r.kind == RBPUSH || !is_push( r.kind ) )
            reject( "%s allocated a node", kname[ r.kind ] );
        uint64_t d = demand( r.b.step, AS->ev_step[ e ], ~0u ) + DUMMY;
        if ( d < r.nodes_at_begin + 1 )
            reject( "%s by thread %d allocated a node although only %llu of %llu nodes can have been in use", kname[ r.kind ], r.tid,
                    (unsigned long long)d - 1, (unsigned long long)r.nodes_at_begin );
    }
    uint64_t peak  = demand( 0, ~0ull, ~0u ) + DUMMY;
    uint64_t limit = std::max( n_init + DUMMY, peak ) + n_reserved;
    if ( AS->nodes > limit )
        reject( "%llu nodes were allocated, at most %llu were needed", (unsigned long long)AS->nodes, (unsigned long long)limit );
    uint64_t least = n_init + DUMMY + n_reserved;
    if ( AS->nodes < least )
        reject( "only %llu nodes were allocated for %llu initial and reserved ones", (unsigned long long)AS->nodes, (unsigned long long)least );
}

// C10 at quiescence: exactly `free` further pushes succeed. The additional elements are recorded.
static unsigned stored_now()
{
    int64_t s = 0;
    for ( unsigned i = 0; i < nrec; ++i ) {
        if ( is_push( recs[ i ].kind ) )
            s += recs[ i ].ret;
        s -= recs[ i ].n_out;
    }
    return s < 0 ? 0 : unsigned( s );
}
static void fill_check( Rng& r, uint64_t places )
{
    unsigned have = stored_now();
    uint64_t want = places > have ? places - have : 0;
    if ( nrec + want + 4 > 180 )
        return;
    Kind k = NODE ? BPUSH : ( r.chance( 1, 3 ) ? BPUSH : r.chance( 1, 2 ) ? PUSH : UPUSH );
    for ( uint64_t i = 0; i < want; ++i )
        if ( !perform( k, 1 ).ret )
            reject( "with %u of %llu places in use only %llu further pushes succeeded", have, (unsigned long long)places, (unsigned long long)i );
    if ( perform( k, 1 ).ret )
        reject( "%llu elements fitted into a structure with %llu places", (unsigned long long)places + 1, (unsigned long long)places );
    ++stats.judged;
}

static void drain( Rng& r )
{
    unsigned lim = stored_now() + 2;
    switch ( big ? 3 * r.below( 2 ) : r.below( LIFO ? 6 : 3 ) ) {
    case 0: perform( r.chance( 1, 2 ) ? CALL : CALLC, 0 ); break;
    case 1:
        for ( unsigned i = 0; i < lim && nrec < 188; ++i )
            if ( !perform( r.chance( 1, 2 ) ? UPOP : UPOPU, 0 ).ret )
                break;
        break;
    case 2:
        for ( unsigned i = 0; i < lim && nrec < 188; ++i )
            if ( !perform( r.chance( 1, 2 ) ? POP : C1, 0 ).ret )
                break;
        break;
    default: perform( Kind( CAA + r.below( 4 ) ), 0 );
    }
    if ( nrec < 190 )
        perform( POP, 0 );
    if ( nrec < 191 ) {
        Rec& e = perform( EMPTY, 0 );
        if ( !e.ret )
            reject( "empty() is false after everything was taken out" );
    }
}

static uint32_t prop_monitors( std::string const& p )
{
    if ( p == "C12" )
        return MON_HEAP;
    if ( p == "C05" )
        return MON_RACE | MON_OBJ;
    if ( p == "C09" )
        return MON_ALLOC;
    if ( p == "C13" )
        return LIFO ? MON_LIFE : 0;
    if ( p == "C07" )
        return MON_STEPS;
    return 0;
}

// ------------------------------------------------------------------------------------------ executions
static bool is( char const* p ) { return args.prop == p; }

static void begin_exec( Options& o, Rng& r, char const* extra )
{
    snprintf( context, sizeof context, "%s/%s/%s prop=%s mode=%s seed=%llu exec=%llu %s", cname, cfg_name(), variant, args.prop.c_str(), args.mode.c_str(),
              (unsigned long long)args.seed, (unsigned long long)o.seed, extra );
    o.seed     = r.next();
    o.monitors = prop_monitors( args.prop );
    exec_begin( o );
    nrec    = 0;
    next_id = 1;
    static AllocState storage[ 2 ];
    static int        which = 0;
    AS                      = &storage[ which ^= 1 ];
    AS->id                  = which;
    AS->calls = AS->nodes = 0;
    AS->nb = AS->nev = 0;
    AS->check        = is( "C14" );
    for ( int& c : cur_rec )
        c = -1;
    with_msgs = false;
    syncw     = nullptr;
    sync_pct  = 0;
    n_reserved = 0;
    bound_base = bound_per = 0;
    noalloc    = is( "C09" );
}

static void after_destroy( bool objs )
{
    if ( is( "C14" ) ) {
        if ( TRACK && AS->nb )
            reject( "%u blocks were not given back to the allocator by the end of destruction", AS->nb );
        if ( live_blocks() )
            reject( "%llu memory blocks leaked", (unsigned long long)live_blocks() );
    }
    if ( is( "C11" ) && live_blocks() )
        reject( "%llu nodes leaked at destruction", (unsigned long long)live_blocks() );
    if ( is( "C13" ) && LIFO && objs && live_objects() )
        reject( "%zu element copies left alive after destruction", live_objects() );
    if ( is( "C09" ) && CT && AS->calls )
        reject( "a capacity<> %s called its allocator", cname );
}

static void note_distinct()
{
    if ( cur.preempt_in_op ) {
        ++stats.nontrivial;
        stats.seen.insert( hist_hash() );
    }
}

// short concurrent history, complete oracle
static void exec_lin( uint64_t idx )
{
    uint64_t es = mix( args.seed, idx * 2 + 1 );
    Rng      r( es );
    Options  o;
    o.seed  = idx;
    bool wm = args.mode == "wm";
    if ( wm ) {
        o.hb    = true;
        o.stale = is( "C05" ) ? r.below( 50 ) : 10 + r.below( 70 );
    }
    if ( r.chance( 1, 2 ) )
        o.weakfail = 5 + r.below( 30 );
    schedule( o, r );
    o.run_bound = 400000;
    big         = LIFO && !CT && r.chance( 1, 14 );
    big_left    = 120;
    if ( big )
        o.est_len *= 4;
    begin_exec( o, r, "" );
    unsigned n = CT ? CAP : r.below( 5 );
    if ( big )
        n = FIXED ? 20 + r.below( 80 ) : r.below( 60 );
    else if ( !CT && ( is( "C10" ) || is( "C11" ) || is( "C09" ) ) && r.chance( 1, 4 ) )
        n = 5 + r.below( 8 );
    else if ( !CT && is( "C12" ) && r.chance( 1, 150 ) )
        n = 200 + r.below( 500 ); // fresh nodes at the end of a larger pool
    n_init = n;
    construct( n );
    Rng qr( r.next() );
    if ( is( "C05" ) ) {
        with_msgs = true;
        msgs      = (Msg*)lfmon::alloc( sizeof( Msg ) * MAXMSG, 16, A_STRICT );
        lfmon::declare_init( msgs, sizeof( Msg ) * MAXMSG );
    }
    syncw = (std::atomic< uint64_t >*)lfmon::alloc( 8, 8 );
    new ( syncw ) std::atomic< uint64_t >( 0 );
    sync_pct = wm ? ( r.chance( 1, 3 ) ? 0 : r.below( 60 ) ) : 0;

    // quiescent prologue
    unsigned pro = r.below( 7 );
    for ( unsigned i = 0; i < pro; ++i ) {
        static const Kind ks[] = { PUSH, BPUSH, UPUSH, POP, UPOP, C1, UPUSH, PUSH, UPOPU };
        Kind              k    = ks[ r.below( 9 ) ];
        if ( LIFO && r.chance( 1, 6 ) )
            k = r.chance( 1, 2 ) ? RUPUSH : RPUSH;
        if ( NODE && r.chance( 1, 10 ) ) {
            k        = r.chance( 1, 2 ) ? RESERVE : RESERVEU;
            unsigned a = r.below( 4 );
            n_reserved += a;
            perform( k, a );
            continue;
        }
        perform( k, arg_for( k, r ) );
    }
    if ( big )
        perform( RUPUSH, 10 + r.below( MAXRANGE - 10 ) );
    sync_point();
    unsigned phases = !big && r.chance( 1, 4 ) ? 2 : 1, fibers = 0;
    for ( unsigned ph = 0; ph < phases; ++ph ) {
        unsigned nt = 2 + r.below( phases == 2 ? 2 : 3 );
        Mix      m  = random_mix( r );
        if ( big ) {
            m.w[ CALL ] = m.w[ CALLC ] = 0;
            m.w[ CAA + r.below( 4 ) ] += 3;
            m.w[ RPUSH ] += r.below( 4 );
            m.w[ RBPUSH ] += r.below( 4 );
        }
        bool per_thread = r.chance( 1, 3 ); // producers and consumers
        unsigned total  = 3 + r.below( big ? 6 : 16 / phases + 4 );
        int      prodk  = 0;
        for ( unsigned t = 0; t < nt; ++t ) {
            Mix      mm = m;
            if ( per_thread ) {
                bool prod = ( prodk++ ^ r.below( 2 ) ) & 1;
                for ( int k = 0; k < NKIND; ++k )
                    if ( prod ? is_pop( Kind( k ) ) : is_push( Kind( k ) ) )
                        mm.w[ k ] = 0;
                mm.w[ prod ? PUSH : POP ] += 1;
            }
            unsigned len = std::max( 1u, total / nt ) + r.below( 2 );
            slen[ fibers + t ] = len;
            for ( unsigned i = 0; i < len; ++i ) {
                Kind k = draw( mm, r );
                if ( NODE && ( is( "C11" ) || is( "C12" ) || is( "C14" ) ) && r.chance( 1, 12 ) )
                    k = RESERVE;
                unsigned a = arg_for( k, r );
                if ( k == RESERVE )
                    n_reserved += a;
                script[ fibers + t ][ i ] = { k, uint8_t( a ) };
            }
        }
        for ( unsigned t = 0; t < nt; ++t )
            spawn( fiber_body, (void*)(intptr_t)( fibers + t ) );
        fibers += nt;
        {
                if ( run() < 0 )
                violation( "stuck", "operations did not finish within %llu steps", 400000ull );
        }
        sync_point();
        if ( ph + 1 < phases ) {
            unsigned mid = r.below( 4 );
            for ( unsigned i = 0; i < mid; ++i ) {
                static const Kind ks[] = { PUSH, UPUSH, POP, UPOP, UPOPU, C1C };
                perform( ks[ r.below( 6 ) ], 1 );
            }
            sync_point();
        }
    }
    note_distinct();
    if ( stats.sample.empty() && cur.preempt_in_op > 3 && nrec > 6 )
        stats.sample = std::string( context ) + "\n" + describe( 0, 24 );
    // conclusions
    if ( is( "C10" ) ) {
        check_values();
        if ( !o.hb && ( FIXED || TRACK ) )
            judge_refusals();
        if ( FIXED )
            fill_check( qr, n );
        else if ( TRACK )
            fill_check( qr, AS->nodes - DUMMY );
    }
    if ( is( "C11" ) && TRACK && NODE ) {
        check_values();
        if ( !o.hb )
            judge_growth();
        for ( unsigned i = 0; i < nrec; ++i )
            if ( is_push( recs[ i ].kind ) && recs[ i ].kind != BPUSH && recs[ i ].kind != RBPUSH && recs[ i ].ret != int64_t( recs[ i ].n_in ) )
                reject( "an unbounded push reported failure" );
        if ( cur.frees )
            reject( "a node was given back before destruction" );
        // at least n + m elements fit without allocation
        uint64_t before = AS->nodes;
        while ( stored_now() < n_init + n_reserved && nrec < 150 )
            perform( qr.chance( 1, 2 ) ? PUSH : UPUSH, 1 );
        if ( AS->nodes != before && stored_now() <= before - DUMMY )
            reject( "pushing within the reserve allocated %llu nodes", (unsigned long long)( AS->nodes - before ) );
    }
    bool drained = !( is( "C13" ) || is( "C12" ) || is( "C14" ) ) || qr.chance( 1, 2 );
    if ( drained )
        drain( qr );
    if ( is( "C11" ) && cur.frees )
        reject( "a node was given back before destruction" );
    if ( is( "C01" ) || is( "C02" ) || is( "C03" ) ) {
        check_values();
        std::vector< oracle::LOp > ops;
        if ( build( ops, o.hb ) ) {
            int ok = oracle::linearizable( LIFO, ops, &stats.visited );
            ok < 0 ? ++stats.skipped : ++stats.judged;
            if ( !ok )
                reject( "the history has no legal %s order", LIFO ? "LIFO" : "FIFO" );
        } else
            ++stats.skipped;
    }
    if ( is( "C05" ) )
        for ( unsigned i = 0; i < nrec; ++i )
            if ( recs[ i ].bad )
                reject( "%s received a torn element", kname[ recs[ i ].kind ] );
    destroy();
    after_destroy( true );
    exec_end();
}

// ---------------------------------------------------------------- ABA: stall inside an operation while nodes are recycled
// sequential operations of the others, judged with the stalled operations placed anywhere
struct Hyp
{
    std::vector< uint32_t > st; // front / bottom first
    uint8_t                 prog[ 3 ]; // sub-operations of the victims that have taken effect
    bool                    operator<( Hyp const& o ) const
    {
        if ( st != o.st )
            return st < o.st;
        return memcmp( prog, o.prog, 3 ) < 0;
    }
};
struct LogOp
{
    uint8_t  what; // 0 add, 1 remove, 2 empty, 3 add refused; +8: in one atomic step with the previous entry
    uint32_t v;
};
constexpr uint8_t GLUED = 8;
static std::vector< LogOp > logv;
static unsigned             nlog;
static uint32_t             log_cap;
struct OtherPlan
{
    uint64_t pre, pairs, post;
    uint64_t seed;
    unsigned pair_kind;
    uint64_t target; // number of pops (or pushes) in total
    bool     count_push;
    unsigned bulk_pc; // percent of bulk operations among the random ones
    unsigned keep;    // the others leave at least this many elements in
};
static OtherPlan plan;
static unsigned  held; // elements stored, as seen by the others (approximate while a victim is stalled)
static uint64_t  npops, npushes;
static void      note_log( uint8_t w, uint32_t v )
{
    if ( nlog >= log_cap )
        abort();
    logv[ nlog++ ] = { w, v };
}
NOINSTR static void take_log( uint64_t id, uint64_t chk )
{
    if ( chk != chk_of( id ) || id >= next_id || !id )
        violation( "oracle", "a torn or invented element was delivered" );
    note_log( 1, uint32_t( id ) );
}
struct LFn
{
    template < class E >
    void operator()( E const& e ) const
    {
        uint64_t id = e.id, chk = e.chk;
        take_log( id, chk );
    }
};
static bool other_push( bool bounded )
{
    T in;
    in.id = fresh_id(), in.chk = chk_of( in.id );
    op_begin();
    bool ok = bounded ? cont->bounded_push( in ) : cont->push( in );
    op_end();
    note_log( ok ? 0 : 3, uint32_t( in.id ) );
    if ( ok )
        ++held;
    ++npushes;
    return ok;
}
static bool other_pop( unsigned how )
{
    bool ok;
    T    out;
    op_begin();
    if ( how == 0 )
        ok = cont->pop( out );
    else
        ok = cont->consume_one( LFn() );
    op_end();
    if ( !ok )
        note_log( 2, 0 );
    else {
        if ( how == 0 )
            take_log( out.id, out.chk );
        if ( held )
            --held;
        ++npops;
    }
    return ok;
}
#ifdef STACK
static uint32_t glue_buf[ 4096 ];
static unsigned glue_n;
struct GFn
{
    template < class E >
    void operator()( E const& e ) const
    {
        uint64_t id = e.id, chk = e.chk;
        if ( chk != chk_of( id ) || id >= next_id || !id || glue_n >= 4096 )
            violation( "oracle", "a torn or invented element was delivered" );
        glue_buf[ glue_n++ ] = uint32_t( id );
    }
};
static void other_bulk( Rng& r )
{
    unsigned how = r.below( 6 );
    if ( nlog + 5000 > log_cap )
        return;
    op_begin();
    if ( how < 4 ) { // everything in one step
        glue_n = 0;
        GFn f;
        size_t n = how == 0 ? cont->consume_all_atomic( f ) : how == 1 ? cont->consume_all_atomic_reversed( f ) : how == 2 ? cont->consume_all_atomic( GFn() ) : cont->consume_all_atomic_reversed( GFn() );
        op_end();
        if ( n != glue_n )
            violation( "oracle", "consume_all_atomic returned %zu but called its functor %u times", n, glue_n );
        for ( unsigned i = 0; i < glue_n; ++i )
            note_log( 1 + ( i ? GLUED : 0 ), glue_buf[ how & 1 ? glue_n - 1 - i : i ] );
        note_log( 2 + ( glue_n ? GLUED : 0 ), 0 );
        npops += glue_n;
        held = 0;
    } else if ( how == 4 ) {
        LFn f;
        npops += cont->consume_all( f );
        op_end();
        note_log( 2, 0 );
        held = 0;
    } else {
        unsigned n = 1 + r.below( 3 );
        T        in[ 3 ];
        for ( unsigned i = 0; i < n; ++i )
            in[ i ].id = fresh_id(), in[ i ].chk = chk_of( in[ i ].id );
        unsigned k = unsigned( cont->bounded_push( &in[ 0 ], &in[ 0 ] + n ) - in );
        op_end();
        for ( unsigned i = 0; i < n; ++i )
            note_log( ( i < k ? 0 : 3 ) + ( i && i < k ? GLUED : 0 ), uint32_t( in[ i ].id ) );
        held += k;
        npushes += n;
    }
}
#endif
static void other_random( Rng& r )
{
#ifdef STACK
    if ( plan.bulk_pc && r.chance( plan.bulk_pc, 100 ) )
        return other_bulk( r );
#endif
    if ( r.chance( held < 3 ? 3 : 1, 5 ) || held <= plan.keep ) {
        if ( !other_push( r.chance( 1, 2 ) ) && held > plan.keep )
            other_pop( r.below( 2 ) );
    } else
        other_pop( r.below( 2 ) );
}
// moves the version tags on without leaving a trace: n pushes and pops
static void age( uint64_t n )
{
    for ( uint64_t i = 0; i < n; ++i ) {
        T in, out;
        in.id = fresh_id(), in.chk = chk_of( in.id );
        op_begin();
        bool a = cont->bounded_push( in );
        op_end();
        op_begin();
        bool b = cont->pop( out );
        op_end();
        if ( a != b || ( b && ( out.id != in.id || out.chk != in.chk ) ) )
            reject( "pair %llu of push and pop on an empty structure gave %d %d", (unsigned long long)i, a, b );
        if ( !a )
            break;
    }
}
static void other_body( void* )
{
    Rng r( plan.seed );
    for ( uint64_t i = 0; i < plan.pre; ++i )
        other_random( r );
    // recycle until the number of pops (pushes) leaves plan.post to go
    uint64_t& ctr = plan.count_push ? npushes : npops;
    uint64_t guard = 8 * plan.target + 64;
    while ( ctr + plan.post < plan.target && nlog + 9000 < log_cap && guard-- ) { // pairs may find the structure full or empty
        if ( plan.pair_kind == 3 )
            other_random( r );
        else if ( plan.pair_kind == 0 || ( plan.pair_kind == 2 && r.chance( 1, 2 ) ) ) {
            bool p = other_push( true );
            if ( !other_pop( 0 ) && !p )
                break;
        } else {
            bool a = held > plan.keep && other_pop( 0 );
            bool p = other_push( true );
            if ( !a && !p )
                break;
        }
    }
    for ( uint64_t guard = 0; ctr < plan.target && guard < 4 * plan.post + 8; ++guard )
        other_random( r );
}
static void other2_body( void* )
{
    Rng r( plan.seed + 1 );
    if ( r.chance( 1, 3 ) ) { // turn the nodes round
        for ( uint64_t i = 0; i < plan.pre; ++i ) {
            bool p = other_push( true );
            if ( held > plan.keep || !p )
                other_pop( r.below( 2 ) );
        }
        return;
    }
    for ( uint64_t i = 0; i < plan.pre; ++i )
        other_random( r );
}

static void exec_aba( uint64_t idx )
{
    uint64_t es = mix( args.seed, idx * 2 + 1 );
    Rng      r( es );
    Options  o;
    o.seed      = idx;
    o.strategy  = 0;
    o.switch_pm = 100;
    o.run_bound = 60000000;
    if ( is( "C12" ) )
        o.monitors = MON_HEAP;
    begin_exec( o, r, "" );
    unsigned n = CT ? CAP : r.below( 5 );
    construct( n );
    // sizes: how many recycling operations happen during the stall
    unsigned cls = r.below( 100 );
    uint64_t target;
    bool     big = false;
    if ( cls < 70 )
        target = 1 + r.below( 12 );
    else if ( cls < 90 )
        target = ( uint64_t( 1 ) << ( 2 + r.below( 6 ) ) ) * ( 1 + r.below( 3 ) ) + ( r.chance( 1, 3 ) ? r.below( 5 ) : 0 );
    else if ( cls < 96 || args.mode == "aba-small" )
        target = ( uint64_t( 256 ) << r.below( 4 ) ) + ( r.chance( 1, 4 ) ? r.below( 5 ) : 0 );
    else {
        target = ( uint64_t( 4096 ) << ( r.chance( 1, 2 ) ? 3 : r.below( 3 ) ) ) - ( r.chance( 1, 4 ) ? r.below( 3 ) : 0 );
        big    = true;
    }
    if ( target > 60000 )
        target = 60000;
    plan.target     = target;
    plan.count_push = r.chance( 1, 2 );
    plan.seed       = r.next();
    plan.pair_kind  = r.below( 4 ); // 3: any operations
    if ( LIFO && target < 13 && r.chance( 1, 3 ) )
        plan.pair_kind = 3;
    plan.bulk_pc = r.chance( 1, 2 ) ? 0 : 10 + r.below( 40 );
    plan.keep    = n < 2 || r.chance( 1, 2 ) ? 0 : n < 3 ? 1 : 1 + r.below( 2 ); // always room to move
    plan.pre        = r.below( target < 8 ? 3 : 6 );
    plan.post       = target < 8 ? r.below( unsigned( target ) + 1 ) : r.below( 7 );
    log_cap         = uint32_t( target * 4 + 20000 );
    if ( logv.size() < log_cap )
        logv.resize( log_cap );
    nlog = 0, held = 0, npops = npushes = 0;
    // prologue
    Hyp h0;
    h0.prog[ 0 ] = h0.prog[ 1 ] = h0.prog[ 2 ] = 0;
    std::set< Hyp > hyps { h0 };
    unsigned        pro = r.below( 5 );
    if ( r.chance( 1, args.mode == "aba" ? 40 : 400 ) ) { // tags about to wrap around
        age( 65536 * ( 1 + r.below( 2 ) ) - r.below( r.chance( 1, 2 ) ? 8 : 64 ) );
        pro += 2;
        ++stats.aged;
    }
    for ( unsigned i = 0; i < pro; ++i ) {
        if ( r.chance( 2, 3 ) )
            other_push( false );
        else
            other_pop( 0 );
    }
    while ( plan.keep && held <= plan.keep && other_push( true ) )
        ;
    unsigned pro_end = nlog;
    npops = npushes  = 0;
    // victims
    unsigned nv = r.chance( 1, 3 ) ? 2 + r.chance( 1, 4 ) : 1;
    int      fid[ 3 ];                             // fiber of each victim, -1: not started yet
    unsigned late[ 3 ];                            // phase in which it starts, 0: before everything else
    uint32_t begin_at[ 3 ];                        // length of the others' log when it started
    uint32_t done_at[ 3 ] = { ~0u, ~0u, ~0u };     // ... when the operation was known to have returned
    unsigned frozen = 0;
    auto     started = [ & ]( unsigned v ) { return fid[ v ] >= 0; };
    auto     mark = [ & ] {
        for ( unsigned v = 0; v < nv; ++v )
            if ( started( v ) && done_at[ v ] == ~0u && is_done( fid[ v ] ) )
                done_at[ v ] = nlog;
    };
    auto launch = [ & ]( unsigned v ) {
        fid[ v ]      = spawn( fiber_body, (void*)(intptr_t)v );
        begin_at[ v ] = nlog;
        freeze_at( fid[ v ], 1 + r.below( r.chance( 1, 2 ) ? 7 : LIFO ? 16 : 26 ) );
    };
    for ( unsigned v = 0; v < nv; ++v ) {
        static const Kind kq[] = { PUSH, BPUSH, POP, POP, POPU, C1, C1C, CALL, PUSH, POP };
        static const Kind ks[] = { PUSH, BPUSH, POP, POP, POPU, C1, C1C, CAA, CAAR, RPUSH, CALLC, POP, PUSH };
        Kind              k    = LIFO ? ks[ r.below( 13 ) ] : kq[ r.below( 10 ) ];
        slen[ v ]              = 1;
        script[ v ][ 0 ]       = { k, uint8_t( is_range( k ) ? 1 + r.below( 3 ) : 1 ) };
        fid[ v ]               = -1;
        late[ v ]              = v && r.chance( 1, 2 ) ? 1 + r.below( 2 ) : 0;
        if ( !late[ v ] )
            launch( v );
    }
    if ( run() < 0 )
        violation( "stuck", "victims did not reach their stalling point" );
    mark();
    for ( unsigned v = 0; v < nv; ++v )
        frozen += started( v ) && is_frozen( fid[ v ] );
    spawn( other_body, nullptr );
    if ( run() < 0 )
        violation( "stuck", "operations did not finish although only other threads are stalled" );
    // some go on for a few steps only and are stopped again; some start only now
    unsigned extra = r.chance( 2, 5 ) ? 0 : 1 + r.below( r.chance( 1, 2 ) ? 2 : 6 - nv ); // MAXT fibers in all
    for ( unsigned v = 0; v < nv; ++v )
        extra = std::max( extra, late[ v ] );
    for ( unsigned x = 0; x < extra; ++x ) {
        bool fresh = false;
        for ( unsigned v = 0; v < nv; ++v )
            if ( late[ v ] == x + 1 ) {
                launch( v );
                fresh = true;
            }
        if ( fresh && run() < 0 )
            violation( "stuck", "an operation did not finish although only other threads are stalled" );
        mark();
        unsigned v = r.below( nv );
        if ( !fresh || r.chance( 1, 2 ) ) {
            if ( !started( v ) || !is_frozen( fid[ v ] ) ) {
                if ( !fresh )
                    continue;
            } else {
                unfreeze( fid[ v ] );
                if ( !fresh || r.chance( 1, 2 ) ) // or to its end
                    freeze_at( fid[ v ], 1 + r.below( r.chance( 2, 3 ) ? ( r.chance( 1, 2 ) ? 2 : 4 ) : 12 ) );
                if ( run() < 0 )
                    violation( "stuck", "a resumed operation did not finish" );
                mark();
            }
        }
        plan.pre = 1 + r.below( 7 );
        plan.seed += 7;
        spawn( other2_body, nullptr );
        if ( run() < 0 )
            violation( "stuck", "operations did not finish although only other threads are stalled" );
    }
    unsigned mid_end = nlog;
    for ( unsigned v = 0; v < nv; ++v )
        if ( is_frozen( fid[ v ] ) )
            unfreeze( fid[ v ] );
    bool concurrent = r.chance( 1, 4 );
    if ( concurrent ) { // resumed while others go on
        plan.pre = 2 + r.below( 4 );
        spawn( other2_body, nullptr );
    }
    set_schedule( 0, 200 );
    if ( run() < 0 )
        violation( "stuck", "a resumed operation did not finish" );
    mark();
    // drain
    sync_point();
    for ( unsigned i = 0;; ++i ) {
        if ( nlog + 4000 > log_cap )
            reject( "more elements come out than were put in" );
        if ( !other_pop( i & 1 ) )
            break;
    }
    // judge
    stats.judged += frozen ? 1 : 0;
    struct Sub
    {
        uint8_t                 what; // 0 add list, 1 rem, 2 empty, 3 rem all
        std::vector< uint32_t > v;
    };
    std::vector< Sub > subs[ 3 ];
    for ( unsigned i = 0; i < nrec; ++i ) {
        Rec& rc = recs[ i ];
        unsigned victim = 0;
        while ( victim < nv && rc.tid != fid[ victim ] )
            ++victim;
        if ( victim == nv )
            continue;
        if ( !rc.done )
            reject( "an operation never returned" );
        if ( rc.bad )
            reject( "a stalled operation received a torn element" );
        auto& s = subs[ victim ];
        if ( is_push( rc.kind ) ) {
            if ( rc.ret )
                s.push_back( { 0, std::vector< uint32_t >( rc.in, rc.in + rc.ret ) } );
        } else if ( is_caa( rc.kind ) ) {
            std::vector< uint32_t > v( rc.out, rc.out + rc.n_out );
            if ( rc.kind == CAA )
                std::reverse( v.begin(), v.end() );
            if ( v.empty() )
                s.push_back( { 2, {} } );
            else
                s.push_back( { 3, v } );
        } else if ( is_call( rc.kind ) ) {
            for ( unsigned k = 0; k < rc.n_out; ++k )
                s.push_back( { 1, { rc.out[ k ] } } );
            s.push_back( { 2, {} } );
        } else if ( rc.n_out )
            s.push_back( { 1, { rc.out[ 0 ] } } );
        else
            s.push_back( { 2, {} } );
    }
    auto add1 = [ & ]( Hyp& q, uint32_t v ) { q.st.push_back( v ); };
    auto rem1 = [ & ]( Hyp& q, uint32_t v ) {
        if ( q.st.empty() || ( LIFO ? q.st.back() : q.st.front() ) != v )
            return false;
        if ( LIFO )
            q.st.pop_back();
        else
            q.st.erase( q.st.begin() );
        return true;
    };
    auto closure = [ & ]( uint32_t i ) { // let stalled operations take effect
        std::vector< Hyp > work( hyps.begin(), hyps.end() );
        while ( !work.empty() ) {
            Hyp q = work.back();
            work.pop_back();
            for ( unsigned v = 0; v < nv; ++v )
                if ( begin_at[ v ] <= i && q.prog[ v ] < subs[ v ].size() ) {
                    Sub& s  = subs[ v ][ q.prog[ v ] ];
                    Hyp  q2 = q;
                    ++q2.prog[ v ];
                    bool ok = true;
                    if ( s.what == 0 )
                        for ( uint32_t x : s.v )
                            add1( q2, x );
                    else if ( s.what == 1 )
                        ok = rem1( q2, s.v[ 0 ] );
                    else if ( s.what == 2 )
                        ok = q2.st.empty();
                    else {
                        ok = q2.st == s.v;
                        q2.st.clear();
                    }
                    if ( ok && hyps.insert( q2 ).second )
                        work.push_back( q2 );
                }
        }
        if ( hyps.size() > 4000 ) { // cannot happen with these sizes; give up on this one
            ++stats.skipped;
            return false;
        }
        return true;
    };
    auto returned = [ & ]( uint32_t i ) { // operations that have returned by now must have taken effect
        for ( unsigned v = 0; v < nv; ++v ) {
            if ( done_at[ v ] > i )
                continue;
            for ( auto it = hyps.begin(); it != hyps.end(); )
                it = it->prog[ v ] == subs[ v ].size() ? std::next( it ) : hyps.erase( it );
            if ( hyps.empty() )
                reject( "the operation of thread %u fits nowhere between its call and its return (target %llu)", v, (unsigned long long)plan.target );
        }
    };
    bool given_up = false;
    for ( unsigned i = 0; i < nlog && !given_up; ++i ) {
        LogOp           l     = logv[ i ];
        bool            glued = l.what & GLUED;
        l.what &= ~GLUED;
        if ( i >= pro_end && !glued ) {
            if ( !closure( i ) ) {
                given_up = true;
                break;
            }
            returned( i );
        }
        std::set< Hyp > next;
        for ( Hyp const& q : hyps ) {
            Hyp q2 = q;
            if ( l.what == 0 ) {
                add1( q2, l.v );
                next.insert( q2 );
            } else if ( l.what == 1 ) {
                if ( rem1( q2, l.v ) )
                    next.insert( q2 );
            } else if ( l.what == 2 ) {
                if ( q2.st.empty() )
                    next.insert( q2 );
            } else
                next.insert( q2 );
        }
        if ( next.empty() ) {
            char b[ 200 ];
            snprintf( b, sizeof b, "operation %u of the others (%s %u) contradicts every order (target %llu)", i - pro_end,
                      l.what == 0 ? "push" : l.what == 1 ? "pop" : "empty", l.v, (unsigned long long)plan.target );
            reject( "%s", b );
        }
        hyps.swap( next );
    }
    if ( !given_up ) {
        closure( nlog );
        bool fin = false;
        for ( Hyp const& q : hyps )
            fin |= q.st.empty() && q.prog[ 0 ] == subs[ 0 ].size() && q.prog[ 1 ] == subs[ 1 ].size() && q.prog[ 2 ] == subs[ 2 ].size();
        if ( !fin )
            reject( "the resumed operation fits nowhere in the order, or elements were lost (target %llu)", (unsigned long long)plan.target );
    }
    { // conservation in any case
        std::vector< uint8_t > in( next_id + 1 ), out( next_id + 1 );
        auto                   put = [ & ]( uint32_t v ) { in[ v ] = 1; };
        auto                   tak = [ & ]( uint32_t v ) {
            if ( v > next_id || out[ v ]++ )
                reject( "element %u was delivered twice", v );
        };
        for ( unsigned v = 0; v < 3; ++v )
            for ( Sub& s : subs[ v ] )
                for ( uint32_t x : s.v )
                    s.what == 0 ? put( x ) : tak( x );
        for ( unsigned i = 0; i < nlog; ++i )
            if ( ( logv[ i ].what & ~GLUED ) == 0 )
                put( logv[ i ].v );
            else if ( ( logv[ i ].what & ~GLUED ) == 1 )
                tak( logv[ i ].v );
        for ( uint32_t v = 1; v < next_id; ++v ) {
            if ( in[ v ] && !out[ v ] )
                reject( "element %u was lost", v );
            if ( out[ v ] && !in[ v ] )
                reject( "element %u was delivered but never successfully pushed", v );
        }
    }
    // the pool is intact: every node is there exactly once
    if ( TRACK || FIXED ) {
        uint64_t places = FIXED ? n : AS->nodes - DUMMY;
        uint64_t k      = 0;
        while ( k <= places + 2 && other_push( true ) )
            if ( ++k > places + 2 || nlog + 8 > log_cap )
                break;
        if ( k != places )
            reject( "the node pool holds %llu free nodes after the stall, %llu expected", (unsigned long long)k, (unsigned long long)places );
        for ( ; k > 0; --k )
            if ( !other_pop( 0 ) )
                reject( "elements lost while emptying the refilled structure" );
        if ( other_pop( 0 ) )
            reject( "elements duplicated while emptying the refilled structure" );
    }
    if ( frozen ) {
        ++stats.nontrivial;
        stats.seen.insert( mix( sched_hash(), nlog * 31 + nrec ) );
        if ( stats.sample.empty() && !big && nlog > pro_end + 4 ) {
            stats.sample = std::string( context ) + "\nstalled:\n" + describe();
            for ( unsigned i = 0; i < nlog && i < 40; ++i )
                stats.sample += std::string( i == pro_end ? "| " : "" ) + ( logv[ i ].what & GLUED ? "+" : "" ) + ( ( logv[ i ].what & 7 ) == 0 ? "push " : ( logv[ i ].what & 7 ) == 1 ? "pop " : ( logv[ i ].what & 7 ) == 2 ? "empty " : "refused " ) + std::to_string( logv[ i ].v ) + ", ";
        }
    }
    destroy();
    if ( live_blocks() )
        reject( "%llu blocks leaked after a stall", (unsigned long long)live_blocks() );
    exec_end();
}

// ---------------------------------------------------------------- lock-freedom
static void exec_freeze( uint64_t idx )
{
    uint64_t es = mix( args.seed, idx * 2 + 1 );
    Rng      r( es );
    Options  o;
    o.seed = idx;
    schedule( o, r, true );
    if ( r.chance( 1, 4 ) )
        o.weakfail = 5 + r.below( 16 );
    bool solo   = r.chance( 3, 4 ); // survivors run alone (own step bound) or together (system-wide progress)
    o.run_bound = 3000000;
    begin_exec( o, r, solo ? "solo" : "together" );
    big        = false;
    unsigned n = CT ? CAP : r.below( 4 );
    n_init     = n;
    construct( n );
    unsigned pro = r.below( 6 );
    for ( unsigned i = 0; i < pro; ++i )
        perform( r.chance( 2, 3 ) ? PUSH : POP, 1 );
    unsigned nv = 1 + r.below( 3 ), ns = solo ? 1 + r.below( 2 ) : 1 + r.below( 3 );
    Mix      m  = random_mix( r );
    for ( unsigned t = 0; t < nv + ns; ++t ) {
        unsigned len = t < nv ? 1 + r.below( 4 ) : 4 + r.below( 8 );
        slen[ t ]    = len;
        for ( unsigned i = 0; i < len; ++i ) {
            Kind k           = draw( m, r );
            if ( NODE && r.chance( 1, 40 ) )
                k = RESERVE;
            script[ t ][ i ] = { k, uint8_t( arg_for( k, r ) ) };
        }
    }
    // victims run together until each reaches its point
    unsigned frozen_in = 0;
    for ( unsigned t = 0; t < nv; ++t )
        spawn( fiber_body, (void*)(intptr_t)t );
    for ( unsigned t = 0; t < nv; ++t )
        freeze_at( t, 1 + r.below( LIFO ? 40 : 70 ) );
    {
        if ( run() < 0 )
            violation( "blocked", "operations made no progress within 3000000 steps" );
        for ( unsigned t = 0; t < nv; ++t )
            frozen_in += is_frozen( t ) && in_op( t );
        // the victims never move again
        if ( solo ) {
            bound_base = 1500;
            bound_per  = 400;
            for ( unsigned s = 0; s < ns; ++s ) {
                spawn( fiber_body, (void*)(intptr_t)( nv + s ) );
                if ( run() < 0 )
                    violation( "blocked", "a thread running alone did not finish its operations" );
            }
        } else {
            for ( unsigned s = 0; s < ns; ++s )
                spawn( fiber_body, (void*)(intptr_t)( nv + s ) );
            bound_base = 0;
            if ( run() < 0 )
                violation( "blocked", "threads kept taking steps but %u operations were never completed", ns );
        }
    }
    if ( frozen_in ) {
        ++stats.nontrivial;
        stats.seen.insert( hist_hash() );
        if ( stats.sample.empty() )
            stats.sample = std::string( context ) + "\n" + describe( 0, 20 );
    }
    stats.judged += frozen_in;
    exec_end(); // threads are still inside: no destruction
}

int main( int argc, char** argv )
{
    args = parse( argc, argv );
    init();
    set_dump( dump );
    capture_ops( !TRACK );
    for ( uint64_t i = args.from; i < args.from + args.n; ++i ) {
        if ( args.mode == "lin" || args.mode == "wm" )
            exec_lin( i );
        else if ( args.mode.substr( 0, 3 ) == "aba" )
            exec_aba( i );
        else if ( args.mode == "freeze" )
            exec_freeze( i );
        else
            return 4;
    }
    print_result( args );
    return 0;
}
