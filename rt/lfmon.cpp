#include "lfmon.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" void* __real_malloc( size_t );
extern "C" void  __real_free( void* );
extern "C" void* __real_memset( void*, int, size_t );
extern "C" void* __real_memcpy( void*, void const*, size_t );
extern "C" void* __real_memmove( void*, void const*, size_t );
extern "C" int   __real_posix_memalign( void**, size_t, size_t );
namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals();
} // namespace __cxxabiv1

namespace lfmon {

Counters total, cur;
char     context[ 1024 ];
static void ( *dump_fn )() = nullptr;
void set_dump( void ( *fn )() ) { dump_fn = fn; }

// ------------------------------------------------------------------------------------------------ state
static Options opt;
static Rng     R( 1 );
static uint64_t step_ctr;   // logical time of this execution
static uint64_t run_start;  // step at start of run()
static uint64_t progress;   // watchdog
static uint64_t hash_;

// the monitor's own memory is never that of the program under test
template < class T >
struct OwnMem
{
    typedef T value_type;
    OwnMem() {}
    template < class U >
    OwnMem( OwnMem< U > const& )
    {}
    T* allocate( size_t n )
    {
        void* p = __real_malloc( n * sizeof( T ) );
        if ( !p )
            abort();
        return (T*)p;
    }
    void deallocate( T* p, size_t ) { __real_free( p ); }
    bool operator==( OwnMem const& ) const { return true; }
    bool operator!=( OwnMem const& ) const { return false; }
};
template < class T >
using vec = std::vector< T, OwnMem< T > >;
template < class T >
static T* make()
{
    return new ( OwnMem< T >().allocate( 1 ) ) T;
}

struct View
{
    vec< uint32_t > idx; // by location
    uint32_t                clk[ NT ];
    View() { memset( clk, 0, sizeof clk ); }
    void clear()
    {
        idx.clear();
        memset( clk, 0, sizeof clk );
    }
    uint32_t get( uint32_t l ) const { return l < idx.size() ? idx[ l ] : 0; }
    void     put( uint32_t l, uint32_t v )
    {
        if ( l >= idx.size() )
            idx.resize( l + 1, 0 );
        if ( idx[ l ] < v )
            idx[ l ] = v;
    }
    void join_idx( View const& o )
    {
        if ( idx.size() < o.idx.size() )
            idx.resize( o.idx.size(), 0 );
        for ( size_t i = 0; i < o.idx.size(); ++i )
            if ( idx[ i ] < o.idx[ i ] )
                idx[ i ] = o.idx[ i ];
    }
    void join( View const& o )
    {
        join_idx( o );
        for ( int i = 0; i < NT; ++i )
            if ( clk[ i ] < o.clk[ i ] )
                clk[ i ] = o.clk[ i ];
    }
};

// release views attached to stores: pooled per execution
static vec< View* > view_pool;
static size_t               view_used;
static View*                new_view()
{
    if ( view_used == view_pool.size() )
        view_pool.push_back( make< View >() );
    View* v = view_pool[ view_used++ ];
    v->clear();
    return v;
}

struct Entry
{
    uint64_t value;
    uint8_t  mask;
    bool     plain; // written by a plain access: orders later reads of its readers, but gives no happens-before
    View*    rel;
};
struct Loc
{
    uint32_t             word;
    vec< Entry > hist;
};
static vec< Loc > locs; // reused storage; nlocs valid
static uint32_t           nlocs;

struct RaceWord // byte-precise access clocks
{
    uint32_t w[ NT ][ 8 ], r[ NT ][ 8 ]; // plain
    uint32_t aw[ NT ], ar[ NT ];         // atomic (word granularity)
};
static vec< RaceWord* > race_pool;
static size_t                   race_used;

struct Shadow
{
    uint8_t  live, init, freed;
    uint8_t  flags; // 1 strict, 2 block start, 4 object alive, 8 race word present
    uint32_t loc;   // loc id + 1
    uint32_t race;  // race word id + 1
    uint32_t blk;   // block size (at block start) / object size (at object start)
};
static Shadow* sh;
static size_t  arena_top; // bytes used
static size_t  arena_dirty; // bytes of arena used by the previous execution
static uint64_t nblocks;
static size_t   nobjects;
static bool     cap_ops; // capture what monitored operations allocate
static bool     capture_on;

struct StaleSwap
{
    uintptr_t word_addr;
    uint64_t  actual, stale;
};

struct Fiber
{
    void*  sp;
    char*  stack;
    void ( *fn )( void* );
    void* arg;
    bool  used, done, frozen, in_op, no_alloc;
    uint64_t events, freeze_ev;
    uint64_t op_start, steps, bound;
    uint32_t prio;
    View     v, acq, rel;
    bool     have_rel;
    struct { uintptr_t a; size_t n; bool on; } pw;
    StaleSwap ss[ 8 ];
    int       nss;
    struct { void const* p; size_t n; uint32_t clk; int raced; } spec;
    uint64_t  eh[ 2 ];
};
static Fiber fb[ NT ];
static int   nf;       // spawned
static int   curf;     // running fiber or MAXT
static bool  running;
static uint64_t pct_points[ 16 ];
static int   n_pct;
static uint32_t pct_low;
static uint32_t countdown;
static uint32_t rr_left;
static bool  stuck_;
static uint64_t since_switch;

constexpr size_t STACK = 256 * 1024;

// ------------------------------------------------------------------------------------------------ report
void violation( char const* kind, char const* fmt, ... )
{
    static bool nested = false;
    char        buf[ 2048 ];
    va_list     ap;
    va_start( ap, fmt );
    vsnprintf( buf, sizeof buf, fmt, ap );
    va_end( ap );
    for ( char* c = buf; *c; ++c )
        if ( *c == '"' || *c == '\n' || *c == '\\' )
            *c = ' ';
    printf( "LFMON-VIOLATION {\"kind\":\"%s\",\"msg\":\"%s\",\"step\":%llu,\"fiber\":%d,\"context\":\"%s\"}\n", kind, buf,
            (unsigned long long)step_ctr, curf, context );
    fflush( stdout );
    if ( !nested && dump_fn ) {
        nested = true;
        dump_fn();
    }
    fflush( stdout );
    _exit( 1 );
}

static void on_fault( int sig, siginfo_t* si, void* )
{
    static int once = 0;
    if ( once++ )
        _exit( 1 );
    violation( "crash", "signal %d at address %p", sig, si ? si->si_addr : nullptr );
}
static uint64_t last_progress;
static int      idle_ticks;
static void     on_tick( int )
{
    if ( progress != last_progress ) {
        last_progress = progress;
        idle_ticks    = 0;
        return;
    }
    if ( ++idle_ticks >= 6 ) { // 12 s of CPU without a single event
        if ( running && in_op( curf ) )
            violation( "hang", "an operation runs without end" );
        violation( "hang", "no monitored event for a long time" );
    }
}

// ------------------------------------------------------------------------------------------------ switch
extern "C" void lfmon_switch( void** from, void** to );
asm( R"(
.text
.globl lfmon_switch
.type lfmon_switch,@function
lfmon_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq (%rsi),%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size lfmon_switch,.-lfmon_switch
)" );

static void switch_to( int t )
{
    int f = curf;
    if ( f == t )
        return;
    uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals();
    fb[ f ].eh[ 0 ] = g[ 0 ];
    fb[ f ].eh[ 1 ] = g[ 1 ];
    g[ 0 ]          = fb[ t ].eh[ 0 ];
    g[ 1 ]          = fb[ t ].eh[ 1 ];
    curf            = t;
    ++cur.switches;
    if ( f != MAXT && fb[ f ].in_op && !fb[ f ].done )
        ++cur.preempt_in_op;
    hash_ = ( hash_ ^ ( step_ctr * 31 + t ) ) * 0x100000001B3ull;
    since_switch = 0;
    lfmon_switch( &fb[ f ].sp, &fb[ t ].sp );
}

static bool can_run( int i ) { return fb[ i ].used && !fb[ i ].done && !fb[ i ].frozen; }

static int pick( bool allow_self )
{
    int cand[ MAXT ], n = 0;
    for ( int i = 0; i < nf; ++i )
        if ( can_run( i ) && ( allow_self || i != curf ) )
            cand[ n++ ] = i;
    if ( !n )
        return -1;
    if ( opt.strategy == 1 ) {
        int best = cand[ 0 ];
        for ( int i = 1; i < n; ++i )
            if ( fb[ cand[ i ] ].prio > fb[ best ].prio )
                best = cand[ i ];
        return best;
    }
    if ( opt.strategy == 2 ) {
        for ( int k = 1; k <= nf; ++k ) {
            int i = ( ( curf == MAXT ? -1 : curf ) + k + nf ) % nf;
            if ( can_run( i ) && ( allow_self || i != curf ) )
                return i;
        }
    }
    return cand[ R.below( n ) ];
}

static void draw_countdown()
{
    if ( opt.switch_pm >= 1000 ) {
        countdown = 1;
        return;
    }
    if ( !opt.switch_pm ) {
        countdown = ~0u;
        return;
    }
    uint32_t c = 1;
    while ( c < 100000 && !R.chance( opt.switch_pm, 1000 ) )
        ++c;
    countdown = c;
}

static void finalize( Fiber& f );
static bool tracing_; // LFMON_TRACE: print every monitored event
#define TR( ... )                                                                                                      \
    do {                                                                                                               \
        if ( __builtin_expect( tracing_, 0 ) )                                                                         \
            printf( __VA_ARGS__ );                                                                                     \
    } while ( 0 )

static void to_main() { switch_to( MAXT ); }

static void stop_or( int t )
{
    if ( t < 0 )
        to_main();
    else
        switch_to( t );
}

// called before every monitored access made by a fiber
static void sched_point()
{
    Fiber& f = fb[ curf ];
    ++f.events;
    ++step_ctr;
    ++progress;
    ++cur.steps;
    if ( f.in_op ) {
        ++f.steps;
        if ( f.bound && f.steps > f.bound ) {
            if ( opt.monitors & MON_STEPS )
                violation( "steps", "an operation has taken %llu of its own steps (bound %llu)", (unsigned long long)f.steps,
                           (unsigned long long)f.bound );
        }
    }
    if ( step_ctr - run_start > opt.run_bound ) {
        stuck_ = true;
        to_main(); // never resumed
    }
    if ( f.events >= f.freeze_ev ) {
        f.freeze_ev = ~0ull;
        f.frozen    = true;
        stop_or( pick( false ) );
        return; // unfrozen later
    }
    int t = -1;
    switch ( opt.strategy ) {
    case 0:
        if ( --countdown == 0 ) {
            draw_countdown();
            t = pick( false );
        }
        break;
    case 1:
        for ( int i = 0; i < n_pct; ++i )
            if ( pct_points[ i ] == step_ctr - run_start )
                f.prio = --pct_low;
        if ( ++since_switch > 3000 ) { // fairness backstop
            f.prio       = --pct_low;
            since_switch = 0;
        }
        t = pick( true );
        break;
    case 2:
        if ( rr_left-- == 0 ) {
            t = pick( false );
            if ( opt.slow < 0 )
                rr_left = opt.quantum;
            else
                rr_left = ( t < 0 ? curf : t ) == opt.slow ? ( R.chance( opt.slow_pc, 100 ) ? 0 : R.below( 4 ) ) : opt.quantum / 2 + R.below( opt.quantum );
        }
        break;
    }
    if ( t >= 0 && t != curf )
        switch_to( t );
}

static void fiber_main()
{
    Fiber& f = fb[ curf ];
    f.fn( f.arg );
    Fiber& g = fb[ curf ];
    finalize( g );
    g.done = true;
    stop_or( pick( false ) );
    abort();
}

int spawn( void ( *fn )( void* ), void* arg )
{
    finalize( fb[ MAXT ] );
    int    i = nf++;
    if ( i >= MAXT ) {
        fprintf( stderr, "lfmon: too many fibers\n" );
        _exit( 3 );
    }
    Fiber& f = fb[ i ];
    if ( !f.stack ) {
        f.stack = (char*)mmap( nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
        mprotect( f.stack, 4096, PROT_NONE );
        f.stack += 4096;
    }
    f.fn = fn, f.arg = arg;
    f.used = true, f.done = f.frozen = f.in_op = f.no_alloc = false;
    f.events = 0, f.freeze_ev = ~0ull, f.steps = 0, f.bound = 0;
    f.pw.on = false, f.nss = 0, f.spec.p = nullptr;
    f.eh[ 0 ] = f.eh[ 1 ] = 0;
    if ( opt.hb ) {
        f.v = fb[ MAXT ].v;
        ++f.v.clk[ i ];
        f.acq.clear();
        f.rel.clear();
        f.have_rel = false;
        ++fb[ MAXT ].v.clk[ MAXT ];
    }
    uint64_t* sp = (uint64_t*)( f.stack + STACK );
    *--sp        = 0; // alignment: at entry rsp % 16 == 8
    *--sp        = (uint64_t)&fiber_main;
    for ( int k = 0; k < 6; ++k )
        *--sp = 0;
    f.sp   = sp;
    f.prio = 0;
    return i;
}

int run()
{
    finalize( fb[ MAXT ] );
    run_start = step_ctr;
    stuck_    = false;
    draw_countdown();
    rr_left = opt.slow < 0 ? opt.quantum : R.below( 3 );
    if ( opt.strategy == 1 ) {
        for ( int i = 0; i < nf; ++i )
            fb[ i ].prio = 1000000 + ( R.next() & 0xFFFFF );
        pct_low = 1000000;
        n_pct   = opt.pct_depth > 16 ? 16 : opt.pct_depth;
        for ( int i = 0; i < n_pct; ++i )
            pct_points[ i ] = 1 + R.below( opt.est_len );
    }
    running = true;
    int t   = pick( true );
    if ( t >= 0 )
        switch_to( t );
    running = false;
    if ( stuck_ ) {
        ++cur.stuck;
        return -1;
    }
    int fr = 0;
    for ( int i = 0; i < nf; ++i )
        fr += fb[ i ].frozen && !fb[ i ].done;
    return fr;
}

void freeze_at( int i, uint64_t n ) { fb[ i ].freeze_ev = fb[ i ].events + ( n ? n : 1 ); }
void unfreeze( int i )
{
    fb[ i ].frozen    = false;
    fb[ i ].freeze_ev = ~0ull;
}
bool is_frozen( int i ) { return fb[ i ].frozen; }
bool is_done( int i ) { return fb[ i ].done; }
bool in_op( int i ) { return fb[ i ].in_op; }
int  self() { return curf; }
void set_schedule( uint32_t s, uint32_t pm )
{
    opt.strategy  = s;
    opt.switch_pm = pm;
}
uint64_t sched_hash() { return hash_; }

void sync_point()
{
    if ( !opt.hb )
        return;
    Fiber& m = fb[ MAXT ];
    finalize( m );
    for ( int i = 0; i < nf; ++i )
        if ( fb[ i ].used )
            m.v.join( fb[ i ].v );
    for ( uint32_t l = 0; l < nlocs; ++l )
        m.v.put( l, locs[ l ].hist.size() - 1 );
    for ( int i = 0; i < nf; ++i )
        if ( fb[ i ].used ) {
            fb[ i ].v.join( m.v );
            ++fb[ i ].v.clk[ i ];
        }
    ++m.v.clk[ MAXT ];
}

Stamp stamp_now()
{
    Stamp s;
    s.step = step_ctr;
    s.tid  = curf;
    if ( opt.hb )
        memcpy( s.clk, fb[ curf ].v.clk, sizeof s.clk );
    return s;
}
Stamp op_begin( uint64_t bound )
{
    Fiber& f = fb[ curf ];
    ++step_ctr;
    f.in_op = true;
    f.spec.p = nullptr;
    f.steps = 0;
    f.bound = bound;
    ++cur.ops;
    return stamp_now();
}
Stamp op_end()
{
    Fiber& f = fb[ curf ];
    finalize( f );
    ++step_ctr;
    Stamp s = stamp_now();
    if ( opt.hb )
        ++f.v.clk[ curf ];
    f.in_op = f.no_alloc = false;
    if ( f.steps > cur.max_op_steps )
        cur.max_op_steps = f.steps;
    f.bound = 0;
    return s;
}
void     forbid_alloc() { fb[ curf ].no_alloc = true; }
void     set_bound( uint64_t b ) { fb[ curf ].bound = b; }
uint64_t op_steps() { return fb[ curf ].steps; }
uint64_t step_now() { return ++step_ctr; }
bool     hb( Stamp const& e, Stamp const& b )
{
    if ( !opt.hb )
        return e.step < b.step;
    return b.clk[ e.tid ] > e.clk[ e.tid ] || ( e.tid == b.tid && e.step < b.step );
}

// ------------------------------------------------------------------------------------------------ memory
static inline size_t widx( uintptr_t a ) { return ( a - ARENA_BASE ) >> 3; }
static inline bool   inside( uintptr_t a ) { return a - ARENA_BASE < ARENA_SIZE; }
static inline uint8_t bmask( uintptr_t a, size_t n ) // bytes of the word holding a
{
    unsigned o = a & 7;
    unsigned m = n + o >= 8 ? 0xFFu : ( ( 1u << ( n + o ) ) - 1 );
    return uint8_t( m & ( 0xFFu << o ) );
}
template < class F >
static inline void words( uintptr_t a, size_t n, F f )
{
    while ( n ) {
        size_t k = 8 - ( a & 7 );
        if ( k > n )
            k = n;
        f( widx( a ), bmask( a, k ) );
        a += k;
        n -= k;
    }
}
static uint64_t* wptr( size_t w ) { return (uint64_t*)( ARENA_BASE + 8 * w ); }
static uint64_t  expand( uint8_t m )
{
    uint64_t r = 0;
    for ( int i = 0; i < 8; ++i )
        if ( m >> i & 1 )
            r |= 0xFFull << ( 8 * i );
    return r;
}

void* alloc( size_t size, size_t align, int flags )
{
    if ( align < 8 )
        align = 8;
    size_t p = ( arena_top + 16 + align - 1 ) & ~( align - 1 );
    if ( p + size + 64 > ARENA_SIZE ) {
        fprintf( stderr, "lfmon: arena exhausted\n" );
        _exit( 3 );
    }
    arena_top   = p + ( ( size + 7 ) & ~size_t( 7 ) ) + 16;
    uintptr_t a = ARENA_BASE + p;
    __real_memset( (void*)a, 0xCD, size );
    words( a, size, [ & ]( size_t w, uint8_t m ) {
        sh[ w ].live |= m;
        if ( flags & A_STRICT )
            sh[ w ].flags |= 1;
    } );
    if ( flags & A_BLOCK ) {
        sh[ widx( a ) ].flags |= 2;
        sh[ widx( a ) ].blk = (uint32_t)size;
        ++nblocks;
    }
    return (void*)a;
}
static void retire( uintptr_t a, size_t size )
{
    words( a, size, []( size_t w, uint8_t m ) {
        sh[ w ].live &= ~m;
        sh[ w ].freed |= m;
        sh[ w ].flags &= ~4;
    } );
}
void release( void* p, size_t size )
{
    uintptr_t a = (uintptr_t)p;
    if ( !p )
        return;
    if ( !inside( a ) || !( sh[ widx( a ) ].flags & 2 ) || ( a & 7 ) ) {
        if ( opt.monitors & MON_HEAP )
            violation( "bad-free", "freeing %p which is no live block", p );
        return;
    }
    if ( sh[ widx( a ) ].freed & 1 ) {
        if ( opt.monitors & MON_HEAP )
            violation( "double-free", "block %p freed twice", p );
        return;
    }
    if ( size != 0 && sh[ widx( a ) ].blk != size && ( opt.monitors & MON_HEAP ) )
        violation( "bad-free", "block of %u bytes freed as %zu bytes", sh[ widx( a ) ].blk, size );
    --nblocks;
    retire( a, sh[ widx( a ) ].blk );
}
void drop( void* p, size_t size ) { retire( (uintptr_t)p, size ); }
void declare_init( void* p, size_t size )
{
    words( (uintptr_t)p, size, []( size_t w, uint8_t m ) { sh[ w ].init |= m; } );
}
void set_strict( void* p, size_t size, bool on )
{
    words( (uintptr_t)p, size, [ & ]( size_t w, uint8_t ) {
        if ( on )
            sh[ w ].flags |= 1;
        else
            sh[ w ].flags &= ~1;
    } );
}
uint64_t live_blocks() { return nblocks; }
size_t   live_objects() { return nobjects; }
Capture::Capture( bool on ) : old( capture_on ) { capture_on = on; }
Capture::~Capture() { capture_on = old; }
void capture_ops( bool on ) { cap_ops = on; }

void count_alloc()
{
    ++cur.allocs;
    if ( fb[ curf ].in_op ) {
        ++cur.alloc_in_op;
        if ( ( opt.monitors & MON_ALLOC ) && fb[ curf ].no_alloc )
            violation( "alloc", "allocator asked for memory inside an operation that must not allocate" );
    }
}
void count_free()
{
    ++cur.frees;
    if ( fb[ curf ].in_op ) {
        ++cur.free_in_op;
        if ( ( opt.monitors & MON_ALLOC ) && fb[ curf ].no_alloc )
            violation( "alloc", "memory given back to the allocator inside an operation" );
    }
}
static void count_heap()
{
    if ( fb[ curf ].in_op && ( capture_on || cap_ops ) ) {
        ++cur.heap_in_op;
        if ( ( opt.monitors & MON_ALLOC ) && fb[ curf ].no_alloc )
            violation( "alloc", "heap used inside an operation that must not allocate" );
    }
}

static void heap_check( uintptr_t a, size_t n, bool write )
{
    ++cur.heap_checks;
    bool bad = false, freed = false, uninit = false;
    words( a, n, [ & ]( size_t w, uint8_t m ) {
        if ( ( sh[ w ].live & m ) != m ) {
            bad = true;
            if ( sh[ w ].freed & m )
                freed = true;
        } else if ( !write && ( sh[ w ].init & m ) != m )
            uninit = true;
        if ( write )
            sh[ w ].init |= m & sh[ w ].live;
    } );
    if ( !( opt.monitors & MON_HEAP ) )
        return;
    if ( bad )
        violation( freed ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at arena+0x%zx outside live memory",
                   write ? "write" : "read", n, size_t( a - ARENA_BASE ) );
    if ( uninit )
        violation( "uninitialised", "read of %zu bytes at arena+0x%zx never written", n, size_t( a - ARENA_BASE ) );
}

// ------------------------------------------------------------------------------------------------ races
static RaceWord& race_word( size_t w )
{
    if ( !sh[ w ].race ) {
        if ( race_used == race_pool.size() )
            race_pool.push_back( make< RaceWord >() );
        memset( race_pool[ race_used ], 0, sizeof( RaceWord ) );
        sh[ w ].race = ++race_used;
    }
    return *race_pool[ sh[ w ].race - 1 ];
}
enum Acc { PR, PW, AR, AW };
static char const* acc_name[] = { "plain read", "plain write", "atomic read", "atomic write" };
static void race_access( uintptr_t a, size_t n, Acc k, int t, uint32_t at_clk, uint32_t const* vc, char const* what )
{
    ++cur.race_checks;
    words( a, n, [ & ]( size_t w, uint8_t m ) {
        RaceWord& rw = race_word( w );
        for ( int u = 0; u < NT; ++u ) {
            if ( u == t )
                continue;
            Acc  o   = PR;
            bool bad = false;
            for ( int b = 0; b < 8 && !bad; ++b )
                if ( m >> b & 1 ) {
                    if ( rw.w[ u ][ b ] > vc[ u ] )
                        bad = true, o = PW;
                    else if ( ( k == PW || k == AW ) && rw.r[ u ][ b ] > vc[ u ] )
                        bad = true, o = PR;
                }
            if ( !bad && ( k == PR || k == PW ) && rw.aw[ u ] > vc[ u ] )
                bad = true, o = AW;
            if ( !bad && k == PW && rw.ar[ u ] > vc[ u ] )
                bad = true, o = AR;
            if ( bad )
                violation( "data-race", "%s (%s) by thread %d at arena+0x%zx races with %s by thread %d", acc_name[ k ], what, t,
                           size_t( a - ARENA_BASE ), acc_name[ o ], u );
        }
        switch ( k ) {
        case PR:
            for ( int b = 0; b < 8; ++b )
                if ( m >> b & 1 )
                    rw.r[ t ][ b ] = at_clk;
            break;
        case PW:
            for ( int b = 0; b < 8; ++b )
                if ( m >> b & 1 )
                    rw.w[ t ][ b ] = at_clk;
            break;
        case AR: rw.ar[ t ] = at_clk; break;
        case AW: rw.aw[ t ] = at_clk; break;
        }
    } );
}

// ------------------------------------------------------------------------------------------------ histories
static Loc& loc_of( size_t w )
{
    if ( !sh[ w ].loc ) {
        if ( nlocs == locs.size() )
            locs.emplace_back();
        Loc& l = locs[ nlocs ];
        l.word = w;
        l.hist.clear();
        l.hist.push_back( Entry { *wptr( w ), 0xFF, false, nullptr } );
        sh[ w ].loc = ++nlocs;
    }
    return locs[ sh[ w ].loc - 1 ];
}
static uint64_t compose( Loc const& l, uint32_t upto )
{
    uint64_t v    = 0;
    uint8_t  need = 0xFF;
    for ( int64_t i = upto; i >= 0 && need; --i ) {
        uint8_t m = l.hist[ i ].mask & need;
        if ( m ) {
            v |= l.hist[ i ].value & expand( m );
            need &= ~m;
        }
    }
    return v;
}
static void append( size_t w, uint8_t m, uint64_t value, View* rel, bool plain_write )
{
    Loc& l = loc_of( w );
    l.hist.push_back( Entry { value, m, plain_write, rel } );
    fb[ curf ].v.put( sh[ w ].loc - 1, l.hist.size() - 1 );
}

static void finalize( Fiber& f )
{
    while ( f.nss ) {
        StaleSwap& s = f.ss[ --f.nss ];
        uint64_t*  p = (uint64_t*)s.word_addr;
        if ( *p == s.stale )
            *p = s.actual;
        else { // bytes changed meanwhile are kept
            uint64_t keep = 0;
            for ( int b = 0; b < 8; ++b )
                if ( ( *p >> 8 * b & 0xFF ) != ( s.stale >> 8 * b & 0xFF ) )
                    keep |= 0xFFull << 8 * b;
            *p = ( *p & keep ) | ( s.actual & ~keep );
        }
    }
    if ( f.pw.on ) {
        f.pw.on = false;
        View* v = new_view();
        v->join_idx( f.v );
        words( f.pw.a, f.pw.n, [ v ]( size_t w, uint8_t m ) {
            append( w, m, *wptr( w ), v, true );
            v->put( sh[ w ].loc - 1, locs[ sh[ w ].loc - 1 ].hist.size() - 1 );
        } );
    }
}

static inline bool is_acq( int mo ) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// Plain accesses to node memory race by design (speculative reads, free-list links). They are given the meaning
// they have on the target: in order, like acquire loads and release stores, but they establish no happens-before.
constexpr int MO_PLAIN = 100;

// thread reads word w at entry i
static void observe( Fiber& f, size_t w, uint32_t i, uint8_t m, int mo )
{
    uint32_t lid = sh[ w ].loc - 1;
    Loc&     l   = locs[ lid ];
    f.v.put( lid, i );
    // the release views of the stores the bytes come from
    uint8_t need = m;
    for ( int64_t k = i; k >= 0 && need; --k ) {
        if ( !( l.hist[ k ].mask & need ) )
            continue;
        need &= ~l.hist[ k ].mask;
        if ( l.hist[ k ].rel ) {
            if ( mo == MO_PLAIN || ( l.hist[ k ].plain && is_acq( mo ) ) )
                f.v.join_idx( *l.hist[ k ].rel );
            else if ( l.hist[ k ].plain )
                ;
            else if ( is_acq( mo ) )
                f.v.join( *l.hist[ k ].rel );
            else
                f.acq.join( *l.hist[ k ].rel );
        }
    }
}

static View* release_view( Fiber& f, int mo, View const* prev )
{
    View* r = nullptr;
    if ( is_rel( mo ) ) {
        r  = new_view();
        *r = f.v;
    } else if ( f.have_rel ) {
        r  = new_view();
        *r = f.rel;
    }
    if ( prev ) {
        if ( !r )
            r = new_view();
        r->join( *prev );
    }
    return r;
}

static void wild( uintptr_t a )
{
    if ( a < 65536 )
        violation( "crash", "access through a null or wild pointer %p", (void*)a );
}

// -------------------------------------------------------------------------------------- plain accesses
static inline void plain( uintptr_t a, size_t n, bool write )
{
    if ( __builtin_expect( !inside( a ), 1 ) ) {
        if ( a < 65536 )
            wild( a );
        return;
    }
    if ( !sh )
        return;
    Fiber& f0 = fb[ curf ];
    if ( opt.hb )
        finalize( f0 );
    if ( running )
        sched_point();
    ++cur.plains;
    heap_check( a, n, write );
    if ( !opt.hb )
        return;
    Fiber& f = fb[ curf ];
    if ( sh[ widx( a ) ].flags & 1 ) {
        if ( opt.monitors & MON_RACE )
            race_access( a, n, write ? PW : PR, curf, f.v.clk[ curf ], f.v.clk, "element or slot storage" );
        return; // race free by contract: one possible value
    }
    TR( "%llu T%d plain %s +%zx %zu\n", (unsigned long long)step_ctr, curf, write ? "write" : "read", size_t( a - ARENA_BASE ), n );
    if ( write ) {
        words( a, n, []( size_t w, uint8_t ) { loc_of( w ); } );
        f.pw.a = a, f.pw.n = n, f.pw.on = true;
        return;
    }
    words( a, n, [ & ]( size_t w, uint8_t m ) {
        Loc&     l    = loc_of( w );
        uint32_t last = l.hist.size() - 1, lo = f.v.get( sh[ w ].loc - 1 ), i = last;
        if ( running && lo < last && opt.stale && R.chance( opt.stale, 100 ) && f.nss < 8 ) {
            i = lo + R.below( last - lo + 1 );
            if ( i != last ) {
                ++cur.stale_reads;
                uint64_t old = compose( l, i );
                f.ss[ f.nss++ ] = StaleSwap { (uintptr_t)wptr( w ), *wptr( w ), old };
                *wptr( w )      = old;
            }
        }
        observe( f, w, i, m, MO_PLAIN );
    } );
}

// -------------------------------------------------------------------------------------- atomics
// common prologue: true if monitored
static inline bool atomic_pre( uintptr_t a, size_t n, bool write, bool read )
{
    if ( a < 65536 )
        wild( a );
    if ( !sh )
        return false;
    Fiber& f0 = fb[ curf ];
    if ( opt.hb )
        finalize( f0 );
    if ( running )
        sched_point();
    ++cur.atomics;
    if ( !inside( a ) )
        return false;
    if ( read )
        heap_check( a, n, false );
    if ( write )
        heap_check( a, n, true );
    if ( !opt.hb )
        return false;
    if ( ( sh[ widx( a ) ].flags & 1 ) && ( opt.monitors & MON_RACE ) ) {
        Fiber& f = fb[ curf ];
        race_access( a, n, write ? AW : AR, curf, f.v.clk[ curf ], f.v.clk, "atomic" );
    }
    return true;
}

template < class T >
static T from_word( uint64_t v, uintptr_t a )
{
    v >>= 8 * ( a & 7 );
    T r;
    __real_memcpy( &r, &v, sizeof( T ) );
    return r;
}

template < class T >
static T a_load( T volatile* p, int mo )
{
    uintptr_t a = (uintptr_t)p;
    if ( !atomic_pre( a, sizeof( T ), false, true ) )
        return *p;
    Fiber&   f    = fb[ curf ];
    size_t   w    = widx( a );
    Loc&     l    = loc_of( w );
    uint32_t last = l.hist.size() - 1, lo = f.v.get( sh[ w ].loc - 1 ), i = last;
    if ( running && mo != __ATOMIC_SEQ_CST && lo < last && opt.stale && R.chance( opt.stale, 100 ) )
        i = lo + R.below( last - lo + 1 );
    T r = *p;
    if ( i != last ) {
        ++cur.stale_reads;
        r = from_word< T >( compose( l, i ), a );
    }
    observe( f, w, i, bmask( a, sizeof( T ) ), mo );
    TR( "%llu T%d load  +%zx mo%d -> %llx (entry %u of %u)\n", (unsigned long long)step_ctr, curf, size_t( a - ARENA_BASE ), mo, (unsigned long long)r, i, last );
    return r;
}
template < class T >
static void a_store( T volatile* p, T v, int mo )
{
    uintptr_t a = (uintptr_t)p;
    if ( !atomic_pre( a, sizeof( T ), true, false ) ) {
        *p = v;
        return;
    }
    Fiber& f = fb[ curf ];
    loc_of( widx( a ) );
    TR( "%llu T%d store +%zx mo%d <- %llx\n", (unsigned long long)step_ctr, curf, size_t( a - ARENA_BASE ), mo, (unsigned long long)v );
    *p      = v;
    View* r = release_view( f, mo, nullptr );
    size_t w = widx( a );
    append( w, bmask( a, sizeof( T ) ), *wptr( w ), r, false );
    if ( r )
        r->put( sh[ w ].loc - 1, locs[ sh[ w ].loc - 1 ].hist.size() - 1 );
    if ( is_rel( mo ) )
        ++f.v.clk[ curf ];
}
template < class T >
static void rmw_effect( T volatile* p, T nv, int mo )
{
    uintptr_t a    = (uintptr_t)p;
    Fiber&    f    = fb[ curf ];
    size_t    w    = widx( a );
    Loc&      l    = loc_of( w );
    uint32_t  last = l.hist.size() - 1;
    uint8_t   m    = bmask( a, sizeof( T ) );
    View*     prev = nullptr;
    for ( int64_t k = last; k >= 0; --k )
        if ( l.hist[ k ].mask & m ) {
            prev = l.hist[ k ].plain ? nullptr : l.hist[ k ].rel;
            break;
        }
    observe( f, w, last, m, mo );
    *p      = nv;
    View* r = release_view( f, mo, prev );
    append( w, m, *wptr( w ), r, false );
    if ( r )
        r->put( sh[ w ].loc - 1, locs[ sh[ w ].loc - 1 ].hist.size() - 1 );
    if ( is_rel( mo ) )
        ++f.v.clk[ curf ];
}
template < class T, class F >
static T a_rmw( T volatile* p, int mo, F fn )
{
    uintptr_t a = (uintptr_t)p;
    bool      m = atomic_pre( a, sizeof( T ), true, true );
    T         o = *p;
    T         n = fn( o );
    if ( !m )
        *p = n;
    else
        rmw_effect( p, n, mo );
    return o;
}
template < class T >
static bool a_cas( T volatile* p, T* e, T d, int mo, int fmo, bool weak )
{
    uintptr_t a  = (uintptr_t)p;
    T         ex = *e;
    bool      m  = atomic_pre( a, sizeof( T ), false, true );
    T         o  = *p;
    bool      ok = o == ex;
    TR( "%llu T%d cas   +%zx mo%d %llx: %llx -> %llx\n", (unsigned long long)step_ctr, curf, size_t( a - ARENA_BASE ), mo, (unsigned long long)o, (unsigned long long)ex, (unsigned long long)d );
    if ( ok && weak && running && opt.weakfail && inside( a ) && R.chance( opt.weakfail, 100 ) ) {
        ok = false;
        ++cur.spurious;
    }
    if ( ok && inside( a ) ) {
        heap_check( a, sizeof( T ), true );
        if ( m && ( sh[ widx( a ) ].flags & 1 ) && ( opt.monitors & MON_RACE ) )
            race_access( a, sizeof( T ), AW, curf, fb[ curf ].v.clk[ curf ], fb[ curf ].v.clk, "atomic" );
    }
    if ( ok ) {
        if ( m )
            rmw_effect( p, d, mo );
        else
            *p = d;
    } else {
        ++cur.rmw_fail;
        if ( m ) {
            size_t w = widx( a );
            Loc&   l = loc_of( w );
            observe( fb[ curf ], w, l.hist.size() - 1, bmask( a, sizeof( T ) ), fmo );
        }
        *e = o;
    }
    return ok;
}

// 128 bit: always latest values; two adjacent words
typedef unsigned __int128 u128;
static View* rel_of_word( size_t w )
{
    Loc& l = loc_of( w );
    Entry& e = l.hist.back();
    return e.plain ? nullptr : e.rel;
}
static void observe128( uintptr_t a, int mo )
{
    for ( int i = 0; i < 2; ++i ) {
        size_t w = widx( a ) + i;
        Loc&   l = loc_of( w );
        observe( fb[ curf ], w, l.hist.size() - 1, 0xFF, mo );
    }
}
static void store128( u128 volatile* p, u128 v, int mo, bool rmw )
{
    uintptr_t a    = (uintptr_t)p;
    Fiber&    f    = fb[ curf ];
    View*     prev = nullptr;
    if ( rmw )
        prev = rel_of_word( widx( a ) );
    else
        for ( int i = 0; i < 2; ++i )
            loc_of( widx( a ) + i );
    *p      = v;
    View* r = release_view( f, mo, prev );
    for ( int i = 0; i < 2; ++i ) {
        size_t w = widx( a ) + i;
        append( w, 0xFF, *wptr( w ), r, false );
        if ( r )
            r->put( sh[ w ].loc - 1, locs[ sh[ w ].loc - 1 ].hist.size() - 1 );
    }
    if ( is_rel( mo ) )
        ++f.v.clk[ curf ];
}

// -------------------------------------------------------------------------------------- element events
// writes that are not ordered after a speculative read spoil it
static void spoil_spec( void const* p, size_t n )
{
    uintptr_t a = (uintptr_t)p;
    for ( int u = 0; u < NT; ++u ) {
        auto& sp = fb[ u ].spec;
        if ( u != curf && sp.p && a < (uintptr_t)sp.p + sp.n && (uintptr_t)sp.p < a + n && fb[ curf ].v.clk[ u ] < sp.clk )
            sp.raced = curf;
    }
}
void obj_construct( void const* p, size_t n )
{
    uintptr_t a = (uintptr_t)p;
    if ( !inside( a ) )
        return;
    yield_point();
    ++cur.obj_events;
    if ( opt.monitors & MON_LIFE ) {
        Shadow& s = sh[ widx( a ) ];
        if ( s.flags & 4 )
            violation( "life", "an element copy is constructed on top of a live one (arena+0x%zx)", size_t( a - ARENA_BASE ) );
        s.flags |= 4;
        ++nobjects;
    }
    if ( opt.hb && ( opt.monitors & MON_OBJ ) ) {
        Fiber& f = fb[ curf ];
        race_access( a, n, PW, curf, f.v.clk[ curf ], f.v.clk, "element copy constructed" );
        spoil_spec( p, n );
    }
}
void obj_destroy( void const* p, size_t n )
{
    uintptr_t a = (uintptr_t)p;
    if ( !inside( a ) )
        return;
    yield_point();
    ++cur.obj_events;
    if ( opt.monitors & MON_LIFE ) {
        Shadow& s = sh[ widx( a ) ];
        if ( !( s.flags & 4 ) )
            violation( "life", "an element copy is destroyed that is not alive (arena+0x%zx)", size_t( a - ARENA_BASE ) );
        s.flags &= ~4;
        --nobjects;
    }
    if ( opt.hb && ( opt.monitors & MON_OBJ ) ) {
        Fiber& f = fb[ curf ];
        race_access( a, n, PW, curf, f.v.clk[ curf ], f.v.clk, "element copy destroyed" );
        spoil_spec( p, n );
    }
}
void obj_read( void const* p, size_t n )
{
    uintptr_t a = (uintptr_t)p;
    if ( !inside( a ) )
        return;
    yield_point();
    ++cur.obj_events;
    if ( ( opt.monitors & MON_LIFE ) && !( sh[ widx( a ) ].flags & 4 ) )
        violation( "life", "an element copy is read that is not alive (arena+0x%zx)", size_t( a - ARENA_BASE ) );
    if ( opt.hb && ( opt.monitors & MON_OBJ ) ) {
        Fiber& f = fb[ curf ];
        race_access( a, n, PR, curf, f.v.clk[ curf ], f.v.clk, "element copy read" );
    }
}
void spec_read( void const* p, size_t n )
{
    Fiber& f = fb[ curf ];
    if ( !inside( (uintptr_t)p ) )
        return;
    ++cur.obj_events;
    f.spec.p = p, f.spec.n = n, f.spec.clk = f.v.clk[ curf ], f.spec.raced = -1;
    if ( opt.hb && ( opt.monitors & MON_OBJ ) )
        words( (uintptr_t)p, n, [ & ]( size_t w, uint8_t m ) {
            RaceWord& rw = race_word( w );
            for ( int u = 0; u < NT; ++u )
                if ( u != curf )
                    for ( int b = 0; b < 8; ++b )
                        if ( ( m >> b & 1 ) && rw.w[ u ][ b ] > f.v.clk[ u ] )
                            f.spec.raced = u;
        } );
}
void spec_commit()
{
    Fiber& f = fb[ curf ];
    if ( f.spec.p && opt.hb && ( opt.monitors & MON_OBJ ) ) {
        if ( f.spec.raced >= 0 )
            violation( "data-race", "the element received by thread %d (arena+0x%zx) was written by thread %d without ordering", curf,
                       size_t( (uintptr_t)f.spec.p - ARENA_BASE ), f.spec.raced );
        words( (uintptr_t)f.spec.p, f.spec.n, [ & ]( size_t w, uint8_t m ) {
            RaceWord& rw = race_word( w );
            for ( int b = 0; b < 8; ++b )
                if ( m >> b & 1 && rw.r[ curf ][ b ] < f.spec.clk )
                    rw.r[ curf ][ b ] = f.spec.clk;
        } );
    }
    f.spec.p = nullptr;
}

void yield_point()
{
    if ( !running )
        return;
    if ( opt.hb )
        finalize( fb[ curf ] );
    sched_point();
}

// ------------------------------------------------------------------------------------------------ lifecycle
void init()
{
    setvbuf( stdout, nullptr, _IOFBF, 1 << 16 );
    void* m = mmap( (void*)ARENA_BASE, ARENA_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0 );
    if ( m != (void*)ARENA_BASE ) {
        fprintf( stderr, "lfmon: cannot map arena\n" );
        _exit( 3 );
    }
    sh = (Shadow*)mmap( nullptr, ( ARENA_SIZE / 8 + 16 ) * sizeof( Shadow ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    static char      alt[ 65536 ];
    stack_t          ss {};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack( &ss, nullptr );
    struct sigaction sa {};
    sa.sa_sigaction = on_fault;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    for ( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT } )
        sigaction( s, &sa, nullptr );
    struct sigaction st {};
    st.sa_handler = on_tick;
    st.sa_flags   = SA_RESTART | SA_ONSTACK;
    sigaction( SIGPROF, &st, nullptr );
    itimerval it { { 2, 0 }, { 2, 0 } };
    setitimer( ITIMER_PROF, &it, nullptr );
    curf            = MAXT;
    fb[ MAXT ].used = true;
    tracing_        = getenv( "LFMON_TRACE" ) != nullptr;
}

void exec_begin( Options const& o )
{
    opt = o;
    R   = Rng( o.seed );
    memset( &cur, 0, sizeof cur );
    cur.execs = 1;
    size_t dirty = arena_top > arena_dirty ? arena_top : arena_dirty;
    memset( sh, 0, ( dirty / 8 + 16 ) * sizeof( Shadow ) );
    arena_top = 64;
    nlocs     = 0;
    view_used = 0;
    race_used = 0;
    nblocks   = 0;
    nobjects  = 0;
    nf        = 0;
    step_ctr  = 0;
    hash_     = 1469598103934665603ull;
    Fiber& m  = fb[ MAXT ];
    m.v.clear();
    m.v.clk[ MAXT ] = 1;
    m.acq.clear();
    m.rel.clear();
    m.have_rel = false;
    m.pw.on    = false;
    m.nss      = 0;
    m.in_op = m.no_alloc = false;
    m.steps = m.events = m.bound = 0;
    m.freeze_ev = ~0ull;
    for ( int i = 0; i < MAXT; ++i ) {
        fb[ i ].used = false;
        fb[ i ].done = fb[ i ].frozen = fb[ i ].in_op = false;
    }
    curf       = MAXT;
    running    = false;
    capture_on = false;
}
void exec_end()
{
    ++progress;
    uint64_t mx = total.max_op_steps > cur.max_op_steps ? total.max_op_steps : cur.max_op_steps;
    uint64_t* t = (uint64_t*)&total;
    uint64_t* c = (uint64_t*)&cur;
    for ( size_t i = 0; i < sizeof( Counters ) / 8; ++i )
        t[ i ] += c[ i ];
    total.max_op_steps = mx;
}

// ------------------------------------------------------------------------------------------------ ABI
} // namespace lfmon

using namespace lfmon;
#define PL( name, n, wr )                                                                                              \
    extern "C" void name( void* a ) { plain( (uintptr_t)a, n, wr ); }
#define PLALL( n )                                                                                                     \
    PL( __tsan_read##n, n, false )                                                                                     \
    PL( __tsan_write##n, n, true )                                                                                     \
    PL( __tsan_unaligned_read##n, n, false )                                                                           \
    PL( __tsan_unaligned_write##n, n, true )                                                                           \
    PL( __tsan_volatile_read##n, n, false )                                                                            \
    PL( __tsan_volatile_write##n, n, true )                                                                            \
    PL( __tsan_unaligned_volatile_read##n, n, false )                                                                  \
    PL( __tsan_unaligned_volatile_write##n, n, true )                                                                  \
    extern "C" void __tsan_read_write##n( void* a )                                                                    \
    {                                                                                                                  \
        plain( (uintptr_t)a, n, false );                                                                               \
        plain( (uintptr_t)a, n, true );                                                                                \
    }                                                                                                                  \
    extern "C" void __tsan_unaligned_read_write##n( void* a ) { __tsan_read_write##n( a ); }
PLALL( 1 )
PLALL( 2 )
PLALL( 4 )
PLALL( 8 )
PLALL( 16 )
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry( void* ) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_read( void** a ) { plain( (uintptr_t)a, 8, false ); }
extern "C" void __tsan_vptr_update( void** a, void* ) { plain( (uintptr_t)a, 8, true ); }
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}
extern "C" void __tsan_read_range( void* a, size_t n )
{
    if ( n )
        plain( (uintptr_t)a, n, false );
}
extern "C" void __tsan_write_range( void* a, size_t n )
{
    if ( n )
        plain( (uintptr_t)a, n, true );
}

static void* do_copy( void* d, void const* s, size_t n, bool mv )
{
    char const* cs = (char const*)s;
    char*       cd = (char*)d;
    bool        ai = inside( (uintptr_t)s ), di = inside( (uintptr_t)d );
    if ( !ai && !di ) {
        if ( n && ( (uintptr_t)d < 65536 || (uintptr_t)s < 65536 ) )
            wild( 0 );
        return mv ? __real_memmove( d, s, n ) : __real_memcpy( d, s, n );
    }
    // in pieces of 8 bytes, so that tearing is possible
    bool back = mv && cd > cs && cd < cs + n;
    for ( size_t k = 0; k < n; ) {
        size_t c = n - k < 8 ? n - k : 8;
        size_t o = back ? n - k - c : k;
        char   tmp[ 8 ];
        plain( (uintptr_t)( cs + o ), c, false );
        __real_memcpy( tmp, cs + o, c );
        plain( (uintptr_t)( cd + o ), c, true );
        __real_memcpy( cd + o, tmp, c );
        k += c;
    }
    return d;
}
static void* do_set( void* d, int v, size_t n )
{
    if ( n )
        plain( (uintptr_t)d, n, true );
    return __real_memset( d, v, n );
}
extern "C" void* __wrap_memset( void* d, int v, size_t n ) { return do_set( d, v, n ); }
extern "C" void* __wrap_memcpy( void* d, void const* s, size_t n ) { return do_copy( d, s, n, false ); }
extern "C" void* __wrap_memmove( void* d, void const* s, size_t n ) { return do_copy( d, s, n, true ); }
extern "C" void* __tsan_memset( void* d, int v, size_t n ) { return do_set( d, v, n ); }
extern "C" void* __tsan_memcpy( void* d, void const* s, size_t n ) { return do_copy( d, s, n, false ); }
extern "C" void* __tsan_memmove( void* d, void const* s, size_t n ) { return do_copy( d, s, n, true ); }

static void* heap_get( size_t n, size_t al )
{
    count_heap();
    if ( capture_on || ( cap_ops && fb[ curf ].in_op ) )
        return lfmon::alloc( n ? n : 1, al, A_BLOCK );
    void* p = nullptr;
    if ( al <= 16 )
        p = __real_malloc( n ? n : 1 );
    else if ( __real_posix_memalign( &p, al, n ) )
        p = nullptr;
    return p;
}
static void heap_put( void* p )
{
    if ( !p )
        return;
    count_heap();
    if ( inside( (uintptr_t)p ) )
        lfmon::release( p, 0 );
    else
        __real_free( p );
}
extern "C" void* __wrap_malloc( size_t n ) { return heap_get( n, 16 ); }
extern "C" void* __wrap_aligned_alloc( size_t al, size_t n ) { return heap_get( n, al ); }
extern "C" void* __wrap_calloc( size_t k, size_t n )
{
    void* p = heap_get( k * n, 16 );
    if ( p )
        do_set( p, 0, k * n );
    return p;
}
extern "C" int __wrap_posix_memalign( void** p, size_t al, size_t n )
{
    *p = heap_get( n, al );
    return *p ? 0 : ENOMEM;
}
extern "C" void __wrap_free( void* p ) { heap_put( p ); }
void* operator new( size_t n ) { return heap_get( n, 16 ); }
void* operator new[]( size_t n ) { return heap_get( n, 16 ); }
void* operator new( size_t n, std::align_val_t a ) { return heap_get( n, (size_t)a ); }
void* operator new[]( size_t n, std::align_val_t a ) { return heap_get( n, (size_t)a ); }
void* operator new( size_t n, std::nothrow_t const& ) noexcept { return heap_get( n, 16 ); }
void  operator delete( void* p ) noexcept { heap_put( p ); }
void  operator delete[]( void* p ) noexcept { heap_put( p ); }
void  operator delete( void* p, size_t ) noexcept { heap_put( p ); }
void  operator delete[]( void* p, size_t ) noexcept { heap_put( p ); }
void  operator delete( void* p, std::align_val_t ) noexcept { heap_put( p ); }
void  operator delete[]( void* p, std::align_val_t ) noexcept { heap_put( p ); }
void  operator delete( void* p, size_t, std::align_val_t ) noexcept { heap_put( p ); }
void  operator delete[]( void* p, size_t, std::align_val_t ) noexcept { heap_put( p ); }

#define AT( N, T )                                                                                                     \
    extern "C" T    __tsan_atomic##N##_load( T const volatile* p, int mo ) { return a_load< T >( (T volatile*)p, mo ); } \
    extern "C" void __tsan_atomic##N##_store( T volatile* p, T v, int mo ) { a_store< T >( p, v, mo ); }                \
    extern "C" T    __tsan_atomic##N##_exchange( T volatile* p, T v, int mo )                                          \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T ) { return v; } );                                                          \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_fetch_add( T volatile* p, T v, int mo )                                            \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T o ) { return T( o + v ); } );                                               \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_fetch_sub( T volatile* p, T v, int mo )                                            \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T o ) { return T( o - v ); } );                                               \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_fetch_and( T volatile* p, T v, int mo )                                            \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T o ) { return T( o & v ); } );                                               \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_fetch_or( T volatile* p, T v, int mo )                                             \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T o ) { return T( o | v ); } );                                               \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_fetch_xor( T volatile* p, T v, int mo )                                            \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T o ) { return T( o ^ v ); } );                                               \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_fetch_nand( T volatile* p, T v, int mo )                                           \
    {                                                                                                                  \
        return a_rmw< T >( p, mo, [ = ]( T o ) { return T( ~( o & v ) ); } );                                          \
    }                                                                                                                  \
    extern "C" bool __tsan_atomic##N##_compare_exchange_strong( T volatile* p, T* e, T d, int mo, int fmo )            \
    {                                                                                                                  \
        return a_cas< T >( p, e, d, mo, fmo, false );                                                                  \
    }                                                                                                                  \
    extern "C" bool __tsan_atomic##N##_compare_exchange_weak( T volatile* p, T* e, T d, int mo, int fmo )              \
    {                                                                                                                  \
        return a_cas< T >( p, e, d, mo, fmo, true );                                                                   \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##N##_compare_exchange_val( T volatile* p, T e, T d, int mo, int fmo )                   \
    {                                                                                                                  \
        a_cas< T >( p, &e, d, mo, fmo, false );                                                                        \
        return e;                                                                                                      \
    }
AT( 8, uint8_t )
AT( 16, uint16_t )
AT( 32, uint32_t )
AT( 64, uint64_t )

// 128 bit
static u128 load128( u128 volatile* p, int mo )
{
    if ( atomic_pre( (uintptr_t)p, 16, false, true ) )
        observe128( (uintptr_t)p, mo );
    return *p;
}
static bool cas128( u128 volatile* p, u128* e, u128 d, int mo, int fmo )
{
    bool m = atomic_pre( (uintptr_t)p, 16, false, true );
    u128 o = *p;
    if ( o == *e ) {
        if ( inside( (uintptr_t)p ) )
            heap_check( (uintptr_t)p, 16, true );
        if ( m ) {
            observe128( (uintptr_t)p, mo );
            store128( p, d, mo, true );
        } else
            *p = d;
        return true;
    }
    ++cur.rmw_fail;
    if ( m )
        observe128( (uintptr_t)p, fmo );
    *e = o;
    return false;
}
extern "C" u128 __tsan_atomic128_load( u128 const volatile* p, int mo ) { return load128( (u128 volatile*)p, mo ); }
extern "C" void __tsan_atomic128_store( u128 volatile* p, u128 v, int mo )
{
    if ( atomic_pre( (uintptr_t)p, 16, true, false ) )
        store128( p, v, mo, false );
    else
        *p = v;
}
extern "C" u128 __tsan_atomic128_exchange( u128 volatile* p, u128 v, int mo )
{
    bool m = atomic_pre( (uintptr_t)p, 16, true, true );
    u128 o = *p;
    if ( m ) {
        observe128( (uintptr_t)p, mo );
        store128( p, v, mo, true );
    } else
        *p = v;
    return o;
}
extern "C" u128 __tsan_atomic128_compare_exchange_val( u128 volatile* p, u128 e, u128 d, int mo, int fmo )
{
    cas128( p, &e, d, mo, fmo );
    return e;
}
extern "C" bool __tsan_atomic128_compare_exchange_strong( u128 volatile* p, u128* e, u128 d, int mo, int fmo )
{
    return cas128( p, e, d, mo, fmo );
}
extern "C" bool __tsan_atomic128_compare_exchange_weak( u128 volatile* p, u128* e, u128 d, int mo, int fmo )
{
    return cas128( p, e, d, mo, fmo );
}

static View sc_view;
extern "C" void __tsan_atomic_thread_fence( int mo )
{
    if ( !sh )
        return;
    if ( opt.hb )
        finalize( fb[ curf ] );
    if ( running )
        sched_point();
    if ( !opt.hb )
        return;
    Fiber& f = fb[ curf ];
    if ( is_acq( mo ) ) {
        f.v.join( f.acq );
    }
    if ( is_rel( mo ) ) {
        f.rel      = f.v;
        f.have_rel = true;
        ++f.v.clk[ curf ];
    }
    (void)sc_view;
}
extern "C" void __tsan_atomic_signal_fence( int ) {}

// -------------------------------------------------------------------------- blocking primitives a change may use
static bool in_fiber() { return sh && running && curf != MAXT; }
static int* mword( pthread_mutex_t* m ) { return (int*)m; }
extern "C" int pthread_mutex_lock( pthread_mutex_t* m )
{
    if ( !in_fiber() ) {
        *mword( m ) = 1;
        return 0;
    }
    yield_point();
    while ( *mword( m ) )
        yield_point();
    *mword( m ) = 1;
    return 0;
}
extern "C" int pthread_mutex_trylock( pthread_mutex_t* m )
{
    yield_point();
    if ( *mword( m ) )
        return EBUSY;
    *mword( m ) = 1;
    return 0;
}
extern "C" int pthread_mutex_unlock( pthread_mutex_t* m )
{
    if ( in_fiber() )
        yield_point();
    *mword( m ) = 0;
    return 0;
}
extern "C" int sched_yield()
{
    if ( in_fiber() )
        yield_point();
    return 0;
}
extern "C" int nanosleep( timespec const*, timespec* )
{
    if ( in_fiber() )
        yield_point();
    return 0;
}
extern "C" int clock_nanosleep( clockid_t, int, timespec const*, timespec* )
{
    if ( in_fiber() )
        yield_point();
    return 0;
}
extern "C" int usleep( useconds_t )
{
    if ( in_fiber() )
        yield_point();
    return 0;
}
