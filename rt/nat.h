// Common parts of the natively running harnesses (plain build, or -fsanitize=address,undefined).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <iterator>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace nat {

struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); }
    uint64_t next()
    {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
        z          = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z          = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }
    uint32_t below( uint32_t n ) { return n ? uint32_t( ( ( next() >> 32 ) * n ) >> 32 ) : 0; }
    bool     chance( uint32_t num, uint32_t den ) { return below( den ) < num; }
};
inline uint64_t mix( uint64_t a, uint64_t b )
{
    Rng r( a * 0x100000001B3ull + b );
    return r.next();
}

struct Args
{
    std::string prop = "C15";
    std::string mode;
    uint64_t    seed = 1, from = 0, n = 200;
};
inline Args args;
inline void catch_crashes();
inline void parse( int argc, char** argv )
{
    for ( int i = 1; i < argc; ++i ) {
        std::string s = argv[ i ], k = s.substr( 0, s.find( '=' ) ), v = s.substr( s.find( '=' ) + 1 );
        if ( k == "--prop" )
            args.prop = v;
        else if ( k == "--mode" )
            args.mode = v;
        else if ( k == "--seed" )
            args.seed = strtoull( v.c_str(), 0, 0 );
        else if ( k == "--from" )
            args.from = strtoull( v.c_str(), 0, 0 );
        else if ( k == "--n" )
            args.n = strtoull( v.c_str(), 0, 0 );
    }
    catch_crashes();
}
inline bool is( char const* p ) { return args.prop == p; }

inline std::string              ctx;   // configuration and execution
inline std::vector< std::string > trace; // operations of this execution
struct Skip
{}; // the execution stops: another property's business

inline std::string esc( std::string const& s )
{
    std::string r;
    for ( char c : s )
        if ( c == '"' || c == '\\' )
            r += '\\', r += c;
        else if ( c == '\n' )
            r += "; ";
        else
            r += c;
    return r;
}
[[noreturn]] inline void fail( char const* kind, char const* fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
[[noreturn]] inline void fail( char const* kind, char const* fmt, ... )
{
    char    b[ 700 ];
    va_list ap;
    va_start( ap, fmt );
    vsnprintf( b, sizeof b, fmt, ap );
    va_end( ap );
    printf( "NAT-VIOLATION {\"kind\":\"%s\",\"msg\":\"%s\",\"context\":\"%s prop=%s mode=%s seed=%llu\"}\n", kind, esc( b ).c_str(), esc( ctx ).c_str(), args.prop.c_str(),
            args.mode.c_str(), (unsigned long long)args.seed );
    printf( "OPERATIONS\n" );
    size_t from = trace.size() > 60 ? trace.size() - 60 : 0;
    for ( size_t i = from; i < trace.size(); ++i )
        printf( "%zu %s\n", i, trace[ i ].c_str() );
    fflush( stdout );
    _exit( 1 );
}
#if defined( __SANITIZE_ADDRESS__ )
inline void catch_crashes() {}
#else
inline void catch_crashes() // a crash inside the library is a violation like any other
{
    struct sigaction sa = {};
    sa.sa_handler       = []( int s ) { fail( "crash", "signal %d during %s", s, trace.empty() ? "?" : trace.back().c_str() ); };
    sa.sa_flags         = SA_NODEFER | SA_RESETHAND;
    for ( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT } )
        sigaction( s, &sa, nullptr );
}
#endif
inline uint64_t noted = 0;
inline void note( char const* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
inline void note( char const* fmt, ... )
{
    char    b[ 200 ];
    va_list ap;
    va_start( ap, fmt );
    vsnprintf( b, sizeof b, fmt, ap );
    va_end( ap );
    trace.emplace_back( b );
    ++noted;
}
// a call that uses 20 s of CPU time is not going to return
inline void watch_hangs()
{
    struct sigaction sa = {};
    sa.sa_handler       = []( int ) {
        static uint64_t last = ~0ull;
        static int      same = 0;
        same                 = noted == last ? same + 1 : 0;
        last                 = noted;
        if ( same == 4 )
            fail( "hang", "%s does not return", trace.empty() ? "?" : trace.back().c_str() );
    };
    sigaction( SIGPROF, &sa, nullptr );
    itimerval it = { { 5, 0 }, { 5, 0 } };
    setitimer( ITIMER_PROF, &it, nullptr );
}

// ---- faults
struct Fault : std::bad_alloc
{};
inline bool     faults_armed = false; // only while elements are added
inline int64_t  fault_at     = -1;    // throw at this fault point
inline uint64_t fault_points = 0;
inline uint64_t faults_hit   = 0;
inline void     fault_point()
{
    if ( !faults_armed )
        return;
    if ( int64_t( fault_points++ ) == fault_at ) {
        ++faults_hit;
        throw Fault();
    }
}

// ---- allocator with identity
struct AState
{
    struct B
    {
        size_t n, sz;
    };
    std::unordered_map< void*, B > blocks;
    uint64_t                       calls = 0, frees = 0, nodes = 0; // nodes: allocations of one object
    uint64_t                       seed  = 0;
};
inline uint64_t mem_events = 0; // allocations and frees, any source
template < class T >
struct NA
{
    typedef T value_type;
    AState*   st;
    NA( AState* s = nullptr ) : st( s ) {}
    template < class U >
    NA( NA< U > const& o ) : st( o.st )
    {}
    template < class U >
    struct rebind
    {
        typedef NA< U > other;
    };
    T* allocate( size_t n )
    {
        if ( !st )
            fail( "allocator", "memory requested from a default-constructed allocator, not from the one passed" );
        ++mem_events;
        fault_point();
        size_t al = alignof( T ) < 16 ? 16 : alignof( T );
        size_t sz = ( n * sizeof( T ) + al - 1 ) / al * al;
        void*  p  = ::aligned_alloc( al, sz ? sz : al );
        if ( !p )
            throw std::bad_alloc();
        memset( p, 0xA5, sz );
        st->blocks[ p ] = { n, sizeof( T ) };
        ++st->calls;
        if ( n == 1 )
            ++st->nodes;
        return (T*)p;
    }
    void deallocate( T* p, size_t n )
    {
        if ( !st )
            fail( "allocator", "memory returned to a default-constructed allocator" );
        ++mem_events;
        auto it = st->blocks.find( p );
        if ( it == st->blocks.end() )
            fail( "allocator", "pointer given back which this allocator has not handed out (or twice)" );
        if ( it->second.n != n || it->second.sz != sizeof( T ) )
            fail( "allocator", "block of %zu objects (%zu bytes each) given back as %zu objects (%zu bytes each)", it->second.n, it->second.sz, n, sizeof( T ) );
        st->blocks.erase( it );
        ++st->frees;
        ::free( p );
    }
    template < class U >
    bool operator==( NA< U > const& o ) const { return st == o.st; }
    template < class U >
    bool operator!=( NA< U > const& o ) const { return st != o.st; }
};

// ---- element types. El<T>::make( v ) / val( t ); values are taken modulo El<T>::mod
template < class T >
struct El
{
    static const uint64_t mod = sizeof( T ) >= 4 ? 1000000007ull : sizeof( T ) == 2 ? 65521 : 251;
    static T        make( uint64_t v ) { return T( v % mod ); }
    static uint64_t val( T const& t ) { return uint64_t( t ); }
    static char const* name() { return sizeof( T ) == 1 ? "char8" : sizeof( T ) == 2 ? "u16" : sizeof( T ) == 4 ? "int32" : "word64"; }
};
template <>
struct El< double >
{
    static const uint64_t mod = 1000000007ull;
    static double      make( uint64_t v ) { return double( v % mod ) / 8; }
    static uint64_t    val( double t ) { return uint64_t( t * 8 ); }
    static char const* name() { return "double"; }
};
template <>
struct El< int* >
{
    static const uint64_t mod = 100000;
    static int*        base() { static int b[ 100000 ]; return b; }
    static int*        make( uint64_t v ) { return base() + v % mod; }
    static uint64_t    val( int* t ) { return uint64_t( t - base() ); }
    static char const* name() { return "pointer"; }
};
template < size_t N, size_t A >
struct alignas( A ) Blob // every byte carries the value; torn or misplaced copies show
{
    unsigned char b[ N ];
};
template < size_t N, size_t A >
struct El< Blob< N, A > >
{
    typedef Blob< N, A > T;
    static const uint64_t mod = 1ull << 24;
    static unsigned char byte( uint64_t v, size_t i ) { return i < 3 ? ( v >> ( 8 * i ) ) : (unsigned char)( ( v * 31 + i * 7 + ( v >> 8 ) ) ); }
    static T make( uint64_t v )
    {
        v %= mod;
        T t;
        for ( size_t i = 0; i < N; ++i )
            t.b[ i ] = byte( v, i );
        return t;
    }
    static uint64_t val( T const& t )
    {
        if ( uintptr_t( &t ) % A )
            fail( "alignment", "element of alignment %zu at %p", A, (void*)&t );
        uint64_t v = t.b[ 0 ] | t.b[ 1 ] << 8 | t.b[ 2 ] << 16;
        for ( size_t i = 0; i < N; ++i )
            if ( t.b[ i ] != byte( v, i ) )
                return ~0ull; // torn
        return v;
    }
    static char const* name()
    {
        static std::string s = "blob" + std::to_string( N ) + "a" + std::to_string( A );
        return s.c_str();
    }
};
template <>
struct El< std::string >
{
    static const uint64_t mod = 1000000007ull;
    static std::string make( uint64_t v )
    {
        std::string s = std::to_string( v % mod );
        return v & 1 ? s : s + std::string( 40, '#' );
    }
    static uint64_t    val( std::string const& t ) { return t.empty() ? ~0ull : strtoull( t.c_str(), 0, 10 ); }
    static char const* name() { return "string"; }
};
template <>
struct El< std::shared_ptr< uint64_t > >
{
    typedef std::shared_ptr< uint64_t > T;
    static const uint64_t mod = 1000000007ull;
    static T           make( uint64_t v ) { return std::make_shared< uint64_t >( v % mod ); }
    static uint64_t    val( T const& t ) { return t ? *t : ~0ull; }
    static char const* name() { return "shared_ptr"; }
};
// life-cycle checked elements of different sizes
struct Alive
{
    static std::unordered_set< void const* >& alive()
    {
        static std::unordered_set< void const* > s;
        return s;
    }
    static inline uint64_t made = 0, gone = 0;
};
template < class V >
struct ObjT : Alive
{
    static const bool SELF = sizeof( V ) == 8;
    V v;
    struct Nothing
    {};
    [[no_unique_address]] std::conditional_t< SELF, ObjT const*, Nothing > self;
    void born()
    {
        if constexpr ( SELF )
            self = this;
        ++made;
        if ( !alive().insert( this ).second )
            fail( "life", "an element is constructed where another one is still alive" );
    }
    void check( char const* what ) const
    {
        if ( !alive().count( this ) )
            fail( "life", "%s of an element that is not alive", what );
        if constexpr ( SELF )
            if ( self != this )
                fail( "life", "%s of an element that was moved bytewise", what );
    }
    explicit ObjT( V x = V( ~0ull ) ) : v( x ) { born(); }
    ObjT( ObjT const& o )
    {
        o.check( "copy" );
        v = o.v;
        fault_point();
        born();
    }
    ObjT& operator=( ObjT const& o )
    {
        o.check( "copy" );
        check( "assignment" );
        v = o.v;
        return *this;
    }
    ~ObjT()
    {
        check( "destruction" );
        alive().erase( this );
        ++gone;
    }
};
typedef ObjT< uint64_t >      Obj;
typedef ObjT< uint32_t >      Ob4;
typedef ObjT< unsigned char > Ob1;
template < class V >
struct El< ObjT< V > >
{
    static const uint64_t mod = sizeof( V ) >= 4 ? 1000000007ull : 251;
    static ObjT< V >      make( uint64_t v ) { return ObjT< V >( V( v % mod ) ); }
    static uint64_t       val( ObjT< V > const& t )
    {
        t.check( "read" );
        return t.v;
    }
    static char const* name() { return sizeof( V ) == 8 ? "object" : sizeof( V ) == 4 ? "object4" : "object1"; }
};

// knows its own address, but needs no destructor: shows bytewise copies and assignments to raw memory
struct Selfy
{
    uint64_t     v;
    Selfy const* self;
    void check( char const* what ) const
    {
        if ( self != this )
            fail( "life", "%s of an element that was copied bytewise or never constructed", what );
    }
    explicit Selfy( uint64_t x = ~0ull ) : v( x ), self( this ) {}
    Selfy( Selfy const& o )
    {
        o.check( "copy" );
        v = o.v;
        fault_point();
        self = this;
    }
    Selfy& operator=( Selfy const& o )
    {
        o.check( "copy" );
        check( "assignment" );
        v = o.v;
        return *this;
    }
};
template <>
struct El< Selfy >
{
    static const uint64_t mod = 1000000007ull;
    static Selfy       make( uint64_t v ) { return Selfy( v % mod ); }
    static uint64_t    val( Selfy const& t )
    {
        t.check( "read" );
        return t.v;
    }
    static char const* name() { return "self-pointing"; }
};
// has a copy constructor and nothing else
struct Minimal
{
    uint64_t const v;
    explicit Minimal( uint64_t x ) : v( x ) {}
    Minimal( Minimal const& o ) : v( o.v ) { fault_point(); }
    Minimal& operator=( Minimal const& ) = delete;
};
template <>
struct El< Minimal >
{
    static const uint64_t mod = 1000000007ull;
    static Minimal     make( uint64_t v ) { return Minimal( v % mod ); }
    static uint64_t    val( Minimal const& t ) { return t.v; }
    static char const* name() { return "copy-constructible only"; }
};
// a range whose iterators produce elements on the fly
template < class T >
struct Generated
{
    std::vector< uint64_t > const& vs;
    struct It
    {
        typedef std::input_iterator_tag iterator_category;
        typedef T                       value_type;
        typedef ptrdiff_t               difference_type;
        typedef T const*                pointer;
        typedef T                       reference;
        uint64_t const*                 p;
        T    operator*() const { return El< T >::make( *p ); }
        It&  operator++() { ++p; return *this; }
        It   operator++( int ) { It r = *this; ++p; return r; }
        bool operator==( It const& o ) const { return p == o.p; }
        bool operator!=( It const& o ) const { return p != o.p; }
    };
    It begin() const { return { vs.data() }; }
    It end() const { return { vs.data() + vs.size() }; }
};

// acceptable to queue (trivial destructor and assignment), but copying it may throw
struct Thrower
{
    uint64_t v;
    Thrower() : v( 0 ) {}
    explicit Thrower( uint64_t x ) : v( x ) {}
    Thrower( Thrower const& o ) : v( o.v ) { fault_point(); }
    Thrower& operator=( Thrower const& ) = default;
};
template <>
struct El< Thrower >
{
    static const uint64_t mod = 1000000007ull;
    static Thrower     make( uint64_t v ) { return Thrower( v % mod ); }
    static uint64_t    val( Thrower const& t ) { return t.v; }
    static char const* name() { return "throwing-copy"; }
};

// ---- receivers of converted elements
inline uint64_t conversions = 0;
template < class T >
struct Take // implicitly convertible
{
    uint64_t v = ~0ull - 1;
    Take() {}
    Take( T const& t ) : v( El< T >::val( t ) ) { ++conversions; }
    Take( Take const& ) = default;
    Take& operator=( Take const& ) = default;
    Take& operator=( T const& t )
    {
        v = El< T >::val( t );
        ++conversions;
        return *this;
    }
};
template < class T >
struct TakeX // only explicitly constructible, not assignable from T
{
    uint64_t v = ~0ull - 1;
    TakeX() {}
    explicit TakeX( T const& t ) : v( El< T >::val( t ) ) { ++conversions; }
};
template < class T >
struct TakeM // only explicitly constructible, takes ownership: move-only
{
    std::unique_ptr< uint64_t > p;
    TakeM() {}
    explicit TakeM( T const& t ) : p( new uint64_t( El< T >::val( t ) ) ) { ++conversions; }
    TakeM( TakeM&& ) = default;
    TakeM& operator=( TakeM&& ) = default;
    uint64_t val() const { return p ? *p : ~0ull - 1; }
};

// ---- shared memory that is mapped at another address for every call
struct Shm
{
    static const size_t  SZ = 1 << 20, SLOTS = 256;
    static inline char*  area = nullptr;
    static inline int    fd   = -1;
    static inline size_t slot = 0;
    static inline uint64_t moves = 0;
    static void map( size_t s )
    {
        if ( mmap( area + s * SZ, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0 ) == MAP_FAILED )
            abort();
        slot = s;
    }
    static void unmap()
    {
        if ( mmap( area + slot * SZ, SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0 ) == MAP_FAILED )
            abort();
    }
    static char* fresh( Rng& r ) // an empty segment
    {
        if ( !area ) {
            area = (char*)mmap( nullptr, SZ * SLOTS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
            fd   = memfd_create( "lockfree", 0 );
            if ( area == MAP_FAILED || fd < 0 )
                abort();
        } else
            unmap();
        if ( ftruncate( fd, 0 ) || ftruncate( fd, SZ ) )
            abort();
        map( r.below( SLOTS ) );
        return area + slot * SZ;
    }
    static ptrdiff_t move( Rng& r ) // to another address; the old one becomes inaccessible
    {
        size_t old = slot;
        unmap();
        map( ( old + 1 + r.below( SLOTS - 1 ) ) % SLOTS );
        ++moves;
        return ( ptrdiff_t( slot ) - ptrdiff_t( old ) ) * ptrdiff_t( SZ );
    }
};

// ---- counters
struct Stats
{
    uint64_t                       execs = 0, ops = 0, refused = 0, empties = 0, batches = 0, skipped = 0, checks = 0, wraps = 0, aged = 0;
    std::unordered_set< uint64_t > seen;
    std::string                    sample;
    std::map< std::string, uint64_t > per; // executions per configuration
};
inline Stats stats;
inline void  print_result( std::string const& extra = "" )
{
    std::string cfgs;
    for ( auto& p : stats.per )
        cfgs += ( cfgs.empty() ? "" : "," ) + ( "\"" + esc( p.first ) + "\":" + std::to_string( p.second ) );
    printf( "RESULT {\"executions\":%llu,\"distinct\":%zu,\"nontrivial\":%llu,\"ops\":%llu,\"refused\":%llu,\"found_empty\":%llu,\"batches\":%llu,\"skipped\":%llu,"
            "\"judged\":%llu,\"faults\":%llu,\"tag_wraps\":%llu,\"allocs\":%llu,\"element_copies\":%llu%s,\"configurations\":{%s},\"sample\":\"%s\"}\n",
            (unsigned long long)stats.execs, stats.seen.size(), (unsigned long long)stats.seen.size(), (unsigned long long)stats.ops, (unsigned long long)stats.refused,
            (unsigned long long)stats.empties, (unsigned long long)stats.batches, (unsigned long long)stats.skipped, (unsigned long long)stats.checks,
            (unsigned long long)faults_hit, (unsigned long long)stats.aged, (unsigned long long)mem_events, (unsigned long long)Obj::made, extra.c_str(), cfgs.c_str(), esc( stats.sample ).c_str() );
    fflush( stdout );
}
} // namespace nat
