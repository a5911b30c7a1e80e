// lfmon: run-time monitor behind the __tsan_* instrumentation ABI.
//
// Harness + library under test are compiled with -fsanitize=thread and linked with lfmon.cpp instead
// of the compiler's race detector. Logical threads are fibers on one OS thread, so each execution is a
// deterministic function of its seed. See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>

namespace lfmon {

constexpr int MAXT = 8;        // fibers per execution
constexpr int NT   = MAXT + 1; // + the main context (index MAXT)

struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567 ) { next(); }
    uint64_t next()
    {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
        z          = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z          = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }
    uint32_t below( uint32_t n ) { return n ? uint32_t( ( ( next() >> 32 ) * n ) >> 32 ) : 0; }
    bool     chance( uint32_t num, uint32_t den ) { return below( den ) < num; }
};

// which monitors may report in this run
enum Monitors : uint32_t
{
    MON_HEAP  = 1,  // access outside live memory, use after free, uninitialised read, bad free
    MON_RACE  = 2,  // data race on memory declared race-free (needs hb tracking)
    MON_LIFE  = 4,  // element life-state violations
    MON_STEPS = 8,  // per-operation step bound
    MON_ALLOC = 16, // allocator/heap use inside operations that must not allocate
    MON_OBJ   = 32, // race rules on element copies (construct / committed read / destroy)
};

struct Options
{
    uint64_t seed      = 1; // of this execution
    uint32_t monitors  = 0;
    bool     hb        = false;   // track happens-before (vector clocks, store histories)
    uint32_t stale     = 0;       // percent of non-SC loads that may return an older value (needs hb)
    uint32_t weakfail  = 0;       // percent of weak CAS that fail spuriously
    uint64_t run_bound = 2000000; // steps per run() before "stuck"
    uint32_t strategy  = 0;       // 0 random, 1 pct, 2 round robin with quantum
    uint32_t switch_pm = 250;     // random: per mille switch probability per event
    uint32_t pct_depth = 2;
    uint32_t est_len   = 300;
    uint32_t quantum   = 1;
    int      slow      = -1; // round robin: this fiber gets about one event per turn, the others about `quantum`
    uint32_t slow_pc   = 80; // ... exactly one with this probability
};

struct Stamp // taken at call / return of an operation
{
    uint64_t step      = 0; // global logical time
    uint32_t clk[ NT ] = {}; // vector clock (hb mode)
    int      tid       = 0;
};

// ---- lifecycle of an execution (called from the main context)
void init();
void exec_begin( Options const& );
void exec_end();
int  spawn( void ( *fn )( void* ), void* arg ); // returns fiber id
// runs fibers until all are done or frozen. Returns number of frozen fibers, -1 if stuck.
int  run();
void freeze_at( int fiber, uint64_t nth ); // freeze when the fiber reaches its nth event from now on
void unfreeze( int fiber );
bool is_frozen( int fiber );
bool is_done( int fiber );
bool in_op( int fiber );
void sync_point(); // quiescence: everybody sees everything (called by main between phases)
void set_schedule( uint32_t strategy, uint32_t switch_pm );

// ---- inside fibers (or main)
int      self(); // fiber id, MAXT for main
Stamp    op_begin( uint64_t bound = 0 ); // bound: steps allowed (MON_STEPS), 0 none
Stamp    op_end();
void     forbid_alloc();            // current operation must not touch the allocator (MON_ALLOC), until op_end
void     set_bound( uint64_t steps ); // step bound of the current operation, counted from its start
uint64_t op_steps();
uint64_t step_now();
Stamp    stamp_now();
void     yield_point(); // counts as one event
bool     hb( Stamp const& end, Stamp const& begin );

// ---- monitored memory
constexpr uintptr_t ARENA_BASE = 0x100000000000ull;
constexpr size_t    ARENA_SIZE = 16u << 20;
inline bool in_arena( void const* p ) { return uintptr_t( p ) - ARENA_BASE < ARENA_SIZE; }
enum { A_STRICT = 1, A_BLOCK = 2 };
void* alloc( size_t size, size_t align, int flags = 0 ); // poisoned, uninitialised
void  release( void* p, size_t size );                   // freed memory is never reused; checks A_BLOCK
void  drop( void* p, size_t size );                      // end of storage of a placement object
void  declare_init( void* p, size_t size );
void  set_strict( void* p, size_t size, bool on );
// route operator new / malloc of the code between begin and end to monitored memory
struct Capture
{
    bool old;
    Capture( bool on = true );
    ~Capture();
};

void capture_ops( bool on ); // the same for everything between op_begin and op_end

// ---- element-level observation (called from instrumented element types; any memory)
void   obj_construct( void const* p, size_t size ); // life + write event
void   obj_destroy( void const* p, size_t size );   // life + write event
void   obj_read( void const* p, size_t size );      // life + committed read event
void   spec_read( void const* p, size_t size );     // remembered, judged at commit
void   spec_commit();                               // the last spec_read was used
size_t live_objects();                              // life-tracked objects in the arena

// ---- counters
struct Counters
{
    uint64_t execs, steps, switches, preempt_in_op, atomics, plains, rmw_fail, spurious, stale_reads;
    uint64_t race_checks, heap_checks, obj_events;
    uint64_t ops, allocs, frees, alloc_in_op, free_in_op, heap_in_op;
    uint64_t max_op_steps, stuck;
};
extern Counters total; // cumulative over executions
extern Counters cur;   // of this execution
uint64_t sched_hash(); // of this execution
uint64_t live_blocks(); // A_BLOCK blocks not yet released
void     count_alloc(); // allocator observed (used by client allocators)
void     count_free();

// ---- violations: prints one line and ends the process with code 1
[[noreturn]] void violation( char const* kind, char const* fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
extern char       context[ 1024 ];         // free text included in reports (config / execution id)
void              set_dump( void ( *fn )() ); // called before exit: may print the history
} // namespace lfmon
