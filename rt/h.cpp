#include "h.h"
namespace h {
int   cur_rec[ NT ];
Msg*  msgs;
Conv  conv[ NT ];
Stats stats;
std::string jsonesc( std::string const& s )
{
    std::string r;
    for ( char c : s )
        if ( c == '"' || c == '\\' )
            r += '\\', r += c;
        else if ( c == '\n' )
            r += "; ";
        else
            r += c;
    return r;
}
void print_result( Args const& a )
{
    Counters& c = total;
    printf( "RESULT {\"executions\":%llu,\"distinct\":%zu,\"nontrivial\":%llu,\"skipped\":%llu,\"ops\":%llu,\"events\":%llu,\"atomics\":%llu,"
            "\"plain\":%llu,\"switches\":%llu,\"preempt_in_op\":%llu,\"failed_rmw\":%llu,\"spurious_cas\":%llu,\"stale_reads\":%llu,"
            "\"race_checks\":%llu,\"heap_checks\":%llu,\"element_events\":%llu,\"allocs\":%llu,\"frees\":%llu,\"alloc_in_op\":%llu,"
            "\"max_op_steps\":%llu,\"refused\":%llu,\"found_empty\":%llu,\"oracle_states\":%llu,\"judged\":%llu,\"tag_wraps\":%llu,\"sample\":\"%s\"}\n",
            (unsigned long long)c.execs, stats.seen.size(), (unsigned long long)stats.nontrivial, (unsigned long long)stats.skipped,
            (unsigned long long)c.ops, (unsigned long long)c.steps, (unsigned long long)c.atomics, (unsigned long long)c.plains,
            (unsigned long long)c.switches, (unsigned long long)c.preempt_in_op, (unsigned long long)c.rmw_fail, (unsigned long long)c.spurious,
            (unsigned long long)c.stale_reads, (unsigned long long)c.race_checks, (unsigned long long)c.heap_checks,
            (unsigned long long)c.obj_events, (unsigned long long)c.allocs, (unsigned long long)c.frees, (unsigned long long)c.alloc_in_op,
            (unsigned long long)c.max_op_steps, (unsigned long long)stats.fails, (unsigned long long)stats.empties,
            (unsigned long long)stats.visited, (unsigned long long)stats.judged, (unsigned long long)stats.aged, jsonesc( stats.sample ).c_str() );
    fflush( stdout );
    (void)a;
}
} // namespace h
