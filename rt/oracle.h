// Linearizability oracle (Wing & Gong search with memoisation) for FIFO and LIFO containers.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace oracle {
enum Type : uint8_t
{
    ADD,       // v[] inserted, in this order, in one step
    REM,       // v[0] removed
    REM_EMPTY, // found empty
    REM_ALL,   // exactly v[] removed in one step (in removal order)
    SEEN_EMPTY,
    SEEN_NONEMPTY,
};
struct LOp
{
    Type                    type;
    std::vector< uint32_t > v;
    uint64_t                pred = 0; // ops that must come before
};
// 1 if some order of ops is a legal sequential history, 0 if none is, -1 if the search was given up after visiting
// limit states. ops.size() <= 64, values are unique
int linearizable( bool lifo, std::vector< LOp > const& ops, uint64_t* visited = nullptr, uint64_t limit = 2000000 );
} // namespace oracle
