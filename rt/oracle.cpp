#include "oracle.h"
#include <cstring>
#include <unordered_map>
#include <unordered_set>

namespace oracle {
namespace {
struct Solver
{
    bool                      lifo;
    std::vector< LOp > const& ops;
    uint64_t                  all;
    std::vector< uint32_t >   st; // lifo: back is top; fifo: [head, end)
    size_t                    head = 0;
    std::unordered_set< uint64_t > seen;
    uint64_t                  visited = 0;

    size_t   size() const { return st.size() - head; }
    uint64_t key( uint64_t done ) const
    {
        uint64_t h = done * 0x9E3779B97F4A7C15ull;
        for ( size_t i = head; i < st.size(); ++i )
            h = ( h ^ st[ i ] ) * 0xBF58476D1CE4E5B9ull, h ^= h >> 29;
        return h ^ ( size() << 56 );
    }
    bool apply( LOp const& o )
    {
        switch ( o.type ) {
        case ADD: st.insert( st.end(), o.v.begin(), o.v.end() ); return true;
        case REM_EMPTY:
        case SEEN_EMPTY: return size() == 0;
        case SEEN_NONEMPTY: return size() != 0;
        case REM:
            if ( !size() )
                return false;
            if ( lifo ) {
                if ( st.back() != o.v[ 0 ] )
                    return false;
                st.pop_back();
            } else {
                if ( st[ head ] != o.v[ 0 ] )
                    return false;
                ++head;
            }
            return true;
        case REM_ALL:
            if ( size() != o.v.size() )
                return false;
            for ( size_t i = 0; i < o.v.size(); ++i )
                if ( o.v[ i ] != ( lifo ? st[ st.size() - 1 - i ] : st[ head + i ] ) )
                    return false;
            if ( lifo )
                st.resize( head );
            else
                head = st.size();
            return true;
        }
        return false;
    }
    void undo( LOp const& o )
    {
        switch ( o.type ) {
        case ADD: st.resize( st.size() - o.v.size() ); break;
        case REM:
            if ( lifo )
                st.push_back( o.v[ 0 ] );
            else
                --head;
            break;
        case REM_ALL:
            if ( lifo )
                for ( size_t i = o.v.size(); i-- > 0; )
                    st.push_back( o.v[ i ] );
            else
                head -= o.v.size();
            break;
        default: break;
        }
    }
    // nothing below may have to leave before the new element
    bool dead_add( LOp const& o )
    {
        for ( uint32_t b : o.v ) {
            auto rb = rem_of.find( b );
            if ( rb == rem_of.end() )
                continue;
            uint64_t before = ops[ rb->second ].pred;
            for ( size_t i = head; i < st.size(); ++i ) {
                auto ra = rem_of.find( st[ i ] );
                if ( ra != rem_of.end() && ( before >> ra->second & 1 ) )
                    return true;
            }
        }
        return false;
    }
    uint64_t limit = 0;
    bool     given_up = false;
    uint64_t nonempty = 0; // SEEN_NONEMPTY operations
    std::unordered_map< uint32_t, int > rem_of;
    bool dfs( uint64_t done )
    {
        if ( done == all )
            return true;
        if ( limit && visited >= limit )
            given_up = true;
        if ( given_up )
            return false;
        if ( !seen.insert( key( done ) ).second )
            return false;
        ++visited;
        // operations without effect may come as early as they are legal
        for ( size_t i = 0; i < ops.size(); ++i )
            if ( !( done >> i & 1 ) && !( ops[ i ].pred & ~done ) && ops[ i ].type >= REM_EMPTY && ops[ i ].type != REM_ALL && apply( ops[ i ] ) )
                return dfs( done | 1ull << i );
        // taking the top element as soon as it is legal: whatever an order does before is balanced on top of it
        if ( lifo )
            for ( size_t i = 0; i < ops.size(); ++i )
                if ( !( done >> i & 1 ) && !( ops[ i ].pred & ~done ) && ( ops[ i ].type == REM || ops[ i ].type == REM_ALL ) &&
                     ( !( nonempty & ~done ) || ( ops[ i ].type == REM && size() > 1 ) ) && apply( ops[ i ] ) ) {
                    if ( dfs( done | 1ull << i ) )
                        return true;
                    undo( ops[ i ] );
                    return false;
                }
        for ( size_t i = 0; i < ops.size(); ++i ) {
            if ( done >> i & 1 || ( ops[ i ].pred & ~done ) )
                continue;
            if ( lifo && ops[ i ].type == ADD && dead_add( ops[ i ] ) )
                continue;
            if ( apply( ops[ i ] ) ) {
                if ( dfs( done | 1ull << i ) )
                    return true;
                undo( ops[ i ] );
            }
        }
        return false;
    }
};
} // namespace

// What is known about the order of some operations implies more in every legal order; adding it makes the search
// short. Returns false if there cannot be a legal order.
static bool imply( bool lifo, std::vector< LOp >& ops )
{
    struct El
    {
        int add = -1, ai = 0, rem = -1, ri = 0;
    };
    std::unordered_map< uint32_t, El > els;
    std::vector< int >                 empties;
    for ( size_t i = 0; i < ops.size(); ++i ) {
        for ( size_t k = 0; k < ops[ i ].v.size(); ++k ) {
            El& e = els[ ops[ i ].v[ k ] ];
            if ( ops[ i ].type == ADD )
                e.add = i, e.ai = k;
            else
                e.rem = i, e.ri = k;
        }
        if ( ops[ i ].type == REM_EMPTY || ops[ i ].type == SEEN_EMPTY )
            empties.push_back( i );
    }
    std::vector< El > v;
    for ( auto& p : els )
        if ( p.second.add >= 0 && p.second.rem >= 0 ) {
            ops[ p.second.rem ].pred |= 1ull << p.second.add;
            v.push_back( p.second );
        }
    auto before = [ & ]( int a, int b ) { return ( ops[ b ].pred >> a & 1 ) != 0; };
    for ( bool change = true; change; ) {
        change     = false;
        auto order = [ & ]( int a, int b ) { // a before b
            if ( a != b && !before( a, b ) )
                ops[ b ].pred |= 1ull << a, change = true;
        };
        for ( size_t k = 0; k < ops.size(); ++k ) // transitive closure
            for ( size_t i = 0; i < ops.size(); ++i )
                if ( ops[ i ].pred >> k & 1 && ( ops[ k ].pred & ~ops[ i ].pred ) )
                    ops[ i ].pred |= ops[ k ].pred, change = true;
        for ( size_t i = 0; i < ops.size(); ++i )
            if ( ops[ i ].pred >> i & 1 )
                return false;
        for ( El& a : v ) {
            for ( int e : empties ) {
                if ( before( a.add, e ) )
                    order( a.rem, e );
                if ( before( e, a.rem ) )
                    order( e, a.add );
            }
            for ( El& b : v ) {
                if ( &a == &b )
                    continue;
                if ( !lifo ) {
                    bool aa = a.add != b.add ? before( a.add, b.add ) : a.ai < b.ai;
                    bool rr = a.rem != b.rem ? before( a.rem, b.rem ) : a.ri < b.ri;
                    if ( aa )
                        order( a.rem, b.rem );
                    if ( rr )
                        order( a.add, b.add );
                } else if ( a.add != b.add && a.rem != b.rem && before( a.add, b.add ) ) {
                    if ( before( b.add, a.rem ) )
                        order( b.rem, a.rem );
                    if ( before( a.rem, b.rem ) )
                        order( a.rem, b.add );
                }
            }
        }
    }
    return true;
}

int linearizable( bool lifo, std::vector< LOp > const& in, uint64_t* visited, uint64_t limit )
{
    std::vector< LOp > ops( in );
    if ( !imply( lifo, ops ) )
        return 0;
    Solver s { lifo, ops, ops.size() == 64 ? ~0ull : ( 1ull << ops.size() ) - 1 };
    s.limit = limit;
    for ( size_t i = 0; i < ops.size(); ++i ) {
        if ( ops[ i ].type == SEEN_NONEMPTY )
            s.nonempty |= 1ull << i;
        if ( ops[ i ].type == REM || ops[ i ].type == REM_ALL )
            for ( uint32_t x : ops[ i ].v )
                s.rem_of[ x ] = i;
    }
    bool r = s.dfs( 0 );
    if ( visited )
        *visited += s.visited;
    return r ? 1 : s.given_up ? -1 : 0;
}
} // namespace oracle
