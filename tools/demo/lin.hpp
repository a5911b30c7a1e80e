// Stall sweep: one victim operation is stopped before each of its atomic operations in turn, another thread runs a
// short sequential script, the victim resumes; the results must be those of the victim's operation taking effect
// atomically somewhere in the script.
#pragma once
#include "fib.hpp"
#include <random>
#include <algorithm>

struct Model
{
    std::vector< int > c; // front = next out for a queue, back = top for a stack
    bool               lifo;
    std::string        op( char k, int v, int v2 )
    {
        switch ( k ) {
        case 'p': case 'b': case 'u': c.push_back( v ); return "ok";
        case 'R': c.push_back( v ); c.push_back( v2 ); return "ok";
        case 'e': return c.empty() ? "E" : "N";
        case 'o': case 'c': case 'C': case 'U': case 'x':
            {
                if ( c.empty() ) return "none";
                int r = lifo ? c.back() : c.front();
                if ( lifo ) c.pop_back(); else c.erase( c.begin() );
                return "v" + std::to_string( r );
            }
        case 'A': case 'a': case 'K': case 'V': case 'W':
            {
                std::string s = "[";
                if ( lifo && k != 'V' && k != 'W' ) std::reverse( c.begin(), c.end() );
                for ( int x : c ) s += std::to_string( x ) + ",";
                c.clear();
                return s + "]";
            }
        }
        return "?";
    }
};

template < typename Ad > // Ad: construct empty; std::string op(char,int,int); static const bool lifo
struct Sweep
{
    struct Op { char k; int v, v2; std::string r; };
    struct Vic { Op o; int id = -1; size_t lo = 0, hi = 0; bool started = false, done = false; };
    std::string        log;
    std::vector< Op >  S; // what the sequential thread did
    std::vector< Vic > V;
    std::unique_ptr< Ad > ad;

    static bool step( Model& m, Op const& o )
    {
        if ( o.r == "full" ) return true; // refused for lack of a node: no effect
        return m.op( o.k, o.v, o.v2 ) == o.r;
    }
    bool explain( std::string const& rest )
    {
        size_t n = S.size();
        size_t l0 = V.size() > 0 ? V[ 0 ].lo : 0, h0 = V.size() > 0 ? V[ 0 ].hi : 0, l1 = V.size() > 1 ? V[ 1 ].lo : 0, h1 = V.size() > 1 ? V[ 1 ].hi : 0;
        for ( size_t p0 = l0; p0 <= h0; ++p0 )
            for ( size_t p1 = l1; p1 <= h1; ++p1 )
                for ( int sw = 0; sw < 2; ++sw ) {
                    Model m { {}, Ad::lifo };
                    bool  ok = true;
                    for ( size_t i = 0; i <= n && ok; ++i ) {
                        for ( int w = 0; w < 2 && ok; ++w ) {
                            size_t j = size_t( sw ? 1 - w : w );
                            if ( j < V.size() && ( j == 0 ? p0 : p1 ) == i ) ok = step( m, V[ j ].o );
                        }
                        if ( i < n && ok ) ok = step( m, S[ i ] );
                    }
                    if ( !ok ) continue;
                    std::string mr;
                    while ( !m.c.empty() ) mr += m.op( 'o', 0, 0 ) + " ";
                    if ( mr == rest ) return true;
                }
        return false;
    }
    bool script( std::vector< Op > ops )
    {
        Ad* a = ad.get();
        auto* s = &S;
        int id = fib::spawn( [ a, s, ops ] { for ( Op o : ops ) { o.r = a->op( o.k, o.v, o.v2 ); s->push_back( o ); } } );
        if ( !fib::run( id, 200000 ) ) { log = "operations do not finish while another thread is stopped"; return false; }
        return true;
    }
    // let victim i execute n atomic operations
    bool move( size_t i, long n )
    {
        Vic& v = V[ i ];
        if ( v.done ) return true;
        if ( !v.started ) {
            v.started = true;
            v.lo      = S.size();
            Op* o = &v.o;
            Ad* a = ad.get();
            v.id = fib::spawn( [ o, a ] { o->r = a->op( o->k, o->v, o->v2 ); } );
        }
        if ( fib::run( v.id, n ) ) { v.done = true; v.hi = S.size(); }
        else if ( n >= 200000 ) { log = "the resumed operation does not finish"; return false; }
        return true;
    }
    // kinds of operations for the stopped and the running threads; number of scenarios; longest start, longest script;
    // stopped threads (0..2); phases: how often a stopped thread is let go on for a few steps
    int run( const char* vk, const char* ok, unsigned seeds, int prelen, int scriptlen, int nvict = 1, int phases = 1 )
    {
        for ( unsigned s = 1; s <= seeds; ++s )
            for ( long k = 0; k < ( phases > 1 || nvict > 1 ? 4 : 24 ); ++k ) {
                std::mt19937 g( s );
                int          next = 1;
                auto mk  = [ & ]( char c ) { Op o { c, next, next + 1, "" }; next += 2; return o; };
                auto any = [ & ]( int mx ) { std::vector< Op > r; int n = int( g() % unsigned( mx + 1 ) ); for ( int i = 0; i < n; ++i ) r.push_back( mk( ok[ g() % strlen( ok ) ] ) ); return r; };
                fib::reset();
                S.clear(); V.clear();
                ad.reset( new Ad );
                std::vector< Op > pre;
                for ( int i = int( g() % unsigned( prelen + 1 ) ); i > 0; --i ) pre.push_back( mk( g() % 3 ? 'p' : 'o' ) );
                V.resize( size_t( nvict ) );
                for ( auto& v : V ) v.o = mk( vk[ g() % strlen( vk ) ] );
                bool fine = script( pre );
                if ( phases <= 1 && nvict == 1 )
                    fine = fine && move( 0, k ) && script( any( scriptlen ) ) && move( 0, 200000 ) && script( any( scriptlen / 2 ) );
                else {
                    g.discard( unsigned( k * 7 ) );
                    for ( int p = 0; p < phases * nvict && fine; ++p )
                        fine = move( size_t( int( g() ) & 1 ? p % nvict : int( g() % unsigned( nvict ) ) ), long( g() % ( p ? 8 : 12 ) ) ) && script( any( scriptlen ) );
                    for ( int i = 0; i < nvict && fine; ++i ) fine = move( size_t( i ), 200000 ) && script( any( scriptlen / 2 ) );
                }
                std::string rest;
                if ( fine ) {
                    for ( int i = 0; i < 200; ++i ) { std::string r = ad->op( 'o', 0, 0 ); if ( r == "none" ) break; rest += r + " "; if ( i == 199 ) rest += "endless"; }
                    fine = explain( rest );
                    if ( !fine ) {
                        log = "no atomic effect explains:";
                        for ( Op& o : S ) log += std::string( " " ) + o.k + std::to_string( o.v ) + "=" + o.r;
                        for ( Vic& v : V ) log += std::string( " | stopped: " ) + v.o.k + std::to_string( v.o.v ) + "=" + v.o.r + "@" + std::to_string( v.lo ) + ".." + std::to_string( v.hi );
                        log += " | left: " + rest;
                    }
                }
                if ( !fine ) { printf( "PROPERTY BROKEN: %s\n", log.c_str() ); fflush( stdout ); _exit( 1 ); }
            }
        ad.reset();
        printf( "holds\n" );
        return 0;
    }
};
