#pragma once
#include "lin.hpp"
#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>

template < typename Q >
struct QAd
{
    static const bool lifo = false;
    Q                 q;
    QAd() : q( mk< Q >::n() ) {}
    template < typename X > struct mk { static int n() { return 1; } };
    std::string op( char k, int v, int )
    {
        int r = -1;
        auto f = [ & ]( int x ) { r = x; };
        switch ( k ) {
        case 'p': return q.push( v ) ? "ok" : "full";
        case 'b': return q.bounded_push( v ) ? "ok" : "full";
        case 'o': return q.pop( r ) ? "v" + std::to_string( r ) : "none";
        case 'x': { long l = -1; return q.pop( l ) ? "v" + std::to_string( l ) : "none"; }
        case 'c': return q.consume_one( f ) ? "v" + std::to_string( r ) : "none";
        case 'C': { auto const& cf = f; return q.consume_one( cf ) ? "v" + std::to_string( r ) : "none"; }
        case 'e': return q.empty() ? "E" : "N";
        }
        return "?";
    }
};
template < typename S >
struct SAd
{
    static const bool lifo = true;
    S                 s;
    template < typename... A > SAd( A... a ) : s( a... ) {}
    std::string op( char k, int v, int v2 )
    {
        int  r = -1;
        auto f = [ & ]( int x ) { r = x; };
        std::string l = "[";
        auto g = [ & ]( int x ) { l += std::to_string( x ) + ","; };
        auto const& cf = f; auto const& cg = g;
        int a[ 2 ] = { v, v2 };
        switch ( k ) {
        case 'p': return s.push( v ) ? "ok" : "full";
        case 'b': return s.bounded_push( v ) ? "ok" : "full";
        case 'R': return s.push( a, a + 2 ) == a + 2 ? "ok" : "full";
        case 'o': return s.pop( r ) ? "v" + std::to_string( r ) : "none";
        case 'c': return s.consume_one( f ) ? "v" + std::to_string( r ) : "none";
        case 'C': return s.consume_one( cf ) ? "v" + std::to_string( r ) : "none";
        case 'e': return s.empty() ? "E" : "N";
        case 'A': s.consume_all_atomic( g ); return l + "]";
        case 'K': s.consume_all_atomic( cg ); return l + "]";
        case 'V': s.consume_all_atomic_reversed( g ); return l + "]";
        case 'W': s.consume_all_atomic_reversed( cg ); return l + "]";
        }
        return "?";
    }
};
