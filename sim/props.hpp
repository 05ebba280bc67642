// Small helpers shared by the scenarios.
#pragma once
#include "model.hpp"
#include <algorithm>
#include <set>

namespace sim
{
template<typename F>
auto sys( F && f ) // run f as code of the system under test
{
    Scope s;
    return f();
}
// a body using the library directly
inline Result run_lib( World & w, const std::function<void()> & f, const Plan & p )
{
    return run_proc(
        w,
        [&]() -> int
        {
            f();
            return 0;
        },
        p );
}
using Tree = std::map<string, string>;
inline string first_difference( const Tree & a, const Tree & b, const char * an, const char * bn )
{
    for( auto & [n, x] : a )
    {
        auto it = b.find( n );
        if( it == b.end() )
            return strf( "%s exists in %s only", n.c_str(), an );
        if( it->second != x )
        {
            size_t i = 0;
            while( i < x.size() && i < it->second.size() && x[i] == it->second[i] )
                i++;
            size_t l0 = i ? x.rfind( '\n', i - 1 ) : string::npos;
            l0        = l0 == string::npos ? 0 : l0 + 1;
            return strf( "%s differs at byte %zu: %s has '%s', %s has '%s'", n.c_str(), i, an,
                         x.substr( l0, 90 ).c_str(), bn, it->second.substr( std::min( l0, it->second.size() ), 90 ).c_str() );
        }
    }
    for( auto & [n, x] : b )
        if( !a.count( n ) )
            return strf( "%s exists in %s only", n.c_str(), bn );
    return "";
}
// input files for a run, now and then
struct Inputs
{
    optional<string> agents, network;
    optional<vector<AgentRec>> a;
    optional<Rows> r;
};
inline Inputs gen_inputs( World & w, const Cfg & c, int agents_pct = 40, int network_pct = 40 )
{
    Inputs in;
    if( w.ch.chance( u64( agents_pct ), 100 ) )
    {
        in.a      = gen_agents( w.ch, c );
        in.agents = "/w/in/agents.txt";
        w.put( *in.agents, text_agents( c.kind, *in.a ) );
    }
    if( w.ch.chance( u64( network_pct ), 100 ) )
    {
        in.r       = gen_rows( w.ch, c.n, c.kind == Kind::DeGroot );
        in.network = "/w/in/network.txt";
        w.put( *in.network, text_network( *in.r ) );
    }
    return in;
}
inline Tree outputs( World & w, const string & dir ) // opinions_*/network_* of an output directory
{
    Tree t;
    for( auto & [n, b] : w.tree( dir ) )
        if( n.rfind( "opinions_", 0 ) == 0 || n.rfind( "network_", 0 ) == 0 )
            t[n] = b;
    return t;
}
inline const char * all_real
    = "main, config parser, simulation loop, models, network, generation, file readers and writers, sampling and "
      "distributions, libstdc++ streams and filesystem";
inline const char * all_stub
    = "disk (in-memory file system under libc calls), clocks, random_device, process start and kill, stdout; mt19937 is "
      "real behind a pass-through seam";
} // namespace sim
