// P12-P20: every step of a run against the definition of its model.
#include "props.hpp"

namespace sim
{
namespace
{
template<typename F>
void each_step( const History & h, F f ) // f(prev, next)
{
    for( auto & s : h.sessions )
        for( size_t i = 0; i + 1 < s.snaps.size(); i++ )
        {
            f( s.snaps[i], s.snaps[i + 1] );
            state_hash( &s.snaps[i + 1].a[0].opinion, sizeof( double ) );
        }
}
string at( const History & h, const Snap & s, const string & what )
{
    return h.cfg.brief() + strf( " seed=%d, iteration %zu: ", h.cfg.seed.value_or( 0 ), s.k ) + what;
}
// a run has to end with the state of its last iteration
void all_there( const History & h )
{
    size_t last = 0;
    for( auto & s : h.sessions )
        for( auto & q : s.snaps )
            last = std::max( last, q.k );
    if( last != size_t( *h.cfg.max_iter ) && !( h.cfg.kind == Kind::DeGroot ) )
        violate( "iteration count", h.cfg.brief() + strf( ": last state is number %zu", last ) );
}
void ramp( const History & h ) // opinions i/n unless loaded
{
    for( auto & s : h.sessions )
        if( !s.loaded_agents && !s.snaps.empty() && s.first == 0 )
            for( size_t i = 0; i < h.cfg.n; i++ )
                if( !close( s.snaps[0].a[i].opinion, double( i ) / double( h.cfg.n ), 1, 1e-12 ) )
                    violate( "initial opinions", at( h, s.snaps[0], strf( "agent %zu starts at %s", i, fmt_double( s.snaps[0].a[i].opinion ).c_str() ) ) );
}
} // namespace

// ------------------------------------------------------------------ P12
static void p12( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::DeGroot };
    o.max_iter = 12;
    Cfg c      = gen_cfg( w.ch, o );
    c.tol      = w.ch.pick( vector<double>{ 0.0, 0.0, 1e-9 } );
    if( w.ch.chance( 1, 12 ) )
    {
        // long run: only the limit counts
        c.n        = std::min<size_t>( c.n, 12 );
        c.nconn    = std::min( c.nconn, c.n - 1 );
        c.max_iter = int( w.ch.range( 50, 600 ) );
        c.tol      = 0.0;
        c.out_agents.reset();
        c.out_agents  = size_t( *c.max_iter );
        c.out_network.reset();
        c.out_initial = true;
        Plan p;
        add_noise( w.ch, p );
        sample( c.brief() );
        expect_ok( run_cfg( w, c, "/w/out", p ), c.brief() );
        Snap s = read_snap( w, c, "/w/out", 0 );
        vector<double> x;
        for( auto & a : s.a )
            x.push_back( a.opinion );
        for( int k = 0; k < *c.max_iter; k++ )
            x = ref_degroot( x, s.net, nullptr );
        string err;
        auto last = parse_agents( c.kind, w.get( strf( "/w/out/opinions_%d.txt", *c.max_iter ) ), err );
        if( !last || last->size() != c.n )
            violate( "unreadable snapshot", err );
        for( size_t i = 0; i < c.n; i++ )
            if( !close( ( *last )[i].opinion, x[i], 1, 1e-9 ) )
                violate( "long run", c.brief() + strf( ": opinion %zu is %s, expected %s", i, fmt_double( ( *last )[i].opinion ).c_str(),
                                                       fmt_double( x[i] ).c_str() ) );
        // one strongly connected component whose members listen to themselves: consensus
        if( c.nconn + 1 == c.n && *c.max_iter > 400 )
        {
            double lo = 1, hi = 0;
            for( auto & a : *last )
                lo = std::min( lo, a.opinion ), hi = std::max( hi, a.opinion );
            if( hi - lo > 1e-6 )
                violate( "no consensus", c.brief() + strf( ": spread %g after %d iterations", hi - lo, *c.max_iter ) );
        }
        probe( 1 );
        nontrivial();
        return;
    }
    HistOpt ho;
    ho.overrides = false;
    bool general = false;
    if( w.ch.chance( 1, 2 ) )
        ho.agents = gen_agents( w.ch, c );
    if( w.ch.chance( 1, 2 ) )
    {
        general    = w.ch.chance( 1, 3 ); // rows that do not sum to one, empty rows, repeated neighbours
        ho.network = gen_rows( w.ch, c.n, !general, 6, w.ch.chance( 1, 3 ) );
    }
    sample( c.brief() );
    History h = run_history( w, c, ho );
    ramp( h );
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            if( !same_rows( p.net, q.net ) || ( ho.network && !same_rows( *ho.network, q.net ) ) )
                violate( "network changed", at( h, q, "the network of a DeGroot run is fixed" ) );
            vector<double> x, scale;
            for( auto & a : p.a )
                x.push_back( a.opinion );
            auto y = ref_degroot( x, p.net, &scale );
            for( size_t i = 0; i < c.n; i++ )
            {
                if( !close( y[i], q.a[i].opinion, scale[i] ) )
                    violate( "wrong update", at( h, q, strf( "opinion of %zu is %s, the weighted average is %s", i, fmt_double( q.a[i].opinion ).c_str(),
                                                             fmt_double( y[i] ).c_str() ) ) );
                if( !general )
                {
                    double lo = 1e300, hi = -1e300;
                    for( auto j : p.net.nb[i] )
                        lo = std::min( lo, x[j] ), hi = std::max( hi, x[j] );
                    if( q.a[i].opinion < lo - 1e-9 * ( 1 + std::fabs( lo ) ) || q.a[i].opinion > hi + 1e-9 * ( 1 + std::fabs( hi ) ) )
                        violate( "leaves the range of its neighbours", at( h, q, strf( "agent %zu", i ) ) );
                }
            }
            probe( 0 );
            nontrivial();
        } );
}
static Register r12( { "P12", p12, 32000, 1230000,
                       "DeGroot runs on generated and loaded networks and opinions, killed and resumed at random operations; every step "
                       "is compared with the weighted average; non-trivial when a step was compared",
                       all_real, all_stub, { "steps", "long_runs" } } );

// ------------------------------------------------------------------ P13
namespace
{
void pair_rule( vector<double> & x, size_t a, size_t b, double mu )
{
    double d = x[a] - x[b];
    x[a] -= mu * d;
    x[b] += mu * d;
}
// every state n interactions can lead to; ambiguous comparisons go both ways
bool reachable( const vector<double> & x, const vector<std::pair<size_t, size_t>> & pairs, size_t left, double thr, double mu,
                const vector<double> & goal, bool exact )
{
    if( !left )
    {
        for( size_t i = 0; i < x.size(); i++ )
            if( !close( x[i], goal[i], 1, 1e-9 ) )
                return false;
        return true;
    }
    for( auto & [a, b] : pairs )
    {
        double d = std::fabs( x[a] - x[b] );
        bool tie = !exact && std::fabs( d - thr ) < 1e-12 * ( 1 + thr );
        if( d < thr || tie )
        {
            auto y = x;
            pair_rule( y, a, b, mu );
            if( reachable( y, pairs, left - 1, thr, mu, goal, exact ) )
                return true;
        }
        if( !( d < thr ) || tie )
            if( reachable( x, pairs, left - 1, thr, mu, goal, exact ) )
                return true;
    }
    return false;
}
struct Hull
{
    double lo, hi, sum0 = 0, sum1 = 0, scale = 0;
};
// components of agents that could interact, given who is adjacent
vector<int> components( const vector<double> & x, double thr, const std::function<bool( size_t, size_t )> & adj )
{
    size_t n = x.size();
    vector<int> c( n );
    vector<double> lo = x, hi = x;
    for( size_t i = 0; i < n; i++ )
        c[i] = int( i );
    for( bool go = true; go; )
    {
        go = false;
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < i; j++ )
                if( c[i] != c[j] && adj( i, j ) )
                {
                    size_t a = size_t( c[i] ), b = size_t( c[j] );
                    double dist = std::max( { 0.0, lo[a] - hi[b], lo[b] - hi[a] } );
                    if( dist < thr * ( 1 + 1e-9 ) + 1e-12 )
                    {
                        lo[a] = std::min( lo[a], lo[b] ), hi[a] = std::max( hi[a], hi[b] );
                        for( auto & q : c )
                            if( q == int( b ) )
                                q = int( a );
                        go = true;
                    }
                }
    }
    return c;
}
void check_components( const History & h, const Snap & p, const Snap & q, const vector<int> & c )
{
    std::map<int, Hull> g;
    for( size_t i = 0; i < p.a.size(); i++ )
    {
        double x = p.a[i].opinion, y = q.a[i].opinion;
        auto it  = g.emplace( c[i], Hull{ x, x } ).first;
        auto & u = it->second;
        u.lo     = std::min( u.lo, x );
        u.hi     = std::max( u.hi, x );
        u.sum0 += x, u.sum1 += y, u.scale += std::fabs( x ) + 1e-3;
    }
    for( size_t i = 0; i < p.a.size(); i++ )
    {
        auto & u = g.at( c[i] );
        double y = q.a[i].opinion, tol = 1e-9 * ( 1 + std::fabs( u.lo ) + std::fabs( u.hi ) );
        if( !( y >= u.lo - tol && y <= u.hi + tol ) )
            violate( "leaves the range of those it may talk to",
                     at( h, q, strf( "agent %zu went from %s to %s, range [%g, %g]", i, fmt_double( p.a[i].opinion ).c_str(),
                                     fmt_double( y ).c_str(), u.lo, u.hi ) ) );
    }
    for( auto & [id, u] : g )
        if( !close( u.sum0, u.sum1, u.scale, 1e-9 ) )
            violate( "sum of opinions changes", at( h, q, strf( "from %s to %s in a group that can only talk among itself",
                                                                 fmt_double( u.sum0 ).c_str(), fmt_double( u.sum1 ).c_str() ) ) );
}
} // namespace
static void p13( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::Deffuant };
    o.max_iter = 12;
    Cfg c      = gen_cfg( w.ch, o );
    bool exact = false;
    HistOpt ho;
    u64 mode = w.ch.below( 3 );
    if( mode == 1 ) // few agents: every reachable state
    {
        c.n     = size_t( w.ch.range( 2, 4 ) );
        c.nconn = 0;
    }
    if( mode == 2 ) // exactly at the threshold: that is not an interaction
    {
        c.n         = 2;
        c.nconn     = 0;
        c.threshold = w.ch.pick( vector<double>{ 0.25, 0.5, 1.0 } );
        exact       = true;
        double base = double( w.ch.range( -8, 8 ) ) * 0.125;
        double d    = c.threshold * w.ch.pick( vector<double>{ 1.0, 1.0, -1.0, 0.5, 2.0 } );
        vector<AgentRec> a( 2 );
        a[0].opinion = base, a[1].opinion = base + d;
        ho.agents = a;
    }
    else if( w.ch.chance( 1, 2 ) )
        ho.agents = gen_agents( w.ch, c );
    if( w.ch.chance( 1, 6 ) )
        ho.network = gen_rows( w.ch, c.n, false ); // must not matter
    if( mode == 1 && c.n == 4 )
        c.max_iter = std::min( *c.max_iter, 5 );
    sample( c.brief() );
    History h = run_history( w, c, ho );
    all_there( h );
    ramp( h );
    vector<std::pair<size_t, size_t>> pairs;
    for( size_t i = 0; i < c.n; i++ )
        for( size_t j = i + 1; j < c.n; j++ )
            pairs.push_back( { i, j } );
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            vector<double> x, y;
            for( size_t i = 0; i < c.n; i++ )
                x.push_back( p.a[i].opinion ), y.push_back( q.a[i].opinion );
            if( !same_rows( p.net, q.net ) )
                violate( "network changed", at( h, q, "" ) );
            // opinions further apart than the threshold never mix: split where there is a gap
            vector<size_t> ord( c.n );
            for( size_t i = 0; i < c.n; i++ )
                ord[i] = i;
            std::sort( ord.begin(), ord.end(), [&]( size_t a, size_t b ) { return x[a] < x[b]; } );
            vector<int> grp( c.n );
            int g = 0;
            for( size_t r = 0; r < c.n; r++ )
            {
                if( r && x[ord[r]] - x[ord[r - 1]] >= c.threshold * ( 1 + 1e-9 ) + 1e-12 )
                    g++;
                grp[ord[r]] = g;
            }
            check_components( h, p, q, grp );
            probe( 0 );
            if( c.n == 1 && !same_bits( x[0], y[0] ) )
                violate( "lone agent", at( h, q, strf( "from %s to %s", fmt_double( x[0] ).c_str(), fmt_double( y[0] ).c_str() ) ) );
            if( c.n >= 2 && c.n <= 4 )
            {
                if( !reachable( x, pairs, c.n, c.threshold, c.mu, y, exact ) )
                    violate( "not reachable by n interactions", at( h, q, strf( "from [%s %s ..] to [%s %s ..]", fmt_double( x[0] ).c_str(),
                                                                            fmt_double( x[1] ).c_str(), fmt_double( y[0] ).c_str(),
                                                                            fmt_double( y[1] ).c_str() ) ) );
                probe( 1 );
            }
            if( x != y )
                nontrivial();
        } );
}
static Register r13( { "P13", p13, 38000, 1460000,
                       "Deffuant runs (everybody may meet everybody), random opinions and parameters, extreme random draws, killed and "
                       "resumed; non-trivial when some opinion changed",
                       all_real, all_stub, { "steps_conserved", "steps_against_all_reachable_states" } } );

// ------------------------------------------------------------------ P14
static void p14( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::Lattice };
    o.max_iter = 10;
    Cfg c      = gen_cfg( w.ch, o );
    size_t e   = size_t( std::lround( std::sqrt( double( c.n ) ) ) );
    HistOpt ho;
    bool lone = w.ch.chance( 1, 3 );
    size_t A = 0, B = 0;
    vector<size_t> idle;
    double d0 = 0;
    if( lone )
    {
        e = 2 + w.ch.below( 3 );
        c.n = e * e, c.nconn = std::min<size_t>( c.nconn, 3 );
        c.threshold = std::min( c.threshold, 2.0 );
        c.max_iter = 60;
        c.mu       = w.ch.pick( vector<double>{ 0.5, 0.25, 0.1, 0.75, 0.9 } );
        ho.overrides = false;
        // one pair of neighbours close together; everybody else far from everybody they are next to
        vector<AgentRec> a( c.n );
        for( size_t i = 0; i < c.n; i++ )
            a[i].opinion = 100.0 * double( i + 1 );
        A    = w.ch.below( c.n );
        auto nb = lattice_neighbours( e, A );
        B    = nb[w.ch.below( 4 )];
        d0   = c.threshold * w.ch.pick( vector<double>{ 0.5, 0.9, 0.1 } );
        a[B].opinion = a[A].opinion + d0;
        // agents that are close but not next to each other
        for( size_t i = 0; i < c.n && e > 2; i++ )
        {
            auto q = lattice_neighbours( e, A ), r = lattice_neighbours( e, B );
            auto in = [&]( const vector<size_t> & v ) { return std::find( v.begin(), v.end(), i ) != v.end(); };
            if( i != A && i != B && !in( q ) && !in( r ) && w.ch.chance( 1, 2 ) )
            {
                bool ok = true; // not next to another one of them either
                for( auto j : idle )
                {
                    auto z = lattice_neighbours( e, j );
                    ok     = ok && std::find( z.begin(), z.end(), i ) == z.end();
                }
                if( ok )
                    idle.push_back( i ), a[i].opinion = a[A].opinion + d0 / 2;
            }
        }
        ho.agents = a;
    }
    else if( w.ch.chance( 1, 2 ) )
        ho.agents = gen_agents( w.ch, c );
    if( w.ch.chance( 1, 4 ) )
        ho.network = gen_rows( w.ch, c.n, false ); // replaced by the lattice
    sample( c.brief() + ( lone ? " one active pair" : "" ) );
    History h = run_history( w, c, ho );
    all_there( h );
    ramp( h );
    auto adj = [&]( size_t i, size_t j )
    {
        auto v = lattice_neighbours( e, i );
        return std::find( v.begin(), v.end(), j ) != v.end();
    };
    for( auto & s : h.sessions )
        for( auto & q : s.snaps )
            for( size_t i = 0; i < c.n; i++ )
            {
                auto a = q.net.nb[i], b = lattice_neighbours( e, i );
                std::sort( a.begin(), a.end() ), std::sort( b.begin(), b.end() );
                if( a != b )
                    violate( "not the lattice", at( h, q, strf( "neighbours of %zu", i ) ) );
            }
    bool moved = false;
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            vector<double> x;
            for( auto & a : p.a )
                x.push_back( a.opinion );
            check_components( h, p, q, components( x, c.threshold, adj ) );
            probe( 0 );
            for( size_t i = 0; i < c.n; i++ )
                if( x[i] != q.a[i].opinion )
                    nontrivial();
            if( lone )
            {
                double before = p.a[B].opinion - p.a[A].opinion, after = q.a[B].opinion - q.a[A].opinion;
                double f = 1 - 2 * c.mu, v = before;
                bool ok  = false;
                for( size_t k = 0; k <= c.n && !ok; k++, v *= f )
                    ok = std::fabs( v - after ) <= 1e-9 * ( 1 + std::fabs( before ) );
                if( !ok )
                    violate( "wrong update", at( h, q, strf( "distance of the only pair that may talk: %s -> %s", fmt_double( before ).c_str(),
                                                             fmt_double( after ).c_str() ) ) );
                for( size_t i = 0; i < c.n; i++ )
                    if( i != A && i != B && x[i] != q.a[i].opinion )
                        violate( "talks to somebody who is not a neighbour", at( h, q, strf( "agent %zu", i ) ) );
                if( before != after )
                    moved = true;
                probe( 1 );
            }
        } );
    // an interaction that is possible happens within 60 iterations (chance to miss it: below 1e-12)
    if( lone && !h.restarts && !moved )
        violate( "no progress", c.brief() + ": two neighbours within the threshold never interact" );
}
static Register r14( { "P14", p14, 24000, 940000,
                       "Deffuant runs on square lattices of 2x2 to 12x12; a third of them with a single pair that may interact; "
                       "non-trivial when some opinion changed",
                       all_real, all_stub, { "steps_conserved", "steps_of_a_lone_pair" } } );

// ------------------------------------------------------------------ P15
static void p15( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::Vector };
    o.max_iter = 10;
    Cfg c      = gen_cfg( w.ch, o );
    u64 mode      = w.ch.below( 2 );
    size_t differ = c.dim;
    if( mode == 1 )
    {
        c.n   = c.grid ? 4 : size_t( w.ch.range( 2, 4 ) );
        differ = size_t( w.ch.range( 1, c.n == 2 ? 5 : c.n == 3 ? 3 : 2 ) );
        c.dim  = w.ch.chance( 1, 2 ) ? differ : differ + w.ch.below( 80 );
        c.nconn     = std::min( c.nconn, c.n - 1 );
        c.threshold = double( w.ch.range( 1, i64( differ ) + 1 ) ) - ( w.ch.chance( 1, 3 ) ? 0.5 : 0.0 );
    }
    HistOpt ho;
    if( c.dim > differ && mode == 1 )
    {
        // long opinions that differ in few places
        ho.agents = gen_agents( w.ch, c );
        for( size_t i = 1; i < c.n; i++ )
            ( *ho.agents )[i].vec = ( *ho.agents )[0].vec;
        for( size_t k = 0; k < differ; k++ )
        {
            size_t d = w.ch.below( c.dim );
            for( size_t i = 0; i < c.n; i++ )
                ( *ho.agents )[i].vec[d] = int( w.ch.below( 2 ) );
        }
    }
    else if( w.ch.chance( 1, 2 ) )
        ho.agents = gen_agents( w.ch, c );
    sample( c.brief() );
    History h = run_history( w, c, ho );
    all_there( h );
    size_t e = size_t( std::lround( std::sqrt( double( c.n ) ) ) );
    auto adj = [&]( size_t i, size_t j )
    {
        if( !c.grid )
            return true;
        auto v = lattice_neighbours( e, i );
        return std::find( v.begin(), v.end(), j ) != v.end();
    };
    for( auto & s : h.sessions )
        for( auto & q : s.snaps )
        {
            for( size_t i = 0; i < c.n; i++ )
            {
                if( q.a[i].vec.size() != c.dim )
                    violate( "dimension", at( h, q, strf( "agent %zu has %zu opinions", i, q.a[i].vec.size() ) ) );
                for( int v : q.a[i].vec )
                    if( v != 0 && v != 1 )
                        violate( "not binary", at( h, q, strf( "agent %zu has opinion %d", i, v ) ) );
                if( c.grid )
                {
                    auto a = q.net.nb[i], b = lattice_neighbours( e, i );
                    std::sort( a.begin(), a.end() ), std::sort( b.begin(), b.end() );
                    if( a != b )
                        violate( "not the lattice", at( h, q, strf( "neighbours of %zu", i ) ) );
                }
            }
            state_hash( q.a[0].vec.data(), q.a[0].vec.size() * sizeof( int ) );
        }
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            // closure: groups that may talk, each spanning a cube of values; opinions on which a
            // whole group agrees cannot change, and groups at a distance cannot talk
            size_t n = c.n, D = c.dim;
            vector<int> g( n );
            vector<vector<int>> and_( n ), or_( n );
            for( size_t i = 0; i < n; i++ )
                g[i] = int( i ), and_[i] = p.a[i].vec, or_[i] = p.a[i].vec;
            for( bool go = true; go; )
            {
                go = false;
                for( size_t i = 0; i < n; i++ )
                    for( size_t j = 0; j < i; j++ )
                        if( g[i] != g[j] && adj( i, j ) )
                        {
                            size_t a = size_t( g[i] ), b = size_t( g[j] );
                            int dist = 0;
                            for( size_t d = 0; d < D; d++ )
                                dist += ( and_[a][d] && !or_[b][d] ) || ( and_[b][d] && !or_[a][d] );
                            if( dist < c.threshold )
                            {
                                for( size_t d = 0; d < D; d++ )
                                    and_[a][d] &= and_[b][d], or_[a][d] |= or_[b][d];
                                for( auto & z : g )
                                    if( z == int( b ) )
                                        z = int( a );
                                go = true;
                            }
                        }
            }
            for( size_t i = 0; i < n; i++ )
                for( size_t d = 0; d < D; d++ )
                {
                    int v = q.a[i].vec[d], G = g[i];
                    if( ( v && !or_[size_t( G )][d] ) || ( !v && and_[size_t( G )][d] ) )
                        violate( "takes over an opinion nobody it may talk to has", at( h, q, strf( "agent %zu, opinion %zu", i, d ) ) );
                    if( v != p.a[i].vec[d] )
                        nontrivial();
                }
            probe( 0 );
            // (opinions all agree on neither change nor matter)
            vector<size_t> places;
            for( size_t d = 0; d < c.dim; d++ )
                for( size_t i = 1; i < n; i++ )
                    if( p.a[i].vec[d] != p.a[0].vec[d] )
                    {
                        places.push_back( d );
                        break;
                    }
            D = places.size();
            if( n * D > 10 || n > 4 || ( n == 4 && D > 2 ) )
                return;
            // every state n interactions can lead to
            auto bits = [&]( const vector<AgentRec> & a )
            {
                unsigned x = 0;
                for( size_t i = 0; i < n; i++ )
                    for( size_t d = 0; d < D; d++ )
                        x |= unsigned( a[i].vec[places[d]] ) << ( i * D + d );
                return x;
            };
            std::set<unsigned> cur{ bits( p.a ) };
            unsigned mask = ( 1u << D ) - 1;
            for( size_t step = 0; n > 1 && step < n; step++ )
            {
                std::set<unsigned> nxt;
                for( unsigned s : cur )
                    for( size_t i = 0; i < n; i++ )
                        for( size_t j = 0; j < i; j++ )
                        {
                            if( !adj( i, j ) )
                                continue;
                            unsigned a = s >> ( i * D ) & mask, b = s >> ( j * D ) & mask, diff = a ^ b;
                            if( !( __builtin_popcount( diff ) < c.threshold ) )
                            {
                                nxt.insert( s );
                                continue;
                            }
                            unsigned rest = s & ~( mask << ( i * D ) ) & ~( mask << ( j * D ) );
                            for( unsigned sub = diff;; sub = ( sub - 1 ) & diff )
                            {
                                unsigned v = ( a & ~diff ) | sub;
                                nxt.insert( rest | v << ( i * D ) | v << ( j * D ) );
                                if( !sub )
                                    break;
                            }
                        }
                cur = nxt;
            }
            if( !cur.count( bits( q.a ) ) )
                violate( "not reachable by n interactions", at( h, q, strf( "state %x to %x", bits( p.a ), bits( q.a ) ) ) );
            probe( 1 );
        } );
}
static Register r15( { "P15", p15, 42000, 1620000,
                       "Deffuant runs with binary opinion vectors, everybody with everybody or on a lattice; non-trivial when some opinion "
                       "changed",
                       all_real, all_stub, { "steps_in_the_closure", "steps_against_all_reachable_states" } } );

// ------------------------------------------------------------------ P16
static void check_contacts( const History & h, const Snap & p, const Snap & q )
{
    const Cfg & c = h.cfg;
    size_t n      = c.n;
    vector<vector<char>> in( n, vector<char>( n, 0 ) ); // in[j][i]: i -> j
    for( size_t j = 0; j < n; j++ )
        for( size_t t = 0; t < q.net.nb[j].size(); t++ )
        {
            size_t i = q.net.nb[j][t];
            if( i == j )
                violate( "contact with itself", at( h, q, strf( "agent %zu", i ) ) );
            if( in[j][i] )
                violate( "contact counted twice", at( h, q, strf( "%zu -> %zu", i, j ) ) );
            in[j][i] = 1;
            if( q.net.w[j][t] != 1.0 )
                violate( "contact weight", at( h, q, strf( "%zu -> %zu has weight %s", i, j, fmt_double( q.net.w[j][t] ).c_str() ) ) );
        }
    for( size_t i = 0; i < n; i++ )
    {
        size_t out = 0, uni = 0;
        for( size_t j = 0; j < n; j++ )
            if( in[j][i] )
            {
                out++;
                if( !in[i][j] )
                    uni++;
            }
        size_t k = c.contacts( i );
        bool surely = p.a[i].activity >= 1, never = p.a[i].activity <= 0;
        auto bad = [&]( const char * what )
        {
            violate( "number of contacts", at( h, q, strf( "agent %zu (activity %g, makes %zu contacts) has %zu, %zu of them one-way: %s", i,
                                                             p.a[i].activity, k, out, uni, what ) ) );
        };
        if( uni > k )
            bad( "too many" );
        if( never && uni )
            bad( "it is never active" );
        if( surely && out < k )
            bad( "too few" );
        if( c.reciprocity <= 0 )
        {
            if( out != k && out != 0 )
                bad( "all or nothing" );
            if( surely && out != k )
                bad( "it is always active" );
        }
        if( c.reciprocity >= 1 && uni )
            bad( "every contact is answered" );
    }
}
static void p16( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::Activity, Kind::Inertial };
    o.max_iter = 8;
    o.mean     = false;
    Cfg c      = gen_cfg( w.ch, o );
    c.mean_act = c.eps < 0.3 && w.ch.chance( 1, 10 );
    HistOpt ho;
    if( w.ch.chance( 2, 3 ) )
        ho.agents = gen_agents( w.ch, c );
    if( w.ch.chance( 1, 5 ) )
        ho.network = gen_rows( w.ch, c.n, false ); // replaced in the first iteration
    sample( c.brief() );
    History h = run_history( w, c, ho );
    all_there( h );
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            check_contacts( h, p, q );
            probe( 0 );
            for( auto & r : q.net.nb )
            {
                probe( 1, r.size() );
                if( !r.empty() )
                    nontrivial();
            }
        } );
}
static Register r16( { "P16", p16, 31000, 1190000,
                       "activity driven runs (both integrators), bots, loaded activities 0 and 1, all reciprocities, extreme random draws, "
                       "killed and resumed; the contact network of every iteration is checked; non-trivial when somebody made contact",
                       all_real, all_stub, { "networks", "edges" } } );

// ------------------------------------------------------------------ P17 P18
static double amplification( const Cfg & c, const Snap & p, const Snap & q, int power )
{
    // how much a rounding error in one stage can grow until the last one
    double L = 0;
    for( size_t i = 0; i < c.n; i++ )
    {
        double sw = 0;
        for( double x : q.net.w[i] )
            sw += std::fabs( x );
        L = std::max( L, std::fabs( c.K / p.a[i].reluctance ) * sw * c.alpha );
    }
    return std::min( 1e9, std::pow( 1 + c.dt * ( 1 + L ), power ) );
}
static void ode( World & w, Kind kind )
{
    GenOpt o;
    o.kinds    = { kind };
    o.max_iter = 10;
    Cfg c      = gen_cfg( w.ch, o );
    c.mean_act = c.eps < 0.3 && c.mean_act;
    HistOpt ho;
    if( w.ch.chance( 2, 3 ) )
        ho.agents = gen_agents( w.ch, c );
    sample( c.brief() );
    History h = run_history( w, c, ho );
    all_there( h );
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            vector<double> scale;
            vector<AgentRec> want = p.a;
            if( kind == Kind::Activity )
            {
                auto y = ref_rk4( c, p.a, q.net, &scale );
                for( size_t i = 0; i < c.n; i++ )
                    want[i].opinion = i < c.n_bots ? c.bot_op[i] : y[i];
            }
            else
                ref_inertial( c, want, q.net, &scale );
            double rel = 1e-10 + 1e-15 * amplification( c, p, q, kind == Kind::Activity ? 3 : 2 );
            if( rel < 1e-6 )
                probe( 1 );
            for( size_t i = 0; i < c.n; i++ )
            {
                auto & a = q.a[i];
                if( !same_bits( a.activity, p.a[i].activity ) || !same_bits( a.reluctance, p.a[i].reluctance ) )
                    violate( "activity or reluctance changed", at( h, q, strf( "agent %zu", i ) ) );
                if( !close( want[i].opinion, a.opinion, scale[i] + 1e-3, rel ) )
                    violate( "wrong update", at( h, q, strf( "opinion of %zu is %s, expected %s", i, fmt_double( a.opinion ).c_str(),
                                                             fmt_double( want[i].opinion ).c_str() ) ) );
                if( !close( want[i].velocity, a.velocity, scale[i] + 1e-3, rel ) )
                    violate( "wrong update", at( h, q, strf( "velocity of %zu is %s, expected %s", i, fmt_double( a.velocity ).c_str(),
                                                             fmt_double( want[i].velocity ).c_str() ) ) );
            }
            probe( 0 );
            for( auto & r : q.net.nb )
                if( !r.empty() )
                    nontrivial();
        } );
}
static void p17( World & w )
{
    ode( w, Kind::Activity );
}
static void p18( World & w )
{
    ode( w, Kind::Inertial );
}
static Register r17( { "P17", p17, 28000, 1080000,
                       "activity driven runs with random parameters, bots, reluctances, sampled and mean-field networks, killed and resumed; "
                       "every step against a Runge-Kutta reference on the network of that step; non-trivial when the network has edges",
                       all_real, all_stub, { "steps", "steps_with_tight_tolerance" } } );
static Register r18( { "P18", p18, 25000, 970000,
                       "inertial runs with random parameters, bots, reluctances, sampled and mean-field networks, killed and resumed; "
                       "every step against a velocity Verlet reference on the network of that step; non-trivial when the network has edges",
                       all_real, all_stub, { "steps", "steps_with_tight_tolerance" } } );

// ------------------------------------------------------------------ P19
static void p19( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::Activity, Kind::Inertial };
    o.max_iter = 10;
    o.bots     = false;
    Cfg c      = gen_cfg( w.ch, o );
    c.mean_act = c.eps < 0.3 && c.mean_act;
    c.n_bots   = size_t( w.ch.range( 1, i64( std::min<size_t>( c.n, 6 ) ) ) );
    if( w.ch.chance( 1, 20 ) )
        c.n_bots = c.n;
    size_t have = c.n_bots + ( w.ch.chance( 1, 4 ) ? w.ch.below( 3 ) : 0 ); // longer lists than needed are fine
    c.bot_arrays = !w.ch.chance( 1, 4 );
    for( size_t i = 0; i < have; i++ )
    {
        bool def = !c.bot_arrays; // not given: the defaults
        c.bot_m.push_back( def ? c.m : int( w.ch.range( 0, 5 ) ) );
        c.bot_op.push_back( def ? 0.0 : gen_opinion( w.ch ) );
        c.bot_act.push_back( def ? 1.0 : w.ch.pick( vector<double>{ 1.0, 0.0, 0.5, 0.05, 0.013 } ) );
        c.bot_hom.push_back( def ? c.homophily : w.ch.pick( vector<double>{ 0.0, 0.5, 1.0, 2.0 } ) );
    }
    HistOpt ho;
    // opinions so far apart on a logarithmic scale that a large homophily of a bot leaves it no choice
    bool sharp = w.ch.chance( 1, 4 );
    if( sharp )
    {
        c.n        = 3 + w.ch.below( 8 );
        c.n_bots   = 1 + w.ch.below( 2 );
        c.nconn    = std::min( c.nconn, c.n - 1 );
        c.mean_w   = false;
        c.mean_act = false;
        c.K = 0, c.reciprocity = 0, c.dt = 1e-9;
        c.homophily  = w.ch.pick( vector<double>{ 0.0, -30.0, 1.0, 30.0 } );
        c.bot_arrays = true;
        size_t surplus = w.ch.below( 3 );
        c.bot_m.clear(), c.bot_op.clear(), c.bot_act.clear(), c.bot_hom.clear();
        for( size_t i = 0; i < c.n_bots + surplus; i++ )
        {
            c.bot_m.push_back( int( w.ch.range( 1, 4 ) ) );
            c.bot_op.push_back( 1e-8 * double( i ) );
            c.bot_act.push_back( w.ch.chance( 3, 4 ) ? 1.0 : 0.0 );
            c.bot_hom.push_back( w.ch.chance( 1, 2 ) ? 30.0 : -30.0 );
        }
        ho.agents = gen_agents( w.ch, c );
        vector<size_t> places;
        for( size_t i = 0; i < c.n; i++ )
            places.insert( places.begin() + long( w.ch.below( places.size() + 1 ) ), i );
        for( size_t i = 0; i < c.n; i++ )
        {
            auto & a   = ( *ho.agents )[i];
            a.velocity = 0;
            if( i >= c.n_bots )
                a.activity = w.ch.chance( 3, 4 ) ? 1.0 : 0.0;
            if( i >= c.n_bots )
                a.opinion = std::pow( 0.25, double( places[i] ) ) * ( w.ch.chance( 1, 2 ) ? 1 : -1 );
        }
        ho.overrides = false;
    }
    else if( w.ch.chance( 1, 3 ) )
    {
        ho.agents = gen_agents( w.ch, c );
        if( w.ch.chance( 1, 2 ) ) // a file that says something else about the bots
            for( size_t i = 0; i < c.n_bots; i++ )
                ( *ho.agents )[i].opinion = gen_opinion( w.ch ), ( *ho.agents )[i].activity = w.ch.unit();
    }
    sample( c.brief() + ( c.bot_arrays ? "" : " default bots" ) );
    History h = run_history( w, c, ho );
    all_there( h );
    for( auto & s : h.sessions )
        for( auto & q : s.snaps )
            for( size_t i = 0; i < c.n_bots; i++ )
            {
                double op = c.bot_op[i], act = c.bot_act[i];
                if( ho.agents )
                {
                    act = ( *ho.agents )[i].activity;
                    if( q.k == 0 )
                        op = ( *ho.agents )[i].opinion;
                }
                if( q.a[i].opinion != op )
                    violate( "bot changes its opinion", at( h, q, strf( "bot %zu has %s instead of %s", i, fmt_double( q.a[i].opinion ).c_str(),
                                                                       fmt_double( op ).c_str() ) ) );
                if( q.a[i].activity != act )
                    violate( "bot activity", at( h, q, strf( "bot %zu has %s instead of %s", i, fmt_double( q.a[i].activity ).c_str(),
                                                             fmt_double( act ).c_str() ) ) );
                probe( 0 );
            }
    // bots make their own number of contacts
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            if( !c.mean_w )
                check_contacts( h, p, q );
            for( size_t b = 0; sharp && b < c.n; b++ )
            {
                double hom = c.hom( b );
                if( std::fabs( hom ) < 30 )
                    continue;
                size_t own = b < c.n_bots ? size_t( c.bot_m[b] ) : size_t( c.m );
                vector<std::pair<double, size_t>> order;
                std::set<size_t> want, got;
                for( size_t j = 0; j < c.n; j++ )
                    if( j != b )
                        order.push_back( { std::fabs( p.a[b].opinion - p.a[j].opinion ) * ( hom > 0 ? 1 : -1 ), j } );
                std::sort( order.begin(), order.end() );
                if( own > 0 && own < order.size() ) // is there hardly a choice?
                {
                    double in = std::fabs( order[own - 1].first ), out = std::fabs( order[own].first );
                    if( std::max( in, out ) < 2.9 * std::min( in, out ) )
                        continue;
                }
                for( size_t k = 0; k < order.size() && k < own && p.a[b].activity == 1.0; k++ )
                    want.insert( order[k].second );
                for( size_t j = 0; j < c.n; j++ )
                    if( std::find( q.net.nb[j].begin(), q.net.nb[j].end(), b ) != q.net.nb[j].end() )
                        got.insert( j );
                if( got != want )
                    violate( "choice of contacts", at( h, q, strf( "%s %zu with homophily %g contacts others than the %zu it would",
                                                                   b < c.n_bots ? "bot" : "agent", b, hom, want.size() ) ) );
                probe( b < c.n_bots ? 2 : 3 );
            }
            for( size_t i = c.n_bots; i < c.n; i++ )
                for( auto j : q.net.nb[i] )
                    if( j < c.n_bots )
                        nontrivial(), probe( 1 );
        } );
}
static Register r19( { "P19", p19, 24000, 940000,
                       "activity driven runs with one to all agents being bots, given or default bot settings, bots in loaded files, killed "
                       "and resumed; non-trivial when a bot influenced somebody",
                       all_real, all_stub, { "bot_states", "edges_from_bots", "forced_choices_of_bots", "forced_choices_of_agents" } } );

// ------------------------------------------------------------------ P20
static void p20( World & w )
{
    GenOpt o;
    o.kinds    = { Kind::Activity, Kind::Inertial };
    o.max_iter = 6;
    Cfg c      = gen_cfg( w.ch, o );
    c.mean_w   = true;
    c.n        = std::min<size_t>( c.n, 40 );
    c.nconn    = std::min( c.nconn, c.n - 1 );
    c.mean_act = c.eps < 0.3 && c.mean_act;
    HistOpt ho;
    if( w.ch.chance( 2, 3 ) )
        ho.agents = gen_agents( w.ch, c );
    bool always = w.ch.chance( 1, 2 ); // everybody always active
    if( always )
    {
        if( !ho.agents )
            ho.agents = gen_agents( w.ch, c );
        for( auto & a : *ho.agents )
            a.activity = 1.0;
        for( auto & a : c.bot_act )
            a = 1.0;
    }
    if( w.ch.chance( 1, 5 ) )
        ho.network = gen_rows( w.ch, c.n, false );
    sample( c.brief() );
    History h = run_history( w, c, ho );
    all_there( h );
    auto full = [&]( const Snap & q, bool zero )
    {
        for( size_t i = 0; i < c.n; i++ )
        {
            if( q.net.nb[i].size() != c.n )
                violate( "not fully connected", at( h, q, strf( "agent %zu has %zu neighbours", i, q.net.nb[i].size() ) ) );
            for( size_t j = 0; j < c.n; j++ )
            {
                if( q.net.nb[i][j] != j )
                    violate( "not fully connected", at( h, q, strf( "agent %zu", i ) ) );
                if( zero && q.net.w[i][j] != 0.0 )
                    violate( "weights before the first iteration", at( h, q, strf( "agent %zu", i ) ) );
            }
        }
    };
    for( auto & s : h.sessions )
        if( !s.snaps.empty() )
            full( s.snaps[0], true );
    each_step(
        h,
        [&]( const Snap & p, const Snap & q )
        {
            full( q, false );
            auto w0 = ref_mean_weights( c, p.a, 0 ), w1 = ref_mean_weights( c, p.a, 1 );
            bool bad0 = false, bad1 = false;
            string what;
            for( size_t i = 0; i < c.n; i++ )
                for( size_t j = 0; j < c.n; j++ )
                {
                    if( !close( w0[i][j], q.net.w[i][j], 1e-5, 1e-8 ) && !bad0 )
                    {
                        bad0 = true;
                        what = strf( "weight of %zu for %zu is %s, expected %s", j, i, fmt_double( q.net.w[i][j] ).c_str(), fmt_double( w0[i][j] ).c_str() );
                    }
                    bad1 = bad1 || !close( w1[i][j], q.net.w[i][j], 1e-5, 1e-8 );
                }
            if( bad0 && !bad1 )
                known_finding( "mean-field-activity" );
            else if( bad0 )
                violate( "mean-field weights", at( h, q, what ) );
            else
                probe( 1 );
            probe( 0 );
            nontrivial();
        } );
}
static Register r20( { "P20", p20, 22000, 830000,
                       "mean-field runs with random parameters, bots and activities (half of them all active), killed and resumed; every "
                       "step's weights against the expected contact numbers; non-trivial when a step was compared",
                       all_real, all_stub, { "steps", "steps_with_the_stated_weights" } } );
} // namespace sim
