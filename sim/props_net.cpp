// P21 P22 P24: initial states, the network data structure, connectivity of large networks.
#include "props.hpp"

namespace sim
{
// ------------------------------------------------------------------ P21
static void p21( World & w )
{
    GenOpt o;
    o.max_n    = 20;
    o.max_iter = 1;
    Cfg c      = gen_cfg( w.ch, o );
    if( c.activity_like() )
        c.eps = w.ch.pick( vector<double>{ 0.5, 0.01, 0.1, 0.9, 0.001, 0.25 } );
    c.max_iter    = 0;
    c.out_initial = true;
    if( w.ch.chance( 1, 6 ) )
        c.nconn = c.n - 1 + w.ch.below( 4 ); // as many as there are, or more
    if( w.ch.chance( 1, 4 ) && c.activity_like() )
        c.mean_act = true;
    Plan p;
    add_noise( w.ch, p );
    bool extreme = w.ch.chance( 1, 4 ) && !c.use_rel;
    if( extreme )
    {
        // after the draws for the network, which are at least n * (n_conn + 1)
        add_overrides( w.ch, p, 8 * c.n );
        for( auto & q : p.overrides )
            q.draw += 2 * c.n * ( std::min( c.nconn, c.n - 1 ) + 1 ) + 4 * c.n * c.n;
    }
    sample( c.brief() );
    expect_ok( run_cfg( w, c, "/w/out", p ), c.brief() );
    Snap s = read_snap( w, c, "/w/out", 0 );
    state_hash( w.get( "/w/out/opinions_0.txt" ) );
    string who = c.brief() + strf( " seed=%d connections=%zu: ", *c.seed, c.nconn );
    auto range = [&]( size_t i, const char * what, double x, double lo, double hi )
    {
        if( !( x >= lo && x <= hi ) )
            violate( "initial state out of range", who + strf( "%s of agent %zu is %s, not in [%g, %g]", what, i, fmt_double( x ).c_str(), lo, hi ) );
    };
    for( size_t i = 0; i < c.n; i++ )
    {
        auto & a = s.a[i];
        if( c.kind == Kind::Vector )
        {
            if( a.vec.size() != c.dim )
                violate( "dimension", who + strf( "agent %zu has %zu opinions, not %zu", i, a.vec.size(), c.dim ) );
            for( int v : a.vec )
                if( v != 0 && v != 1 )
                    violate( "not binary", who + strf( "agent %zu has %d", i, v ) );
            continue;
        }
        if( !c.activity_like() )
        {
            if( !close( a.opinion, double( i ) / double( c.n ), 1, 1e-12 ) )
                violate( "initial opinions", who + strf( "agent %zu starts at %s", i, fmt_double( a.opinion ).c_str() ) );
            continue;
        }
        if( a.velocity != 0 )
            violate( "initial velocity", who + strf( "agent %zu", i ) );
        if( c.use_rel )
        {
            // deep in the tail the quantile function has few digits left
            double z = ( c.rel_eps - c.rel_mean ) / c.rel_sigma, tol = z < -4 ? 1e-2 : 1e-6;
            range( i, "reluctance", a.reluctance, c.rel_eps - tol * c.rel_sigma, 1e300 );
        }
        else if( a.reluctance != 1.0 )
            violate( "reluctance", who + strf( "agent %zu has %s without reluctances", i, fmt_double( a.reluctance ).c_str() ) );
        if( i < c.n_bots )
        {
            if( a.opinion != c.bot_op[i] || a.activity != c.bot_act[i] )
                violate( "initial bots", who + strf( "bot %zu", i ) );
            continue;
        }
        range( i, "opinion", a.opinion, -1, 1 );
        if( !c.mean_act )
        {
            range( i, "activity", a.activity, c.eps * ( 1 - 1e-9 ), 1 + 1e-9 );
            continue;
        }
        double g = c.gamma, e = c.eps;
        double mean = ( 1 - g ) / ( 2 - g ) * ( 1 - std::pow( e, 2 - g ) ) / ( 1 - std::pow( e, 1 - g ) );
        double other = -( 1 - g ) / ( 2 - g ) * std::pow( e, 2 - g ) / ( 1 - std::pow( e, 1 - g ) );
        if( close( a.activity, mean, 1, 1e-9 ) )
            probe( 2 );
        else if( close( a.activity, other, 1, 1e-9 ) )
            known_finding( "mean-activities-mean" );
        else
            violate( "mean activity", who + strf( "agent %zu has %s, the mean is %s", i, fmt_double( a.activity ).c_str(), fmt_double( mean ).c_str() ) );
    }
    nontrivial();
    probe( 0, c.n );
    if( c.kind == Kind::Lattice || c.grid || c.mean_w )
    {
        for( size_t i = 0; i < c.n; i++ )
            for( double x : s.net.w[i] )
                if( x != 0 )
                    violate( "initial network", who + "weights are not zero" );
        if( c.mean_w && c.activity_like() )
            return;
        size_t e = size_t( std::lround( std::sqrt( double( c.n ) ) ) );
        for( size_t i = 0; i < c.n && ( c.kind == Kind::Lattice || c.grid ); i++ )
        {
            auto a = s.net.nb[i], b = lattice_neighbours( e, i );
            std::sort( a.begin(), a.end() ), std::sort( b.begin(), b.end() );
            if( a != b )
                violate( "not the lattice", who + strf( "neighbours of %zu", i ) );
        }
        return;
    }
    size_t want = std::min( c.nconn, c.n - 1 );
    for( size_t i = 0; i < c.n; i++ )
    {
        std::set<size_t> u( s.net.nb[i].begin(), s.net.nb[i].end() );
        if( u.size() != s.net.nb[i].size() )
            violate( "initial network", who + strf( "agent %zu listens to somebody twice", i ) );
        if( !u.count( i ) || u.size() != want + 1 )
            violate( "initial network", who + strf( "agent %zu listens to %zu agents%s, expected itself and %zu others", i, u.size(),
                                                  u.count( i ) ? "" : " without itself", want ) );
        double sum = 0;
        for( double x : s.net.w[i] )
        {
            if( !( x >= 0 && x <= 1 + 1e-12 ) )
                violate( "initial network", who + strf( "agent %zu has weight %s", i, fmt_double( x ).c_str() ) );
            sum += x;
        }
        if( !( std::fabs( sum - 1 ) < 1e-9 ) )
            violate( "initial network", who + strf( "weights of agent %zu add up to %s", i, fmt_double( sum ).c_str() ) );
        probe( 1, u.size() );
    }
}
static Register r21( { "P21", p21, 50000, 1940000,
                       "the first snapshot of a run of any model with random parameters, sometimes with extreme random draws; every run is "
                       "non-trivial",
                       all_real, all_stub, { "agents", "edges", "mean_activities_as_stated" } } );

// ------------------------------------------------------------------ P22
namespace
{
struct Ref
{
    Rows r;
    bool out = false;
};
vector<std::pair<size_t, double>> canon( const vector<size_t> & nb, const vector<double> & w )
{
    vector<std::pair<size_t, double>> v;
    for( size_t t = 0; t < nb.size(); t++ )
        v.push_back( { nb[t], w[t] } );
    std::sort( v.begin(), v.end() );
    return v;
}
bool same_row( const vector<size_t> & nb, const vector<double> & w, const vector<size_t> & nb2, const vector<double> & w2 )
{
    if( nb.size() != nb2.size() || w.size() != w2.size() || nb.size() != w.size() )
        return false;
    auto a = canon( nb, w ), b = canon( nb2, w2 );
    for( size_t t = 0; t < a.size(); t++ )
        if( a[t].first != b[t].first || !close( a[t].second, b[t].second, 1e-3, 1e-11 ) )
            return false;
    return true;
}
string show( const vector<size_t> & nb, const vector<double> & w )
{
    string s = "[";
    for( auto j : nb )
        s += strf( " %zu", j );
    s += " |";
    for( auto x : w )
        s += strf( " %g", x );
    return s + " ]";
}
Rows transposed( const Rows & r )
{
    Rows t;
    t.nb.resize( r.n() ), t.w.resize( r.n() );
    for( size_t i = 0; i < r.n(); i++ )
        for( size_t k = 0; k < r.nb[i].size(); k++ )
            t.nb[r.nb[i][k]].push_back( i ), t.w[r.nb[i][k]].push_back( r.w[i][k] );
    return t;
}
Rows merged( const Rows & r )
{
    Rows t;
    for( size_t i = 0; i < r.n(); i++ )
    {
        std::map<size_t, double> m;
        for( size_t k = 0; k < r.nb[i].size(); k++ )
            m[r.nb[i][k]] += r.w[i][k];
        t.nb.emplace_back(), t.w.emplace_back();
        for( auto & [j, x] : m )
            t.nb.back().push_back( j ), t.w.back().push_back( x );
    }
    return t;
}
vector<size_t> any_list( Choices & ch, size_t n )
{
    vector<size_t> v;
    u64 len = n ? ch.below( 7 ) : 0;
    for( u64 k = 0; k < len; k++ )
        v.push_back( ch.below( n ) ); // may repeat, may be the agent itself
    return v;
}
} // namespace
static void p22( World & w )
{
    size_t n = w.ch.below( 12 );
    if( w.ch.chance( 1, 12 ) )
        n = 20 + w.ch.below( 120 );
    u64 steps = 1 + w.ch.below( 30 );
    Plan p;
    add_noise( w.ch, p );
    if( w.ch.chance( 1, 3 ) )
        p.alloc_fail = i64( w.ch.below( 40 + 20 * steps ) );
    sample( strf( "n=%zu, %zu operations%s", n, size_t( steps ), p.alloc_fail >= 0 ? ", an allocation fails" : "" ) );
    string trace;
    auto fail = [&]( const string & cls, const string & msg ) { violate( cls, strf( "n=%zu, operations:%s: ", n, trace.c_str() ) + msg ); };
    Result r = run_lib(
        w,
        [&]
        {
            std::unique_ptr<sut::INet> x;
            Ref ref;
            auto rows_of = [&]( const sut::INet & q )
            {
                Rows z;
                for( size_t i = 0; i < q.n(); i++ )
                    z.nb.push_back( q.neighbours( i ) ), z.w.push_back( q.weights( i ) );
                return z;
            };
            auto check = [&]
            {
                if( x->n() != ref.r.n() )
                    fail( "network", strf( "%zu agents instead of %zu", x->n(), ref.r.n() ) );
                if( x->outgoing() != ref.out )
                    fail( "direction flag", "" );
                size_t total = 0;
                for( size_t i = 0; i < ref.r.n(); i++ )
                {
                    auto nb = x->neighbours( i );
                    auto we = x->weights( i );
                    if( !same_row( nb, we, ref.r.nb[i], ref.r.w[i] ) )
                        fail( "network", strf( "row %zu is %s instead of %s", i, show( nb, we ).c_str(), show( ref.r.nb[i], ref.r.w[i] ).c_str() ) );
                    if( x->n_edges( i ) != nb.size() )
                        fail( "number of edges", strf( "agent %zu", i ) );
                    total += nb.size();
                }
                if( x->n_edges() != total )
                    fail( "number of edges", strf( "%zu instead of %zu", x->n_edges(), total ) );
            };
            // construction
            u64 how        = w.ch.below( 7 );
            auto seed      = std::uint32_t( w.ch.below( 1ull << 32 ) );
            size_t k       = w.ch.below( n + 3 );
            bool flag      = w.ch.chance( 1, 2 );
            Rows init;
            double weight = gen_opinion( w.ch );
            for( size_t i = 0; i < n; i++ )
            {
                init.nb.push_back( any_list( w.ch, n ) );
                init.w.emplace_back();
                for( size_t t = 0; t < init.nb.back().size(); t++ )
                    init.w.back().push_back( gen_opinion( w.ch ) );
            }
            size_t edge = 1 + w.ch.below( 5 );
            for( int attempt = 0; attempt < 2 && !x; attempt++ ) // the failing allocation may hit here
            {
                try
                {
                    switch( how )
                    {
                        case 0: x = sys( [&] { return sut::net_empty( n ); } ), trace += " empty"; break;
                        case 1: x = sys( [&] { return sut::net_lists( init.nb, init.w, flag ); } ), trace += " lists"; break;
                        case 2: x = sys( [&] { return sut::net_n_connections( n, k, flag, seed ); } ), trace += " connections"; break;
                        case 3: x = sys( [&] { return sut::net_full( n, weight ); } ), trace += " full"; break;
                        case 4: x = sys( [&] { return sut::net_full_random( n, seed ); } ), trace += " full_random"; break;
                        case 5: x = sys( [&] { return sut::net_lattice( edge, weight ); } ), trace += " lattice"; break;
                        default:
                        {
                            NoAllocFaults reliable;
                            w.put( "/w/in.txt", text_network( init, int( w.ch.below( 3 ) ) ) );
                            x = sys( [&] { return sut::net_file( "/w/in.txt" ); } );
                            trace += " file";
                        }
                    }
                }
                catch( const std::bad_alloc & )
                {
                    trace += " (out of memory)";
                }
            }
            if( !x )
                fail( "construction", "fails without a reason" );
            Rows got = rows_of( *x );
            if( how == 0 )
                ref.r.nb.resize( n ), ref.r.w.resize( n );
            else if( how == 1 )
                ref.r = init, ref.out = flag;
            else if( how == 6 )
                ref.r = init;
            else if( how == 3 )
            {
                ref.r.nb.resize( n ), ref.r.w.resize( n );
                for( size_t i = 0; i < n; i++ )
                    for( size_t j = 0; j < n; j++ )
                        ref.r.nb[i].push_back( j ), ref.r.w[i].push_back( weight );
            }
            else if( how == 5 )
            {
                n = edge * edge;
                ref.r.nb.resize( n ), ref.r.w.resize( n );
                for( size_t i = 0; i < n; i++ )
                    ref.r.nb[i] = lattice_neighbours( edge, i ), ref.r.w[i].assign( 4, weight );
            }
            else
            {
                ref.r = got;
                for( size_t i = 0; i < n; i++ )
                {
                    std::set<size_t> u( got.nb[i].begin(), got.nb[i].end() );
                    size_t want = how == 4 ? n : std::min( k, n - 1 ) + ( flag ? 1 : 0 );
                    bool self   = how == 4 || flag;
                    if( got.nb[i].size() != want || u.size() != want || ( u.count( i ) != 0 ) != self )
                        fail( "generated network", strf( "row %zu is %s", i, show( got.nb[i], got.w[i] ).c_str() ) );
                    double sum = 0;
                    for( double q : got.w[i] )
                        sum += q;
                    if( want && !( std::fabs( sum - 1 ) < 1e-9 ) )
                        fail( "generated network", strf( "weights of %zu add up to %s", i, fmt_double( sum ).c_str() ) );
                }
                if( got.n() != n )
                    fail( "generated network", "wrong size" );
            }
            check();
            // operations
            for( u64 s = 0; s < steps; s++ )
            {
                Ref after   = ref;
                bool refuse = false, rowwise = false;
                size_t i    = n ? w.ch.below( n ) : 0;
                auto nb     = any_list( w.ch, n );
                vector<double> we;
                for( size_t t = 0; t < nb.size(); t++ )
                    we.push_back( gen_opinion( w.ch ) );
                double one = gen_opinion( w.ch );
                u64 op     = n ? w.ch.below( 12 ) : 5 + w.ch.below( 7 );
                std::function<void()> f;
                switch( op )
                {
                    case 0:
                        trace += strf( " row(%zu)", i );
                        after.r.nb[i] = nb, after.r.w[i].assign( nb.size(), one );
                        f = [&] { x->set_row( i, nb, one ); };
                        break;
                    case 1:
                        if( w.ch.chance( 1, 4 ) )
                            we.resize( w.ch.below( 9 ), one );
                        refuse = we.size() != nb.size();
                        trace += strf( " rows(%zu,%zu,%zu)", i, nb.size(), we.size() );
                        if( !refuse )
                            after.r.nb[i] = nb, after.r.w[i] = we;
                        f = [&] { x->set_row( i, nb, we ); };
                        break;
                    case 2:
                    {
                        auto cur = x->neighbours( i );
                        we.assign( cur.size(), one );
                        for( size_t t = 0; t < we.size(); t++ )
                            we[t] += double( t );
                        if( w.ch.chance( 1, 4 ) )
                            we.resize( w.ch.below( 9 ), one );
                        refuse = we.size() != cur.size();
                        trace += strf( " weights(%zu,%zu)", i, we.size() );
                        if( !refuse )
                            after.r.nb[i] = cur, after.r.w[i] = we;
                        f = [&] { x->set_weights( i, we ); };
                        break;
                    }
                    case 3:
                    case 4:
                    {
                        size_t j = w.ch.below( n );
                        trace += strf( " push(%zu,%zu)", i, j );
                        after.r.nb[i].push_back( j ), after.r.w[i].push_back( one );
                        f = [&, j] { x->push_back( i, j, one ); };
                        break;
                    }
                    case 5:
                        trace += " transpose", after.r = transposed( ref.r );
                        f = [&] { x->transpose(); };
                        break;
                    case 6:
                        trace += " toggle", after.r = transposed( ref.r ), after.out = !ref.out;
                        f = [&] { x->toggle(); };
                        break;
                    case 7:
                        trace += " switch", after.out = !ref.out;
                        f = [&] { x->switch_flag(); };
                        break;
                    case 8:
                        trace += " merge", after.r = merged( ref.r ), rowwise = true;
                        f = [&] { x->remove_double_counting(); };
                        break;
                    case 9:
                        if( w.ch.chance( 3, 4 ) )
                        {
                            trace += " scc";
                            f = [&]
                            {
                                auto got = x->scc();
                                Scope * none = nullptr;
                                (void)none;
                                for( auto & c : got )
                                    std::sort( c.begin(), c.end() );
                                std::sort( got.begin(), got.end() );
                                if( got != ref_scc( ref.r.nb ) )
                                    fail( "strongly connected components", strf( "%zu found, %zu expected", got.size(), ref_scc( ref.r.nb ).size() ) );
                                probe( 1 );
                            };
                            break;
                        }
                        trace += " clear";
                        for( size_t q = 0; q < n; q++ )
                            after.r.nb[q].clear(), after.r.w[q].clear();
                        f = [&] { x->clear(); };
                        break;
                    default:
                    {
                        trace += " save";
                        f = [&]
                        {
                            NoAllocFaults reliable;
                            x->write( "/w/net.txt" );
                            auto y = sut::net_file( "/w/net.txt" );
                            Rows z = rows_of( *y );
                            if( !same_rows( z, rows_of( *x ) ) )
                                fail( "saved network", "reads back differently" );
                        };
                    }
                }
                bool threw = false, memory = false;
                string what;
                try
                {
                    sys( f );
                }
                catch( const std::bad_alloc & )
                {
                    threw = memory = true;
                }
                catch( const std::runtime_error & e )
                {
                    threw = true, what = e.what();
                }
                if( threw && memory )
                {
                    trace += "(out of memory)";
                    probe( 2 );
                    // nothing half done: the rows are as before, or (row by row operations) as after
                    Rows z = rows_of( *x );
                    for( size_t q = 0; q < ref.r.n(); q++ )
                    {
                        bool old_ = same_row( z.nb[q], z.w[q], ref.r.nb[q], ref.r.w[q] );
                        bool new_ = rowwise && same_row( z.nb[q], z.w[q], after.r.nb[q], after.r.w[q] );
                        if( !old_ && !new_ )
                            fail( "damaged by a failed allocation", strf( "row %zu is %s, was %s", q, show( z.nb[q], z.w[q] ).c_str(),
                                                                            show( ref.r.nb[q], ref.r.w[q] ).c_str() ) );
                    }
                    ref.r = z;
                }
                else
                {
                    if( threw && !refuse )
                        fail( "refused", what );
                    if( !threw && refuse )
                        fail( "accepts lists of different lengths", "" );
                    if( refuse )
                        probe( 3 );
                    else
                        ref = after;
                }
                check();
                probe( 0 );
                if( op < 9 )
                    nontrivial();
                u64 hsh = 0;
                for( auto & q : ref.r.nb )
                    for( auto j : q )
                        hsh = mix64( hsh + j + 1 );
                state_hash( &hsh, sizeof hsh );
            }
            sys( [&] { x.reset(); } );
            // drawing without replacement
            for( int q = 0; q < 3; q++ )
            {
                size_t N = w.ch.below( 12 ), K = w.ch.below( 14 );
                optional<size_t> ign;
                if( w.ch.chance( 1, 2 ) && N )
                    ign = w.ch.below( N );
                auto sd = std::uint32_t( w.ch.below( 1ull << 32 ) );
                vector<double> ws;
                size_t pos = 0;
                for( size_t j = 0; j < N; j++ )
                {
                    ws.push_back( w.ch.pick( vector<double>{ 0.0, 1.0, 0.5, 1e-9, 1e9, 1e-300, 1e30, 3.0 } ) );
                    pos += ws.back() > 0;
                }
                vector<size_t> a, b;
                try
                {
                    a = sys( [&] { return sut::draw_unique( ign, K, N, sd ); } );
                    b = sys( [&] { return sut::reservoir( K, ws, sd ); } );
                }
                catch( const std::bad_alloc & )
                {
                    continue;
                }
                std::set<size_t> ua( a.begin(), a.end() ), ub( b.begin(), b.end() );
                if( a.size() != std::min( K, N - ( ign ? 1 : 0 ) ) || ua.size() != a.size() || ( ign && ua.count( *ign ) )
                    || ( !ua.empty() && *ua.rbegin() >= N ) )
                    fail( "drawing without replacement", strf( "%zu of %zu: %zu drawn, %zu different", K, N, a.size(), ua.size() ) );
                bool zero = false;
                for( auto j : b )
                    zero = zero || j >= N || !( ws[j] > 0 );
                if( b.size() != std::min( K, pos ) || ub.size() != b.size() || zero )
                    fail( "weighted drawing", strf( "%zu of %zu with %zu of positive weight: %zu drawn, %zu different", K, N, pos, b.size(), ub.size() ) );
                probe( 4 );
            }
        },
        p );
    expect_ok( r, "network operations" + trace );
}
static Register r22( { "P22", p22, 45000, 1730000,
                       "random histories of Network operations (all constructors and generators, transposition, merging, saving, components, "
                       "wrong sizes) with failing allocations against an adjacency list reference, and drawing without replacement; "
                       "non-trivial when the network was modified",
                       "network.hpp, network_generation.hpp, network_io.hpp, connectivity.hpp, util/math.hpp",
                       "disk (in-memory), allocator failures; mt19937 is real", { "operations", "component_lists", "failed_allocations", "refusals", "draws" } } );

// ------------------------------------------------------------------ P24
static void p24( World & w )
{
    u64 shape = w.ch.below( 8 );
    bool big  = w.ch.chance( 1, 5 );
    size_t n  = big ? size_t( w.ch.range( 4000, 12000 ) ) : size_t( w.ch.range( 2, 60 ) );
    if( w.ch.chance( 1, 150 ) )
        n = size_t( w.ch.range( 30000, 100000 ) );
    Rows r;
    r.nb.resize( n ), r.w.resize( n );
    auto edge = [&]( size_t i, size_t j ) { r.nb[i].push_back( j ); };
    const char * name = "";
    switch( shape )
    {
        case 0:
            name = "chain";
            for( size_t i = 0; i < n; i++ )
                edge( i, i + 1 < n ? i + 1 : i );
            break;
        case 1:
            name = "ring";
            for( size_t i = 0; i < n; i++ )
                edge( i, ( i + 1 ) % n );
            break;
        case 2:
            name = "backward chain";
            for( size_t i = 0; i < n; i++ )
                edge( i, i ? i - 1 : i );
            break;
        case 3:
        {
            name      = "rings in a row";
            size_t sz = 2 + w.ch.below( 40 );
            for( size_t i = 0; i < n; i++ )
            {
                size_t s = i / sz * sz, e = std::min( s + sz, n );
                edge( i, i + 1 < e ? i + 1 : s );
                if( i + 1 == e && e < n )
                    edge( i, e );
            }
            break;
        }
        case 4:
            name = "path both ways";
            for( size_t i = 0; i < n; i++ )
            {
                if( i )
                    edge( i, i - 1 );
                if( i + 1 < n )
                    edge( i, i + 1 );
            }
            break;
        case 5:
            name = "star";
            for( size_t i = 1; i < n; i++ )
                edge( i, 0 ), edge( 0, i );
            break;
        default:
            name = "random";
            for( size_t i = 0; i < n; i++ )
                for( u64 k = 1 + w.ch.below( big ? 3 : 4 ); k > 0; k-- )
                {
                    size_t j = w.ch.below( n );
                    if( std::find( r.nb[i].begin(), r.nb[i].end(), j ) == r.nb[i].end() )
                        edge( i, j );
                }
    }
    if( shape < 6 && w.ch.chance( 1, 3 ) ) // a few extra edges
        for( u64 k = 1 + w.ch.below( 4 ); k > 0; k-- )
        {
            size_t i = w.ch.below( n ), j = w.ch.below( n );
            if( std::find( r.nb[i].begin(), r.nb[i].end(), j ) == r.nb[i].end() )
                edge( i, j );
        }
    if( w.ch.chance( 1, 3 ) ) // other names for the agents
    {
        u64 a = 2 * w.ch.below( n ) + 1, b = w.ch.below( n );
        while( std::__gcd( a, u64( n ) ) != 1 )
            a += 2;
        if( n % 2 == 0 || std::__gcd( a, u64( n ) ) == 1 )
        {
            Rows q;
            q.nb.resize( n );
            for( size_t i = 0; i < n; i++ )
                for( auto j : r.nb[i] )
                    q.nb[( a * i + b ) % n].push_back( ( a * j + b ) % n );
            r.nb = q.nb;
        }
    }
    r.w.clear();
    for( auto & x : r.nb )
        r.w.push_back( vector<double>( x.size(), 1.0 / double( x.size() ) ) );
    Cfg c;
    c.kind = Kind::DeGroot;
    c.n = n, c.nconn = 1, c.max_iter = 1, c.tol = 0.0;
    c.out_initial = false, c.out_agents = 1;
    Plan p;
    add_noise( w.ch, p );
    if( n > 1000 )
        p.p_short = 0, p.p_eintr = 0;
    p.stack_size = n > 1000 ? 512u << 10 : 2u << 20; // the program must not need more for larger networks
    p.max_steps  = 600'000'000 + 3 * u64( n ) * n; // slow is not wrong
    w.put( "/w/in/network.txt", text_network( r ) );
    string who = strf( "DeGroot on %s of %zu agents", name, n );
    sample( who );
    Result q   = run_cfg( w, c, "/w/out", p, {}, "/w/in/network.txt" );
    expect_ok( q, who );
    size_t want = ref_scc( r.nb ).size();
    state_hash( who + std::to_string( want ) );
    const char * key = "strongly connected components";
    bool warned      = q.out.find( key ) != string::npos;
    if( warned != ( want != 1 ) )
        violate( "connectivity warning", who + strf( ": %zu components, %s", want, warned ? "warned" : "not warned" ) );
    if( warned && q.out.find( strf( " %zu %s", want, key ) ) == string::npos )
        violate( "connectivity warning", who + strf( ": %zu components, the message says: ", want ) + q.out.substr( q.out.find( key ) > 40 ? q.out.find( key ) - 40 : 0, 100 ) );
    // and the step it did
    string err;
    auto a = parse_agents( c.kind, w.get( "/w/out/opinions_1.txt" ), err );
    if( !a || a->size() != n )
        violate( "unreadable snapshot", who + ": " + err );
    vector<double> x( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = double( i ) / double( n );
    auto y = ref_degroot( x, r, nullptr );
    for( size_t i = 0; i < n; i++ )
        if( !close( y[i], ( *a )[i].opinion, 1, 1e-9 ) )
            violate( "wrong update", who + strf( ": agent %zu", i ) );
    probe( want == 1 ? 1 : 0 );
    if( n > 1000 )
        probe( 2 );
    nontrivial();
}
static Register r24( { "P24", p24, 7000, 260000,
                       "DeGroot runs on networks read from files: chains, rings, trees, grids of rings and random graphs of 2 to 100000 agents "
                       "on a stack of 512 KiB; every run is non-trivial",
                       all_real, all_stub, { "disconnected", "connected", "large" } } );
} // namespace sim
