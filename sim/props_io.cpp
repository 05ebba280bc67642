// P01 P03 P04 P05 P06 P08 P09 P10: outputs, inputs, faults on them.
#include "props.hpp"
#include <csignal>

namespace sim
{
// ------------------------------------------------------------------ P01
static void stale_files( World & w, const string & dir, const Tree & like )
{
    for( auto & [n, b] : like )
        switch( w.ch.below( 4 ) )
        {
            case 1: w.put( dir + "/" + n, b + "left over from an older, longer file\n 1, 2, 3\n" ); break;
            case 2: w.put( dir + "/" + n, b.substr( 0, b.size() / 2 ) ); break;
            case 3: w.put( dir + "/" + n, string( 3 + w.ch.below( 300 ), '7' ) ); break;
            default: break;
        }
    count( Counters::StaleFiles );
}
// two seeds, two runs
static void p01_seeds( World & w )
{
    GenOpt o;
    o.kinds = { Kind::DeGroot, Kind::Deffuant, Kind::Vector, Kind::Activity, Kind::Inertial };
    o.mean  = false;
    Cfg c   = gen_cfg( w.ch, o );
    if( c.grid )
        c.grid = false;
    c.n     = std::max<size_t>( c.n, 8 );
    c.nconn = std::max<size_t>( c.nconn, 2 );
    c.max_iter = int( w.ch.below( 2 ) );
    c.out_initial = true, c.start_num.reset();
    auto s1 = std::uint32_t( w.ch.chance( 1, 3 ) ? w.ch.below( 4 ) : w.ch.below( 1ull << 32 ) ), s2 = s1;
    switch( w.ch.below( 5 ) )
    {
        case 0: s2 = s1 + 1; break;
        case 1: s2 = s1 ^ ( 1u << w.ch.below( 32 ) ); break;
        case 2: s2 = 0 - s1; break;
        case 3: s2 = std::uint32_t( w.ch.below( 1ull << 32 ) ); break;
        default: s2 = s1 << 16 | s1 >> 16;
    }
    if( s1 == s2 )
        s2 = ~s1;
    bool unseeded = w.ch.chance( 1, 3 );
    Plan pa, pb;
    pa.device_value = s1, pb.device_value = s2;
    c.seed = int( s1 );
    if( unseeded )
        c.seed.reset();
    string ctx = c.brief() + strf( " seeds %d and %d%s", int( s1 ), int( s2 ), unseeded ? " (material)" : "" );
    sample( ctx );
    state_hash( ctx );
    expect_ok( run_cfg( w, c, "/w/a", pa ), ctx );
    if( !unseeded )
        c.seed = int( s2 );
    expect_ok( run_cfg( w, c, "/w/b", pb ), ctx );
    if( w.get( "/w/a/network_0.txt" ) == w.get( "/w/b/network_0.txt" ) )
        violate( "same run", ctx + ": the generated networks are identical" );
    nontrivial();
    probe( 3 );
}
static void p01( World & w )
{
    if( w.ch.chance( 1, 10 ) )
        return p01_seeds( w );
    GenOpt o;
    o.outputs = true;
    Cfg c     = gen_cfg( w.ch, o );
    Inputs in = gen_inputs( w, c, 25, 25 );
    bool unseeded = w.ch.chance( 1, 4 );
    Plan pa;
    if( unseeded )
    {
        c.seed.reset();
        pa.device_value = std::uint32_t( w.ch.below( 1ull << 32 ) );
    }
    else if( w.ch.chance( 1, 2 ) )
        add_overrides( w.ch, pa, 40 + 10 * c.n * size_t( *c.max_iter ) );
    sample( c.brief() + ( unseeded ? " unseeded" : "" ) );
    Result a = run_cfg( w, c, "/w/out", pa, in.agents, in.network );
    expect_ok( a, c.brief() );
    Tree ta = w.tree( "/w/out" );
    if( unseeded )
    {
        auto p = a.out.find( "Random seed: " );
        if( p == string::npos )
            violate( "seed not reported", "a run without rng_seed does not report the seed it used" );
        c.seed = int( strtol( a.out.c_str() + p + 13, nullptr, 10 ) );
        probe( 1 );
    }
    if( !ta.empty() )
        nontrivial();
    state_hash( first_difference( ta, Tree{}, "a", "b" ) + c.brief() );
    // the same again under a different environment
    Plan pb;
    pb.overrides = pa.overrides;
    add_noise( w.ch, pb );
    if( w.ch.chance( 1, 2 ) )
        pb.fill_stack = w.ch.pick( vector<int>{ 0xff, 0xa5, 0x3f } );
    string dir = w.ch.chance( 1, 2 ) ? "/w/deep/er/results" : "/w/out2";
    bool stale = w.ch.chance( 1, 2 );
    if( stale )
        stale_files( w, dir, ta );
    Result b = run_cfg( w, c, dir, pb, in.agents, in.network );
    expect_ok( b, c.brief() );
    if( auto d = first_difference( ta, w.tree( dir ), "first run", "second run" ); !d.empty() )
        violate( "not reproducible", c.brief() + ": " + d );
    if( iterations_reported( a.out ) != iterations_reported( b.out ) )
        violate( "not reproducible", "iteration counts differ" );
    probe( 0 );
    // and twice within one process: nothing may carry over
    if( w.ch.chance( 1, 2 ) && pa.overrides.empty() )
    {
        Cfg other = gen_cfg( w.ch, o );
        Invocation v1, v2, vx;
        v1.config = v2.config = "/w/conf.toml";
        v1.agents = v2.agents = in.agents;
        v1.network = v2.network = in.network;
        v1.out_dir = "/w/p1", v2.out_dir = "/w/p2", vx.out_dir = "/w/px";
        vx.config = "/w/other.toml";
        w.put( vx.config, other.toml() );
        Plan p;
        add_noise( w.ch, p );
        Result r = run_lib(
            w,
            [&]
            {
                sys( [&] { return sut::cli( v1.argv() ); } );
                sys( [&] { return sut::cli( vx.argv() ); } );
                sys( [&] { return sut::cli( v2.argv() ); } );
            },
            p );
        expect_ok( r, c.brief() );
        for( auto * d : { "/w/p1", "/w/p2" } )
            if( auto x = first_difference( ta, w.tree( d ), "own process", "shared process" ); !x.empty() )
                violate( "not reproducible", c.brief() + string( " (" ) + d + "): " + x );
        probe( 2 );
    }
}
static Register r01( { "P01", p01, 18000, 700000,
                       "random configuration, seed and input files; run twice (different clock, memory contents, output "
                       "directory, leftovers, short and interrupted reads and writes), without a seed as well; non-trivial "
                       "when at least one file was compared",
                       all_real, all_stub, { "pairs_compared", "unseeded_runs", "three_in_one_process", "pairs_of_seeds" } } );

// ------------------------------------------------------------------ P03 / P04
static string number_of( const string & name )
{
    auto p = name.find( '_' );
    return name.substr( p + 1 );
}
// every state of the run, under plain settings
static Tree full_trace( World & w, Cfg c, const Inputs & in, const vector<Override> & ov, size_t & iterations )
{
    c.out_agents = c.out_network = 1;
    c.out_initial                = true;
    c.start_output.reset();
    c.start_num.reset();
    c.progress = false;
    Plan p;
    p.overrides = ov;
    Result r    = run_cfg( w, c, "/w/trace", p, in.agents, in.network );
    expect_ok( r, c.brief() );
    iterations = iterations_reported( r.out );
    if( iterations == ~size_t( 0 ) )
        violate( "no final report", "the run ended without reporting the number of iterations" );
    return w.tree( "/w/trace" );
}
static size_t count_of( const string & s, const string & what )
{
    size_t k = 0;
    for( size_t i = s.find( what ); i != string::npos; i = s.find( what, i + 1 ) )
        k++;
    return k;
}
static void p03( World & w )
{
    GenOpt o;
    o.outputs = true;
    Cfg c     = gen_cfg( w.ch, o );
    Inputs in = gen_inputs( w, c, 25, 25 );
    Plan p;
    if( w.ch.chance( 1, 3 ) )
        add_overrides( w.ch, p, 40 + 10 * c.n * size_t( *c.max_iter ) );
    size_t iters = 0;
    Tree trace   = full_trace( w, c, in, p.overrides, iters );
    if( c.kind != Kind::DeGroot && iters != size_t( *c.max_iter ) )
        violate( "iteration count", strf( "%zu iterations, %d configured", iters, *c.max_iter ) );
    auto plan_files = expected_files( c, iters );
    add_noise( w.ch, p );
    bool crash = w.ch.chance( 1, 3 );
    if( crash )
    {
        p.crash_op   = i64( w.ch.below( 16 + 14 * iters ) );
        p.crash_frac = w.ch.below( 256 );
    }
    Result r = run_cfg( w, c, "/w/out", p, in.agents, in.network );
    if( r.end != End::Killed )
        expect_ok( r, c.brief() );
    Tree got = w.tree( "/w/out" );
    sample( c.brief() + strf( " agents/%zu network/%zu from %zu numbering %zu initial %d crash %d", c.out_agents.value_or( 0 ),
                              c.out_network.value_or( 0 ), c.start_output.value_or( 1 ), c.start_num.value_or( 0 ),
                              int( c.out_initial.value_or( true ) ), int( r.end == End::Killed ) ) );
    size_t base = c.start_num.value_or( 0 );
    std::set<string> allowed;
    size_t last = 0, total = 0;
    bool any = false;
    for( size_t k = 0; k < plan_files.size(); k++ )
        for( auto & f : plan_files[k] )
        {
            total++;
            allowed.insert( f );
            if( got.count( f ) )
                last = k, any = true;
        }
    for( auto & [n, b] : got )
        if( !allowed.count( n ) )
            violate( "unexpected file", c.brief() + ": " + n );
    size_t upto = r.end == End::Killed ? ( any ? last : 0 ) : iters + 1; // iterations that must be complete: < upto
    for( size_t k = 0; k < plan_files.size(); k++ )
        for( auto & f : plan_files[k] )
        {
            bool must = k < upto;
            if( !got.count( f ) )
            {
                if( must )
                    violate( "missing file", c.brief() + strf( ": %s of iteration %zu", f.c_str(), k )
                                                 + ( r.end == End::Killed ? " although later ones exist" : "" ) );
                continue;
            }
            string ref = ( f[0] == 'o' ? "opinions_" : "network_" ) + std::to_string( k ) + ".txt";
            if( must && got[f] != trace[ref] )
                violate( "wrong content",
                         c.brief() + ": " + first_difference( { { f, trace[ref] } }, { { f, got[f] } }, "the state", "the file" ) );
            if( must )
                probe( 0 );
        }
    if( r.end == End::Killed )
        probe( 1 );
    else
    {
        if( iterations_reported( r.out ) != iters )
            violate( "iteration count", "depends on the output settings" );
        if( c.progress )
        {
            size_t lines = count_of( r.out, "\nIteration " );
            if( lines != ( *c.progress ? iters : 0 ) )
                violate( "progress lines", strf( "%zu lines for %zu iterations, print_progress=%d", lines, iters, int( *c.progress ) ) );
        }
    }
    (void)base;
    if( total )
        nontrivial();
    state_hash( c.brief() + std::to_string( total ) + std::to_string( base ) + std::to_string( last ) );
}
static Register r03( { "P03", p03, 23000, 890000,
                       "random output settings against the trace of every state of the same run; also killed at a random "
                       "operation; non-trivial when at least one file was due",
                       all_real, all_stub, { "files_compared", "killed_runs" } } );

static void p04( World & w )
{
    GenOpt o;
    o.outputs = true;
    Cfg c     = gen_cfg( w.ch, o );
    Inputs in = gen_inputs( w, c, 25, 25 );
    sample( c.brief() );
    if( w.ch.chance( 1, 2 ) )
    {
        // two runs that differ in what they output: common files have the same contents
        Cfg d = c;
        gen_outputs( w.ch, d );
        if( w.ch.chance( 1, 2 ) )
            d.out_agents = 1, d.out_network = 1, d.start_output.reset();
        Plan pa, pb;
        if( w.ch.chance( 1, 2 ) )
            add_overrides( w.ch, pa, 40 + 10 * c.n * size_t( *c.max_iter ) );
        pb.overrides = pa.overrides;
        add_noise( w.ch, pb );
        Result ra = run_cfg( w, c, "/w/a", pa, in.agents, in.network ), rb = run_cfg( w, d, "/w/b", pb, in.agents, in.network );
        expect_ok( ra, c.brief() );
        expect_ok( rb, c.brief() );
        Tree ta = w.tree( "/w/a" ), tb = w.tree( "/w/b" );
        size_t na = c.start_num.value_or( 0 ), nb = d.start_num.value_or( 0 ), common = 0;
        for( size_t k = 0; k <= size_t( *c.max_iter ); k++ )
            for( auto * pre : { "opinions_", "network_" } )
            {
                string fa = strf( "%s%zu.txt", pre, na + k ), fb = strf( "%s%zu.txt", pre, nb + k );
                if( !ta.count( fa ) || !tb.count( fb ) )
                    continue;
                common++;
                if( ta[fa] != tb[fb] )
                    violate( "output changes the run",
                             c.brief() + strf( ": state after %zu iterations, ", k )
                                 + first_difference( { { pre, ta[fa] } }, { { pre, tb[fb] } }, "one run", "the other" ) );
            }
        if( iterations_reported( ra.out ) != iterations_reported( rb.out ) )
            violate( "output changes the run", "number of iterations" );
        if( common )
            nontrivial();
        probe( 0, common );
        return;
    }
    if( w.ch.chance( 1, 3 ) )
    {
        // the same simulation run several times, with two different output settings
        Cfg d = c;
        gen_outputs( w.ch, d );
        if( w.ch.chance( 1, 2 ) )
            d.out_initial = !c.out_initial.value_or( true );
        size_t runs = 1 + w.ch.below( 3 );
        vector<AgentRec> fin[2];
        size_t its[2][3] = {};
        Plan p;
        for( int q = 0; q < 2; q++ )
        {
            if( q )
                add_noise( w.ch, p );
            w.put( "/w/conf.toml", ( q ? d : c ).toml() );
            expect_ok( run_lib(
                           w,
                           [&]
                           {
                               auto s = sys( [&] { return sut::make_sim( "/w/conf.toml", in.network, in.agents ); } );
                               for( size_t k = 0; k < runs; k++ )
                               {
                                   sys( [&] { s->run( strf( "/w/m%d/%zu", q, k ) ); } );
                                   its[q][k] = sys( [&] { return s->n_iterations(); } );
                               }
                               for( size_t i = 0; i < c.n; i++ )
                                   fin[q].push_back( sys( [&] { return s->agent( i ); } ) );
                               sys( [&] { s.reset(); } );
                           },
                           p ),
                       c.brief() );
        }
        for( size_t k = 0; k < runs; k++ )
            if( its[0][k] != its[1][k] )
                violate( "output changes the run", c.brief() + strf( ": run() number %zu does %zu or %zu iterations", k + 1, its[0][k], its[1][k] ) );
        if( !same_agents( fin[0], fin[1] ) )
            violate( "output changes the run", c.brief() + strf( ": agents after %zu run() calls", runs ) );
        nontrivial();
        probe( 2 );
        return;
    }
    // looking at a simulation through the library does not change it
    w.put( "/w/conf.toml", c.toml() );
    w.mkdirs( "/w/obs" );
    vector<AgentRec> fin[2];
    Rows net[2];
    Plan p;
    if( w.ch.chance( 1, 2 ) )
        add_overrides( w.ch, p, 40 + 10 * c.n * size_t( *c.max_iter ) );
    size_t steps = size_t( *c.max_iter );
    size_t looks = 0;
    bool until_end = w.ch.chance( 1, 2 ); // as run() does, instead of a number of steps
    size_t taken[2] = {};
    for( int watched = 0; watched < 2; watched++ )
    {
        if( watched )
            add_noise( w.ch, p );
        Result r = run_lib(
            w,
            [&]
            {
                auto s = sys( [&] { return sut::make_sim( "/w/conf.toml", in.network, in.agents ); } );
                sys( [&] { s->initialize(); } );
                for( size_t k = 0; k <= steps; k++ )
                {
                    taken[watched] = k;
                    if( watched )
                        for( u64 q = w.ch.below( 4 ); q > 0; q-- )
                        {
                            looks++;
                            switch( w.ch.below( 11 ) )
                            {
                                case 0: sys( [&] { s->write_agents( "/w/obs/a.txt" ); } ); break;
                                case 1: sys( [&] { s->write_network( "/w/obs/n.txt" ); } ); break;
                                case 2: sys( [&] { s->write_dot( "/w/obs/n.dot" ); } ); break;
                                case 3: sys( [&] { return s->finished(); } ); break;
                                case 4: sys( [&] { return s->n_iterations(); } ); break;
                                case 5: sys( [&] { return s->agent( w.ch.below( s->n() ) ); } ); break;
                                case 6: sys( [&] { return s->weights( w.ch.below( s->n() ) ); } ); break;
                                case 7: sys( [&] { return s->components(); } ); break;
                                case 8: sys( [&] { return s->edges( w.ch.below( s->n() ) ); } ); break;
                                case 9: sys( [&] { return s->text( w.ch.below( s->n() ) ); } ); break;
                                default: sys( [&] { return s->neighbours( w.ch.below( s->n() ) ); } );
                            }
                        }
                    if( until_end && sys( [&] { return s->finished(); } ) )
                        break;
                    if( k < steps )
                        sys( [&] { s->iteration(); } );
                }
                for( size_t i = 0; i < c.n; i++ )
                {
                    fin[watched].push_back( sys( [&] { return s->agent( i ); } ) );
                    net[watched].nb.push_back( sys( [&] { return s->neighbours( i ); } ) );
                    net[watched].w.push_back( sys( [&] { return s->weights( i ); } ) );
                }
                sys( [&] { s.reset(); } );
            },
            p );
        expect_ok( r, c.brief() );
    }
    if( taken[0] != taken[1] )
        violate( "observation changes the run", c.brief() + strf( ": %zu or %zu iterations", taken[0], taken[1] ) );
    if( !same_agents( fin[0], fin[1] ) )
        violate( "observation changes the run", c.brief() + ": agents differ" );
    if( !same_rows( net[0], net[1] ) )
        violate( "observation changes the run", c.brief() + ": networks differ" );
    probe( 1, looks );
    if( looks )
        nontrivial();
    state_hash( c.brief() );
}
static Register r04( { "P04", p04, 27000, 1030000,
                       "the same run (or several run() calls) with two random output settings, or stepped with and without random observations in "
                       "between; non-trivial when states were compared",
                       all_real, all_stub, { "common_files", "observations", "repeated_runs" } } );

// ------------------------------------------------------------------ P05
static bool same_or_nan( double a, double b )
{
    return same_bits( a, b ) || ( std::isnan( a ) && std::isnan( b ) );
}
static void p05( World & w )
{
    GenOpt o;
    o.big  = w.ch.chance( 1, 6 );
    o.kinds = { Kind::DeGroot, Kind::Deffuant, Kind::Activity, Kind::Inertial, Kind::Vector };
    o.mean  = false;
    o.bots  = false;
    Cfg c   = gen_cfg( w.ch, o );
    c.grid  = false;
    auto val = [&]() -> double
    {
        if( w.ch.chance( 1, 40 ) )
            return w.ch.pick( vector<double>{ INFINITY, -INFINITY, NAN } );
        return gen_double( w.ch );
    };
    // now and then files whose rows or numbers of rows do not fit 15 or 16 bits
    int huge = w.ch.chance( 1, 120 ) ? 1 + int( w.ch.below( 3 ) ) : 0;
    Rng filler( huge ? w.ch.below( 1 << 20 ) : 0 );
    if( huge == 1 && c.kind != Kind::Vector )
        huge = 2;
    if( huge == 3 && c.kind == Kind::Vector )
        huge = 1;
    if( huge )
        c.n = 2 + w.ch.below( 2 ), c.nconn = 1;
    if( huge == 1 )
        c.dim = w.ch.pick( vector<size_t>{ 11000, 22000, 33000, 66000 } ) + w.ch.below( 900 );
    if( huge == 3 )
        c.n = w.ch.pick( vector<size_t>{ 32760, 65530 } ) + w.ch.below( 20 ), probe( 3 );
    vector<AgentRec> a( c.n );
    for( auto & x : a )
    {
        if( huge == 1 )
            for( size_t d = 0; d < c.dim; d++ )
                x.vec.push_back( int( filler.below( 2 ) ) );
        else if( huge == 3 )
            x.opinion = filler.unit(), x.activity = filler.unit(), x.reluctance = 1, x.velocity = 0.5;
        else if( c.kind == Kind::Vector )
            for( size_t d = 0; d < c.dim; d++ )
                x.vec.push_back( w.ch.chance( 1, 8 ) ? w.ch.pick( vector<int>{ -1, 2147483647, -2147483647 - 1, 42 } )
                                                     : int( w.ch.below( 2 ) ) );
        else
        {
            x.opinion = val();
            if( c.activity_like() )
                x.activity = val(), x.reluctance = val();
            if( c.kind == Kind::Inertial )
                x.velocity = val();
        }
    }
    Rows net;
    if( huge == 3 )
    {
        net.nb.resize( c.n ), net.w.resize( c.n );
        for( size_t i = 0; i < c.n; i++ )
            for( u64 k = filler.below( 3 ); k; k-- )
                net.nb[i].push_back( filler.below( c.n ) ), net.w[i].push_back( filler.unit() );
    }
    else
        net = gen_rows( w.ch, c.n, false, w.ch.chance( 1, 8 ) ? c.n : 5, w.ch.chance( 1, 6 ) );
    if( huge == 2 )
        for( u64 k = w.ch.pick( vector<u64>{ 1500, 3300, 11000, 33000, 66000 } ) + w.ch.below( 900 ); k; k-- )
            net.nb[0].push_back( filler.below( c.n ) ), net.w[0].push_back( filler.unit() );
    if( !huge )
        for( auto & row : net.w )
            for( auto & x : row )
                if( w.ch.chance( 1, 2 ) )
                    x = gen_double( w.ch );
    if( !huge && w.ch.chance( 1, 4 ) ) // repeated neighbours are legal rows
        for( size_t i = 0; i < c.n; i++ )
            if( !net.nb[i].empty() && w.ch.chance( 1, 3 ) )
                net.nb[i].push_back( net.nb[i][0] ), net.w[i].push_back( 0.125 );
    if( w.ch.chance( 1, 4 ) ) // the last row without neighbours
        net.nb.back().clear(), net.w.back().clear();
    w.put( "/w/conf.toml", c.toml() );
    w.mkdirs( "/w/f" );
    sample( c.brief() );
    state_hash( c.brief() + text_network( net ) );
    auto equal_agents = [&]( const vector<AgentRec> & x, const char * where )
    {
        if( x.size() != a.size() )
            violate( "agents lost", strf( "%s: %zu of %zu agents", where, x.size(), a.size() ) );
        for( size_t i = 0; i < c.n; i++ )
        {
            const AgentRec &p = a[i], &q = x[i];
            bool act = c.activity_like(), in = c.kind == Kind::Inertial;
            if( p.vec != q.vec || ( c.kind != Kind::Vector && !same_or_nan( p.opinion, q.opinion ) )
                || ( act && ( !same_or_nan( p.activity, q.activity ) || !same_or_nan( p.reluctance, q.reluctance ) ) )
                || ( in && !same_or_nan( p.velocity, q.velocity ) ) )
                violate( "agent changed", strf( "%s: agent %zu was opinion %.17g activity %.17g reluctance %.17g velocity %.17g, is "
                                                "%.17g %.17g %.17g %.17g",
                                                where, i, p.opinion, p.activity, p.reluctance, p.velocity, q.opinion,
                                                q.activity, q.reluctance, q.velocity ) );
        }
    };
    auto equal_net = [&]( const Rows & x, const char * where )
    {
        if( !same_rows( x, net ) )
            violate( "network changed", strf( "%s\nwas\n%s\nis\n%s", where, text_network( net ).substr( 0, 600 ).c_str(),
                                              text_network( x ).substr( 0, 600 ).c_str() ) );
    };
    auto read_all = [&]( sut::ISim & s, const char * where )
    {
        vector<AgentRec> x;
        Rows n;
        size_t k = sys( [&] { return s.n(); } );
        for( size_t i = 0; i < k; i++ )
        {
            x.push_back( sys( [&] { return s.agent( i ); } ) );
            n.nb.push_back( sys( [&] { return s.neighbours( i ); } ) );
            n.w.push_back( sys( [&] { return s.weights( i ); } ) );
        }
        equal_agents( x, where );
        equal_net( n, where );
    };
    Plan p;
    p.max_steps += 3 * c.n * c.n; // slow is not wrong
    add_noise( w.ch, p );
    int style = int( w.ch.below( huge == 3 ? 3 : 4 ) ); // 3: written by the program, else by hand
    Result r  = run_lib(
        w,
        [&]
        {
            if( style == 3 )
            {
                auto s = sys( [&] { return sut::make_sim( "/w/conf.toml", {}, {} ); } );
                for( size_t i = 0; i < c.n; i++ )
                    sys(
                        [&]
                        {
                            s->set_agent( i, a[i] );
                            s->set_row( i, net.nb[i], net.w[i] );
                        } );
                sys(
                    [&]
                    {
                        s->write_agents( "/w/f/a.txt" );
                        s->write_network( "/w/f/n.txt" );
                    } );
                string err;
                auto pa = parse_agents( c.kind, w.get( "/w/f/a.txt" ), err );
                if( !pa )
                    violate( "unreadable agents file", err );
                equal_agents( *pa, "in the file" );
                auto pn = parse_network( w.get( "/w/f/n.txt" ), err );
                if( !pn )
                    violate( "unreadable network file", err );
                equal_net( *pn, "in the file" );
                if( w.ch.chance( 1, 2 ) )
                {
                    sys( [&] { s->write_dot( "/w/f/n.dot" ); } );
                    string want = "digraph G {\n", got = w.get( "/w/f/n.dot" ), flat_want, flat_got;
                    for( size_t i = 0; i < c.n; i++ )
                    {
                        want += std::to_string( i ) + " <- {";
                        for( size_t j = 0; j < net.nb[i].size(); j++ )
                            want += ( j ? ", " : "" ) + std::to_string( net.nb[i][j] );
                        want += "}\n";
                    }
                    want += "}\n";
                    for( char x : want )
                        if( x != ' ' )
                            flat_want += x;
                    for( char x : got )
                        if( x != ' ' )
                            flat_got += x;
                    if( flat_got != flat_want )
                        violate( "dot file", "does not list the edges of the network: " + got.substr( 0, 400 ) );
                    probe( 2 );
                }
                sys( [&] { s.reset(); } );
                probe( 0 );
            }
            else
            {
                w.put( "/w/f/a.txt", text_agents( c.kind, a, style ) );
                w.put( "/w/f/n.txt", text_network( net, style ) );
                probe( 1 );
            }
            auto s2 = sys( [&] { return sut::make_sim( "/w/conf.toml", "/w/f/n.txt", "/w/f/a.txt" ); } );
            read_all( *s2, "after loading" );
            sys(
                [&]
                {
                    s2->write_agents( "/w/f/a2.txt" );
                    s2->write_network( "/w/f/n2.txt" );
                } );
            if( style == 3
                && ( w.get( "/w/f/a.txt" ) != w.get( "/w/f/a2.txt" ) || w.get( "/w/f/n.txt" ) != w.get( "/w/f/n2.txt" ) ) )
                violate( "rewriting changes the file", "load followed by store is not the identity" );
            sys( [&] { s2.reset(); } );
        },
        p );
    expect_ok( r, c.brief() );
    nontrivial();
}
static Register r05( { "P05", p05, 24000, 920000,
                       "random agents and networks (extreme, subnormal and infinite numbers, rows without neighbours), stored by "
                       "the program or by hand, parsed independently, loaded and stored again; every run is non-trivial",
                       all_real, all_stub, { "written_by_program", "written_by_hand", "dot_files", "files_of_many_rows" } } );

// ------------------------------------------------------------------ P06
static void p06( World & w )
{
    GenOpt o;
    o.outputs = true;
    Cfg c     = gen_cfg( w.ch, o );
    if( w.ch.chance( 2, 3 ) )
        c.out_agents = c.out_network = 1;
    Inputs in    = gen_inputs( w, c, 50, 50 );
    size_t iters = 0;
    Plan p;
    Tree trace = full_trace( w, c, in, p.overrides, iters );
    w.remove_tree( "/w/trace" );
    auto due = expected_files( c, iters );
    std::map<string, size_t> when;
    for( size_t k = 0; k < due.size(); k++ )
        for( auto & f : due[k] )
            when[f] = k;
    // things that live next to the output
    w.put( "/w/out/notes.txt", "keep me\n" );
    w.put( "/w/out/opinions_old.txt", "# older result\n    0, 0.5\n" );
    w.put( "/w/out/network_99999999.txt", "# older result\n" );
    w.put( "/w/out/sub/opinions_0.txt", "nested" );
    w.put( "/w/other/opinions_1.txt", "elsewhere" );
    w.put( "/w/opinions_0.txt", "top" );
    // snapshots of an earlier session of the same simulation, under numbers that are not due now
    if( w.ch.chance( 1, 2 ) )
    {
        size_t first = c.start_num.value_or( 0 ), from = first > 3 ? first - 3 : 0;
        for( size_t k = from; k <= first + iters + 3 && k < from + 60; k++ )
            for( auto * pre : { "opinions_", "network_" } )
                if( auto f = strf( "%s%zu.txt", pre, k ); !when.count( f ) && w.ch.chance( 2, 3 ) )
                    w.put( "/w/out/" + f, "# an earlier session\n" );
    }
    Tree stale;
    if( w.ch.chance( 1, 2 ) )
        for( auto & [f, k] : when )
            if( w.ch.chance( 1, 2 ) )
            {
                stale[f] = "# leftover " + string( w.ch.below( 4000 ), 'x' );
                w.put( "/w/out/" + f, stale[f] );
            }
    w.put( "/w/conf.toml", c.toml() );
    Tree before = w.tree( "/w" );
    add_noise( w.ch, p );
    bool oom = w.ch.chance( 1, 5 );
    if( oom )
    {
        p.alloc_in_run = true; // (what reading the input does without memory is another matter)
        p.alloc_fail   = i64( w.ch.below( w.ch.chance( 1, 2 ) ? 60 : 60 + 30 * c.n * iters ) );
    }
    else
    {
        p.crash_op   = i64( w.ch.below( 16 + 14 * iters ) );
        p.crash_frac = w.ch.below( 256 );
    }
    Result r = run_cfg( w, c, "/w/out", p, in.agents, in.network );
    if( abnormal( r ) )
        violate( "abnormal end", c.brief() + ": " + r.describe() );
    bool died = !r.ok();
    sample( c.brief() + ": " + r.describe() + strf( " after %llu operations", (unsigned long long)r.st.ops ) );
    Tree after = w.tree( "/w" );
    for( auto & [n, b] : before )
    {
        bool ours = n.rfind( "out/", 0 ) == 0 && when.count( n.substr( 4 ) );
        if( ours )
            continue;
        if( !after.count( n ) )
            violate( "file removed", n );
        if( after[n] != b )
            violate( "foreign file changed", c.brief() + ": " + first_difference( { { n, b } }, { { n, after[n] } }, "before", "after" ) );
    }
    size_t last = 0, complete = 0, torn = 0;
    for( auto & [f, k] : when )
    {
        auto it      = after.find( "out/" + f );
        string ref   = ( f[0] == 'o' ? "opinions_" : "network_" ) + std::to_string( k ) + ".txt";
        bool touched = it != after.end() && !( stale.count( f ) && it->second == stale[f] );
        if( touched )
            last = std::max( last, k );
    }
    for( auto & [n, b] : after )
        if( !before.count( n ) && !( n.rfind( "out/", 0 ) == 0 && when.count( n.substr( 4 ) ) )
            && !( n.find( ".tmp" ) != string::npos || n.find( "/." ) != string::npos ) )
            violate( "unexpected file", c.brief() + ": " + n );
    for( auto & [f, k] : when )
    {
        auto it    = after.find( "out/" + f );
        string ref = trace[( f[0] == 'o' ? "opinions_" : "network_" ) + std::to_string( k ) + ".txt"];
        string now = it == after.end() ? "" : it->second;
        bool there = it != after.end();
        if( there && now == ref )
        {
            complete++;
            continue;
        }
        if( k < last || !died )
            violate( "damaged snapshot",
                     c.brief() + strf( ": %s of iteration %zu is not intact although iteration %zu was being written: ", f.c_str(), k, last )
                         + ( there ? first_difference( { { f, ref } }, { { f, now } }, "the state", "the file" ) : "missing" ) );
        if( stale.count( f ) && now == stale[f] )
            continue; // not reached
        if( there && ref.compare( 0, now.size(), now ) != 0 )
            violate( "torn file is not a prefix", c.brief() + ": " + first_difference( { { f, ref } }, { { f, now } }, "the state", "the file" ) );
        if( there )
            torn++;
    }
    probe( 0, complete );
    probe( 1, torn );
    if( died )
    {
        probe( oom ? 3 : 2 );
        nontrivial();
    }
    state_hash( c.brief() + std::to_string( last ) + std::to_string( torn ) );
}
static Register r06( { "P06", p06, 31000, 1190000,
                       "random run killed at a random file operation (writes torn at a random byte) or by a failing allocation, "
                       "among inputs, foreign files and leftovers; non-trivial when the run died",
                       all_real, all_stub, { "intact_snapshots", "torn_files", "killed_runs", "allocation_failures" } } );

// ------------------------------------------------------------------ P08
static void p08( World & w )
{
    GenOpt o;
    o.outputs = true;
    Cfg c     = gen_cfg( w.ch, o );
    if( w.ch.chance( 2, 3 ) )
        c.out_agents = 1;
    Inputs in    = gen_inputs( w, c, 25, 25 );
    size_t iters = 0;
    Plan p;
    Tree trace = full_trace( w, c, in, p.overrides, iters );
    w.remove_tree( "/w/trace" );
    auto due = expected_files( c, iters );
    size_t n_due = 0;
    for( auto & d : due )
        n_due += d.size();
    if( w.ch.chance( 1, 2 ) )
        add_noise( w.ch, p );
    w.put( "/w/conf.toml", c.toml() );
    string what;
    string dir = "/w/out";
    size_t nth_file = w.ch.below( std::max<size_t>( n_due, 1 ) );
    string target;
    {
        size_t i = 0;
        for( auto & d : due )
            for( auto & f : d )
                if( i++ == nth_file )
                    target = "/out/" + f;
    }
    Fault f;
    f.path = target;
    switch( w.ch.below( 9 ) )
    {
        case 0:
            f.op = Op::Write, f.err = EIO, f.nth = 0, what = "write error";
            break;
        case 1:
            f.op = Op::Write, f.err = ENOSPC, f.sticky = true, f.partial = true, what = "disk full in the middle of a file";
            break;
        case 2:
            f.op = Op::Open, f.err = w.ch.pick( vector<int>{ EACCES, EMFILE, ENOSPC, EROFS, EIO } ), what = "open error";
            break;
        case 3:
            f.op = Op::Close, f.err = w.ch.pick( vector<int>{ EIO, ENOSPC, EDQUOT } ), what = "close error";
            break;
        case 4:
        {
            u64 used = 0, need = 0;
            for( auto & [n, b] : w.tree( "/w" ) )
                used += b.size();
            for( size_t k = 0; k < due.size(); k++ )
                for( auto & q : due[k] )
                    need += trace[( q[0] == 'o' ? "opinions_" : "network_" ) + std::to_string( k ) + ".txt"].size();
            p.disk_capacity = i64( used + w.ch.below( need + need / 8 + 1 ) );
            f.err           = 0;
            what            = "small disk";
            break;
        }
        case 5:
            f.op = Op::Mkdir, f.err = EACCES, f.path = "", f.sticky = true, what = "mkdir error";
            if( w.ch.chance( 1, 2 ) )
                dir = "/w/new/dir";
            break;
        case 6:
            f.op = Op::Write, f.err = EIO, f.path = "/out/", f.nth = w.ch.below( n_due * 2 + 1 ), f.sticky = w.ch.chance( 1, 2 );
            what = "write error on any file";
            break;
        case 7: // the name is taken by a directory, or the output directory by a file
            f.err = 0;
            if( w.ch.chance( 1, 3 ) )
                w.put( "/w/out", "a file" ), what = "output directory is a file";
            else if( !target.empty() )
                w.mkdirs( "/w" + target ), what = "a directory has the name of an output file";
            break;
        default:
            f.op = Op::Stdout, f.err = EPIPE, f.path = "", f.nth = w.ch.below( 30 ), f.sticky = true, what = "stdout error";
    }
    if( f.err )
        p.faults.push_back( f );
    Result r = run_cfg( w, c, dir, p, in.agents, in.network );
    sample( c.brief() + ", " + what + ": " + r.describe() );
    if( abnormal( r ) )
        violate( "abnormal end", c.brief() + ", " + what + ": " + r.describe() );
    state_hash( c.brief() + what + target );
    bool fired = r.end != End::Exit || r.code != 0;
    if( fired )
    {
        nontrivial();
        probe( 0 );
        return;
    }
    for( size_t k = 0; k < due.size(); k++ )
        for( auto & q : due[k] )
        {
            string ref = trace[( q[0] == 'o' ? "opinions_" : "network_" ) + std::to_string( k ) + ".txt"];
            string now = w.get( dir + "/" + q );
            if( now != ref )
                violate( "output lost silently",
                         c.brief() + ", " + what + ": the run reports success but "
                             + ( w.has( dir + "/" + q ) ? first_difference( { { q, ref } }, { { q, now } }, "the state", "the file" )
                                                        : q + " is missing" ) );
        }
    probe( 1 );
    if( n_due )
        nontrivial();
}
static Register r08( { "P08", p08, 24000, 920000,
                       "random run with one kind of write fault (write, open, close, mkdir errors, full disk, names in use, broken "
                       "stdout); non-trivial when the run failed or its files were checked",
                       all_real, all_stub, { "failures_reported", "successes_with_intact_files" } } );

// ------------------------------------------------------------------ P09
static void p09( World & w )
{
    GenOpt o;
    o.outputs = w.ch.chance( 1, 2 );
    Cfg c     = gen_cfg( w.ch, o );
    if( w.ch.chance( 2, 3 ) )
        c.out_agents = 1, c.out_initial = true;
    Inputs in = gen_inputs( w, c, 70, 70 );
    Result ref = run_cfg( w, c, "/w/ref", {}, in.agents, in.network );
    expect_ok( ref, c.brief() );
    Plan p;
    if( w.ch.chance( 1, 2 ) )
        add_noise( w.ch, p );
    vector<string> files{ "/w/conf.toml" };
    if( in.agents )
        files.push_back( *in.agents );
    if( in.network )
        files.push_back( *in.network );
    Fault f;
    f.path = w.ch.pick( files );
    f.nth  = w.ch.below( 3 );
    string what;
    switch( w.ch.below( 6 ) )
    {
        case 0: f.op = Op::Read, f.err = EIO, what = "read error"; break;
        case 1: f.op = Op::Read, f.err = EIO, f.sticky = true, what = "read errors"; break;
        case 2: f.op = Op::Read, f.eof = true, f.sticky = true, what = "file shorter than its size"; break;
        case 3: f.op = Op::Open, f.err = w.ch.pick( vector<int>{ EACCES, EMFILE, EIO } ), f.nth = 0, what = "open error"; break;
        case 4: f.op = Op::Seek, f.err = EIO, what = "seek error"; break;
        default: f.op = Op::Stat, f.err = EIO, f.nth = 0, what = "stat error";
    }
    // make reading take several operations
    p.noise_seed = 1 + w.ch.below( 1000 );
    p.p_short    = int( w.ch.below( 256 ) );
    f.nth        = f.op == Op::Read ? w.ch.below( 6 ) : f.nth;
    p.faults.push_back( f );
    p.max_steps = 20 * ref.st.steps + 20'000'000; // what is left of a configuration may have no end
    Result r    = run_cfg( w, c, "/w/out", p, in.agents, in.network );
    sample( c.brief() + ", " + what + " on " + f.path + ": " + r.describe() );
    if( abnormal( r ) )
        violate( "abnormal end", c.brief() + ", " + what + " on " + f.path + ": " + r.describe() );
    state_hash( what + f.path + c.brief() );
    nontrivial();
    if( !r.ok() )
    {
        probe( 0 );
        if( !outputs( w, "/w/out" ).empty() )
            violate( "ran on unread input", "output was written before the input was read: " + what );
        return;
    }
    if( auto d = first_difference( w.tree( "/w/ref" ), w.tree( "/w/out" ), "undisturbed run", "run with the fault" );
        !d.empty() )
        violate( "altered input used", c.brief() + ", " + what + " on " + f.path + ": " + d );
    probe( 1 );
}
static Register r09( { "P09", p09, 25000, 960000,
                       "random run with a read fault (error, early end of file, open, seek, stat error) on the configuration, agents or network file; "
                       "every run is non-trivial",
                       all_real, all_stub, { "refused", "unaffected" } } );

// ------------------------------------------------------------------ P10
static string replace_field( const string & text, size_t row, size_t col, const string & with )
{
    // row counts data lines
    size_t i = 0, r = 0;
    string out;
    while( i < text.size() )
    {
        size_t e    = text.find( '\n', i );
        string line = text.substr( i, e == string::npos ? e : e - i );
        if( !line.empty() && line[0] != '#' && r++ == row )
        {
            size_t s = 0, k = 0;
            while( k < col && s != string::npos )
            {
                s = line.find( ',', s );
                if( s != string::npos )
                    s++;
                k++;
            }
            if( s != string::npos )
            {
                size_t q = line.find( ',', s );
                line     = line.substr( 0, s ) + " " + with + ( q == string::npos ? "" : line.substr( q ) );
            }
        }
        out += line + ( e == string::npos ? "" : "\n" );
        if( e == string::npos )
            break;
        i = e + 1;
    }
    return out;
}
// sets a key to a value given as text; keys of the configuration text are unique
static void set_key( string & toml, const string & section, const string & key, const string & value )
{
    size_t at = toml.find( "\n" + key + " = " );
    if( at != string::npos )
        toml.erase( at + 1, toml.find( '\n', at + 1 ) - at );
    size_t s = toml.find( "[" + section + "]\n" );
    toml.insert( s + section.size() + 3, key + " = " + value + "\n" );
}
struct Setting
{
    const char *section, *key;
    vector<string> values;
};
// settings outside their range
static Setting invalid_setting( Choices & ch, const Cfg & c, const string & model )
{
    vector<Setting> v;
    vector<string> neg{ "-1e-300", "-1.0", "-1e300", "-inf", "nan" }, nonpos{ "0.0", "-0.0", "-1e-300", "-1.0", "-inf", "nan" };
    v.push_back( { "io", "n_output_agents", { "0" } } );
    v.push_back( { "io", "n_output_network", { "0" } } );
    v.push_back( { "io", "start_output", { "0" } } );
    v.push_back( { "simulation", "model", { "\"\"", "\"degroot\"", "\"DeGroot \"", "\"ActivityDrivenX\"", "5" } } );
    const char * m = model.c_str();
    if( c.activity_like() )
    {
        v.push_back( { m, "dt", nonpos } );
        v.push_back( { m, "m", { "-1", "-2147483648" } } );
        v.push_back( { m, "eps", nonpos } );
        v.push_back( { m, "gamma", { "2.0", "1.9999999999999998", "0.0", "-3.0", "nan" } } );
        v.push_back( { m, "alpha", neg } );
        v.push_back( { m, "reciprocity", neg } );
        v.push_back( { m, "reluctance_mean", nonpos } );
        v.push_back( { m, "reluctance_sigma", nonpos } );
        v.push_back( { m, "reluctance_eps", nonpos } );
        v.push_back( { m, "covariance_factor", { "1.0000000000000002", "-1.0000000000000002", "2.0", "inf", "nan" } } );
        if( c.n_bots )
        {
            auto few = [&]
            {
                string s = "[";
                for( u64 k = ch.below( c.n_bots ); k > 0; k-- )
                    s += s.size() > 1 ? ", 1" : "1";
                return vector<string>{ s + "]" };
            };
            string ms;
            for( size_t k = 0, bad = ch.below( c.n_bots ); k < c.n_bots; k++ )
                ms += k == bad ? "-1, " : "1, ";
            v.push_back( { m, "bot_m", { few()[0], "[" + ms + "]" } } );
            v.push_back( { m, "bot_opinion", few() } );
            v.push_back( { m, "bot_activity", few() } );
            v.push_back( { m, "bot_homophily", few() } );
        }
        if( c.kind == Kind::Inertial )
            v.push_back( { m, "friction_coefficient", neg } );
    }
    else if( c.kind == Kind::DeGroot )
    {
        v.push_back( { m, "convergence", neg } );
    }
    else
    {
        v.push_back( { m, "homophily_threshold", nonpos } );
        v.push_back( { m, "mu", { "-1e-300", "1.0000000000000002", "-1.0", "7.5", "inf", "nan" } } );
        v.push_back( { m, "dim", c.kind == Kind::Vector ? vector<string>{ "0" } : vector<string>{ "0", "2", "100" } } );
    }
    Setting s = ch.pick( v );
    s.values  = { ch.pick( s.values ) };
    return s;
}
// odd but not forbidden values
static Setting odd_setting( Choices & ch, const Cfg & c, const string & model )
{
    vector<Setting> v;
    vector<string> any{ "nan", "inf", "-inf", "1e308", "-1e308", "5e-324", "0.0", "-0.0" };
    vector<string> pos{ "inf", "1e308", "5e-324" };
    const char * m = model.c_str();
    v.push_back( { "io", "start_output", { "18446744073709551615", "9223372036854775807", "-1", "2.5", "\"1\"", "true" } } );
    v.push_back( { "io", "start_numbering_from", { "9223372036854775807", "-1", "-9223372036854775808", "1000000007" } } );
    v.push_back( { "io", "n_output_agents", { "9223372036854775807", "-3", "1.5" } } );
    v.push_back( { "simulation", "rng_seed", { "-1", "2147483647", "-2147483648", "9223372036854775807", "1.5" } } );
    v.push_back( { "network", "connections_per_agent", { "9223372036854775807", "-1", "4294967295", "0.5" } } );
    if( c.activity_like() )
    {
        v.push_back( { m, "dt", pos } );
        v.push_back( { m, "m", { c.mean_w ? "1000" : "2147483647", "2147483648", "0", "1.5" } } );
        v.push_back( { m, "eps", { "5e-324", "1.0", "2.0", "1e308", "inf" } } );
        v.push_back( { m, "gamma", { "2.0000000000000004", "1e308", "inf", "1000.0" } } );
        v.push_back( { m, "homophily", any } );
        v.push_back( { m, "reciprocity", { "1.5", "inf", "1e308" } } );
        v.push_back( { m, "alpha", pos } );
        v.push_back( { m, "K", any } );
        v.push_back( { m, "reluctance_mean", pos } );
        v.push_back( { m, "reluctance_sigma", pos } );
        v.push_back( { m, "reluctance_eps", pos } );
        v.push_back( { m, "covariance_factor", { "1.0", "-1.0" } } );
        if( c.kind == Kind::Inertial )
            v.push_back( { m, "friction_coefficient", pos } );
        if( c.n_bots )
        {
            string l = ch.pick( any );
            for( size_t k = 1; k < c.n_bots + ch.below( 3 ); k++ )
                l += ", " + ch.pick( any );
            v.push_back( { m, ch.pick( vector<const char *>{ "bot_opinion", "bot_activity", "bot_homophily" } ), { "[" + l + "]" } } );
            string ms; // entries beyond the number of bots do not count
            for( size_t k = 0; k < c.n_bots; k++ )
                ms += c.mean_w ? "7, " : "2147483647, ";
            v.push_back( { m, "bot_m", { "[" + ms + "-1]" } } );
            v.push_back( { m, "bot_opinion", { "[" + [&] { string s; for( size_t k = 0; k < c.n_bots; k++ ) s += "\"x\", "; return s; }() + "]", "3.0", "\"x\"" } } );
        }
    }
    else if( c.kind == Kind::DeGroot )
        v.push_back( { m, "convergence", { "inf", "1e308", "5e-324", "0.0", "-0.0" } } );
    else
    {
        v.push_back( { m, "homophily_threshold", pos } );
        v.push_back( { m, "mu", { "0.0", "-0.0", "1.0", "5e-324" } } );
    }
    Setting s = ch.pick( v );
    s.values  = { ch.pick( s.values ) };
    return s;
}
static void p10( World & w )
{
    GenOpt o;
    o.max_n   = 7;
    o.big     = false;
    o.outputs = false;
    Cfg c     = gen_cfg( w.ch, o );
    c.out_agents = c.out_network = 1;
    c.out_initial                = true;
    if( *c.max_iter > 4 )
        c.max_iter = 4;
    Inputs in;
    string what = "odd configuration", toml = c.toml();
    bool must_refuse = false; // the damage cannot be mistaken for a valid input
    bool regenerates = c.kind == Kind::Lattice || c.grid || ( c.activity_like() && c.mean_w );
    size_t n_agents  = c.n;
    u64 sel          = w.ch.below( 6 );
    Plan p;
    add_noise( w.ch, p );
    if( sel >= 4 )
    {
        size_t at    = toml.find( "model = \"" ) + 9;
        string model = toml.substr( at, toml.find( '"', at ) - at );
        Setting s    = sel == 4 ? invalid_setting( w.ch, c, model ) : odd_setting( w.ch, c, model );
        set_key( toml, s.section, s.key, s.values[0] );
        what        = string( sel == 4 ? "invalid " : "odd " ) + s.key + " = " + s.values[0];
        must_refuse = sel == 4;
        if( w.ch.chance( 1, 3 ) )
            in = gen_inputs( w, c, 50, 50 );
    }
    else if( sel == 0 )
    {
        // sizes at and beyond the limits
        switch( w.ch.below( 9 ) )
        {
            case 0: c.n = 0, c.nconn = 0, what = "no agents"; break;
            case 1: c.n = 1, c.nconn = 0, what = "one agent"; break;
            case 2: c.n = 1, c.nconn = 3, what = "one agent, three connections"; break;
            case 3: c.nconn = c.n + w.ch.below( 20 ), what = "more connections than agents"; break;
            case 4: c.n = size_t( w.ch.range( 2, 10 ) ), what = "any size"; break; // lattice: not a square
            case 5:
                if( c.activity_like() )
                {
                    c.n_bots = c.n + 1 + w.ch.below( 4 );
                    c.bot_m.assign( c.n_bots, 1 );
                    c.bot_op.assign( c.n_bots, 0.5 );
                    c.bot_act.assign( c.n_bots, 1.0 );
                    c.bot_hom.assign( c.n_bots, 0.5 );
                    what = "more bots than agents";
                }
                break;
            case 6:
                if( c.activity_like() )
                    c.m = int( w.ch.range( i64( c.n ), i64( c.n ) + 1000 ) ), what = "more contacts than agents";
                break;
            case 7: c.max_iter = 0, what = "no iterations"; break;
            default:
                c.extra = w.ch.pick( vector<string>{
                    "[io2]\n", "[x]\ny = [1, 2\n", "[network.x]\nnumber_of_agents = 7\n", "= 3\n", "[simulation]\n", "\xff\xfe\n",
                    "[a]\nb = 99999999999999999999999\n" } );
                what    = "extra text in the configuration";
        }
        if( c.n_bots && !( c.n_bots > c.n ) )
            what += strf( ", %zu bots", c.n_bots );
        if( c.activity_like() && c.n_bots > c.n )
            must_refuse = true;
        if( c.kind == Kind::Lattice || c.grid )
        {
            size_t e = size_t( std::sqrt( double( c.n ) ) );
            if( e * e != c.n )
                must_refuse = true;
        }
        toml     = c.toml();
        n_agents = c.n;
        if( w.ch.chance( 1, 3 ) && c.n )
            in = gen_inputs( w, c, 50, 50 );
    }
    else if( sel == 1 )
    {
        // damaged configuration text
        what = "damaged configuration";
        for( u64 k = 1 + w.ch.below( 3 ); k > 0 && !toml.empty(); k-- )
            switch( w.ch.below( 4 ) )
            {
                case 0: toml.resize( w.ch.below( toml.size() + 1 ) ); break;
                case 1: toml[w.ch.below( toml.size() )] = char( w.ch.pick( vector<int>{ '#', '\n', '[', '"', '=', 'x', 0, 0x80, '.', '-' } ) ); break;
                case 2: toml.erase( w.ch.below( toml.size() ), 1 + w.ch.below( 8 ) ); break;
                default:
                {
                    // a line twice or missing
                    auto nl = toml.find( '\n', w.ch.below( toml.size() ) );
                    auto e  = nl == string::npos ? nl : toml.find( '\n', nl + 1 );
                    if( e != string::npos )
                    {
                        if( w.ch.chance( 1, 2 ) )
                            toml.erase( nl, e - nl );
                        else
                            toml.insert( e, toml.substr( nl, e - nl ) );
                    }
                }
            }
        count( Counters::Corrupt );
        n_agents = ~size_t( 0 );
        // damage must not turn into an endless or enormous run: unknowable
        if( toml.find( "max_iterations" ) == string::npos || toml.find( "max_iterations = -" ) != string::npos )
            toml += "\n";
    }
    else
    {
        bool agents_file = sel == 2;
        in.a             = gen_agents( w.ch, c );
        in.r             = gen_rows( w.ch, c.n, c.kind == Kind::DeGroot, 4 );
        string ta = text_agents( c.kind, *in.a ), tn = text_network( *in.r );
        string & t = agents_file ? ta : tn;
        auto lines = [&]
        {
            vector<string> v;
            size_t i = 0;
            while( i < t.size() )
            {
                size_t e = t.find( '\n', i );
                v.push_back( t.substr( i, e - i ) );
                i = e + 1;
            }
            return v;
        };
        auto join = [&]( const vector<string> & v )
        {
            t.clear();
            for( auto & l : v )
                t += l + "\n";
        };
        what = agents_file ? "agents file: " : "network file: ";
        static const vector<string> tokens{ "abc", "", "--1", "*" };
        switch( agents_file ? w.ch.below( 8 ) : w.ch.below( 11 ) )
        {
            case 0:
            {
                auto v = lines();
                v.erase( v.begin() + 1 + i64( w.ch.below( v.size() - 1 ) ) );
                join( v );
                what += "row missing";
                must_refuse = agents_file;
                break;
            }
            case 1:
            {
                auto v = lines();
                v.push_back( agents_file ? v.back() : std::to_string( c.n ) + ", 0" );
                join( v );
                what += "extra row";
                // agents: too many; network: the agents file no longer fits
                must_refuse = true;
                break;
            }
            case 2:
            {
                size_t row = w.ch.below( c.n );
                if( agents_file )
                {
                    t           = replace_field( t, row, 1, w.ch.pick( tokens ) );
                    must_refuse = true;
                }
                else
                {
                    t           = replace_field( t, row, 1, w.ch.pick( tokens ) );
                    must_refuse = true;
                }
                what += "not a number";
                break;
            }
            case 3:
                t.resize( w.ch.below( t.size() ) );
                what += "cut off";
                break;
            case 4:
            {
                for( u64 k = 1 + w.ch.below( 4 ); k > 0; k-- )
                    t[w.ch.below( t.size() )] = char( w.ch.below( 256 ) );
                what += "flipped bytes";
                count( Counters::Corrupt );
                break;
            }
            case 5:
                t = w.ch.pick( vector<string>{ "", "\n", "# only a comment\n", "\n\n\n", ",", ",,,,\n", string( 3, '\0' ) } );
                what += "no data";
                must_refuse = agents_file;
                break;
            case 6:
            {
                // the file of another run: one agent fewer or more
                Cfg d = c;
                d.n   = c.n + ( w.ch.chance( 1, 2 ) || c.n < 2 ? 1 : size_t( -1 ) );
                if( agents_file )
                    t = text_agents( c.kind, gen_agents( w.ch, d ) );
                else
                    t = text_network( gen_rows( w.ch, d.n, c.kind == Kind::DeGroot, 4 ) );
                what += "of another run";
                must_refuse = true;
                break;
            }
            case 7:
            case 8:
            case 9:
            {
                if( agents_file )
                {
                    // a row that ends too early
                    size_t need = c.kind == Kind::Activity ? 2 : c.kind == Kind::Inertial ? 3 : c.kind == Kind::Vector && c.n > 1 ? c.dim : 1;
                    size_t keep = 1 + w.ch.below( need ); // columns left, the index included
                    auto v      = lines();
                    auto & l    = v[1 + w.ch.below( v.size() - 1 )];
                    size_t pos  = 0;
                    for( size_t q = 0; q < keep; q++ )
                        pos = l.find( ',', pos ? pos + 1 : 0 );
                    l.resize( pos );
                    join( v );
                    what += "columns missing";
                    must_refuse = true;
                    break;
                }
                // neighbour that does not exist
                size_t row = w.ch.below( c.n );
                if( in.r->nb[row].empty() )
                    in.r->nb[row].push_back( 0 ), in.r->w[row].push_back( 0.5 );
                tn = text_network( *in.r );
                size_t col = 2 + w.ch.below( in.r->nb[row].size() );
                t = replace_field( t, row, col,
                                   w.ch.pick( vector<string>{ std::to_string( c.n ), "-1", "2147483647", "-2147483648",
                                                              std::to_string( c.n + 3 ), "4294967295", "4294967296", "99999999999999999999" } ) );
                what += "unknown neighbour";
                must_refuse = true;
                break;
            }
            default:
            {
                size_t row  = w.ch.below( c.n );
                auto k      = in.r->nb[row].size();
                auto v      = w.ch.pick( vector<string>{ std::to_string( k + 1 ), std::to_string( k + 7 ), "2147483647", "-1", "1000000" } );
                t           = replace_field( t, row, 1, v );
                what += "wrong number of neighbours";
                must_refuse = true;
            }
        }
        in.agents  = "/w/in/agents.txt";
        in.network = "/w/in/network.txt";
        w.put( *in.agents, ta );
        w.put( *in.network, tn );
        n_agents = ~size_t( 0 );
    }
    p.max_steps = sel == 1 ? 15'000'000 : 60'000'000;
    w.put( "/w/conf.toml", toml );
    if( w.verbose )
        w.log.push_back( "config:\n" + toml );
    Invocation v;
    v.agents  = in.agents;
    v.network = in.network;
    Result r  = run_cli( w, v, p );
    sample( c.brief() + ", " + what + ": " + r.describe() );
    state_hash( what + c.brief() + r.what );
    nontrivial();
    if( r.end == End::Stuck && sel == 1 )
    {
        probe( 3 ); // a damaged limit is a long run, not a hang
        return;
    }
    if( r.end == End::Signal && r.code == SIGABRT && r.out.find( "toml++" ) != string::npos && outputs( w, "/w/out" ).empty() )
    {
        probe( 0 ); // an assertion of the TOML library refuses the text
        return;
    }
    if( abnormal( r ) )
        violate( "abnormal end", c.brief() + ", " + what + ": " + r.describe() );
    if( !r.ok() )
    {
        if( auto o = outputs( w, "/w/out" ); !o.empty() )
            violate( "refused after output", c.brief() + ", " + what + ": " + r.describe() + " with " + o.begin()->first + " written" );
        probe( 0 );
        return;
    }
    if( must_refuse )
        violate( "invalid input accepted", c.brief() + ", " + what );
    probe( 1 );
    // accepted: what was written has to be consistent
    Kind k = c.kind;
    string err;
    optional<size_t> size;
    size_t seen = 0;
    for( auto & [name, b] : outputs( w, "/w/out" ) )
    {
        if( sel == 1 || ( sel == 5 && name[0] == 'o' ) )
            continue; // even the model may be another one now; opinions may be anything
        size_t rows = 0;
        if( name[0] == 'o' )
        {
            auto a = parse_agents( k, b, err );
            if( !a )
            {
                if( k == Kind::Vector && sel == 2 )
                    continue;
                violate( "inconsistent output", c.brief() + ", " + what + ": " + name + ": " + err );
            }
            rows = a->size();
        }
        else
        {
            auto n = parse_network( b, err );
            if( !n )
                violate( "inconsistent output", c.brief() + ", " + what + ": " + name + ": " + err );
            rows = n->n();
        }
        if( size && *size != rows )
            violate( "inconsistent output", c.brief() + ", " + what + strf( ": %s has %zu rows, others %zu", name.c_str(), rows, *size ) );
        size = rows;
        seen++;
        if( n_agents != ~size_t( 0 ) && rows != n_agents )
            violate( "inconsistent output", c.brief() + ", " + what + strf( ": %zu rows for %zu agents", rows, n_agents ) );
    }
    (void)regenerates;
    probe( 2, seen );
}
static Register r10( { "P10", p10, 21000, 810000,
                       "configurations at and beyond the limits, damaged configuration text, agents and network files with missing, "
                       "extra, cut, flipped or inconsistent data; every run is non-trivial",
                       all_real, all_stub, { "refused", "accepted", "files_checked", "long_runs" } } );
} // namespace sim
