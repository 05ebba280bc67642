// P28: what simulations leave behind in the process.  P29: what long runs need.
#include "props.hpp"

namespace sim
{
// the TOML library cannot report that memory ran out, allocations fail only after it
static i64 next_alloc_fault = -1;
static void configured()
{
    if( next_alloc_fault >= 0 )
        current_plan().alloc_fail = i64( current_stats().allocs ) + next_alloc_fault;
}
static void p28( World & w )
{
    auto & ch = w.ch;
    GenOpt o;
    o.outputs = true;
    o.max_n   = 9;
    Cfg c     = gen_cfg( ch, o );
    if( ch.chance( 2, 3 ) )
        c.out_agents = 1, c.out_network = 2;
    Inputs in = gen_inputs( w, c, 40, c.kind == Kind::Lattice || c.grid || c.mean_w ? 0 : 40 );
    w.put( "/w/conf.toml", c.toml() );
    auto simulate = [&]( const string & dir, u64 by_hand )
    {
        auto s = sut::make_sim( "/w/conf.toml", in.network, in.agents, configured );
        if( by_hand )
        {
            s->initialize();
            for( u64 k = 0; k < by_hand && !s->finished(); k++ )
                s->iteration();
        }
        s->run( dir );
    };
    expect_ok( run_lib( w, [&] { sys( [&] { simulate( "/w/ref", 0 ); } ); }, {} ), c.brief() );
    struct Round
    {
        Fault f{};
        i64 alloc = -1;
        bool cut  = false; // a damaged input file
        u64 by_hand = 0;
        string what;
    };
    static const vector<int> errs{ EIO, ENOSPC, EACCES, EMFILE };
    vector<Round> rounds( 1 + ch.below( 3 ) );
    for( auto & r : rounds )
    {
        if( ch.chance( 1, 4 ) )
            r.by_hand = 1 + ch.below( 3 );
        switch( ch.below( 9 ) )
        {
            case 0: r.what = "no fault"; break;
            case 1:
            case 2:
            case 3: r.alloc = i64( ch.chance( 1, 2 ) ? ch.below( 60 ) : ch.below( 1500 ) ), r.what = strf( "allocation %lld fails", (long long)r.alloc ); break;
            case 4: r.f.op = Op::Write, r.f.nth = ch.below( 8 ), r.f.partial = ch.chance( 1, 3 ), r.what = "write error"; break;
            case 5: r.f.op = Op::Open, r.f.nth = ch.below( 8 ), r.what = "open error"; break;
            case 6: r.f.op = Op::Read, r.f.nth = ch.below( 5 ), r.what = "read error"; break;
            case 7: r.f.op = ch.chance( 1, 2 ) ? Op::Stdout : Op::Mkdir, r.f.nth = r.f.op == Op::Mkdir ? 0 : ch.below( 40 ), r.what = "print or mkdir error"; break;
            default: r.cut = true, r.what = "damaged input file";
        }
        if( r.what.find( "error" ) != string::npos )
            r.f.err = r.f.op == Op::Stdout ? EPIPE : ch.pick( errs ), r.f.sticky = ch.chance( 1, 4 );
    }
    double cut_at = ch.unit();
    Plan p;
    add_noise( ch, p );
    p.noise_seed = 0; // the same in every repetition
    string ctx   = c.brief();
    for( auto & r : rounds )
        ctx += ", " + r.what + ( r.by_hand ? strf( " (after %llu iterations by hand)", (unsigned long long)r.by_hand ) : "" );
    sample( ctx );
    state_hash( ctx );
    string bad;
    size_t failed = 0, faults = 0;
    Result res = run_lib(
        w,
        [&]
        {
            auto once = [&]( const Round & r ) -> bool
            {
                bool ok = true;
                string target, was;
                if( r.cut )
                {
                    target = in.network ? *in.network : in.agents ? *in.agents : "/w/conf.toml";
                    was    = w.get( target );
                    w.put( target, target == "/w/conf.toml" ? was + "\nx = = 1\n" : was.substr( 0, size_t( cut_at * double( was.size() ) ) ) );
                }
                auto & plan = current_plan();
                plan.faults.clear();
                if( r.f.err )
                    plan.faults.push_back( r.f );
                next_alloc_fault = r.alloc;
                sys(
                    [&]
                    {
                        try
                        {
                            simulate( "/w/round", r.by_hand );
                        }
                        catch( const std::exception & )
                        {
                            ok = false;
                        }
                    } );
                plan.alloc_fail  = -1;
                next_alloc_fault = -1;
                plan.faults.clear();
                if( r.cut )
                    w.put( target, was );
                w.remove_tree( "/w/round" );
                return ok;
            };
            once( Round{} );
            Holdings start = holdings();
            for( auto & r : rounds )
            {
                // what an error sets up once may stay; every further time has to leave everything as it was
                bool a     = once( r );
                auto first = holdings();
                bool b     = once( r );
                auto h     = holdings();
                failed += !a;
                if( a != b && r.alloc < 0 )
                    bad = strf( "the same simulation %s the first time and %s the second", a ? "succeeds" : "fails", b ? "succeeds" : "fails" );
                else if( h.files > start.files )
                    bad = strf( "%lld files are left open", (long long)( h.files - start.files ) );
                else if( !( h == first ) )
                    bad = strf( "%lld allocations (%lld bytes) more are held than before", (long long)( h.blocks - first.blocks ), (long long)( h.bytes - first.bytes ) );
                if( !bad.empty() )
                {
                    bad += " after: " + r.what;
                    return;
                }
            }
            sys( [&] { simulate( "/w/out", 0 ); } );
        },
        p );
    (void)faults;
    if( abnormal( res ) || !res.ok() )
        violate( "cannot be caught", ctx + ": " + res.describe() );
    if( !bad.empty() )
        violate( "left behind", ctx + ": " + bad );
    if( auto d = first_difference( w.tree( "/w/ref" ), w.tree( "/w/out" ), "a fresh process", "a process with a history" ); !d.empty() )
        violate( "later simulation affected", ctx + ": " + d );
    probe( failed ? 0 : 1 );
    nontrivial();
}
static Register r28( { "P28", p28, 20000, 800000,
                       "random simulations that run to their end or fail half-way (allocations, files, prints, inputs), several in one "
                       "process, each repeated; memory and files held afterwards are counted and a last simulation is compared with "
                       "one of a fresh process; every run is non-trivial",
                       all_real, all_stub, { "failures", "no_failure" } } );

// P29: the same run with more and more iterations
static void p29( World & w )
{
    auto & ch = w.ch;
    GenOpt o;
    o.outputs = true;
    o.max_n   = 5;
    o.big     = false;
    Cfg c     = gen_cfg( ch, o );
    // opinions that run away need no less and no more, but nothing is learnt from them
    c.dt       = std::min( c.dt, 0.5 );
    c.K        = std::min( c.K, 20.0 );
    c.friction = std::min( c.friction, 2.0 );
    if( ch.chance( 1, 2 ) )
        c.out_agents = 1 + ch.below( 3 ), c.out_network = 1 + ch.below( 3 );
    c.tol     = 0; // no early end
    Inputs in = gen_inputs( w, c, 30, c.kind == Kind::Lattice || c.grid || c.mean_w ? 0 : 30 );
    u64 first = 100 + ch.below( 200 );
    if( ch.chance( 1, 15 ) && c.n <= 4 )
        first *= 10;
    else if( ch.chance( 1, 60 ) && c.n <= 4 ) // longer than 16 bits can count
    {
        first        = 17000 + ch.below( 2000 );
        c.progress   = false;
        if( c.out_agents )
            c.out_agents = 3000 + ch.below( 9000 );
        if( c.out_network )
            c.out_network = 3000 + ch.below( 9000 );
    }
    string ctx      = c.brief() + strf( ", %llu, %llu, %llu and %llu iterations", (unsigned long long)first / 2, (unsigned long long)first, (unsigned long long)first * 2, (unsigned long long)first * 4 );
    sample( ctx );
    state_hash( ctx );
    Plan p;
    add_noise( ch, p );
    bool noise = ch.chance( 1, 2 );
    if( !noise )
        p.noise_seed = 0;
    p.fill_stack   = -1; // P01 does that
    p.heap_seed    = 0;
    struct Need
    {
        u64 it, steps, done;
        Holdings h;
    };
    vector<Need> need;
    for( int k = 0; k < 4; k++ )
    {
        Need n{};
        n.it     = first * ( 1u << k ) / 2;
        c.max_iter = int( n.it );
        p.max_steps = need.empty() ? 200'000'000 + n.it * 100'000 : 20'000'000 + 10 * need.back().steps;
        w.put( "/w/conf.toml", c.toml() );
        Result res = run_lib(
            w,
            [&]
            {
                std::unique_ptr<sut::ISim> s;
                sys( [&] { s = sut::make_sim( "/w/conf.toml", in.network, in.agents ); } );
                Holdings h0 = peak_holdings( true );
                u64 s0      = current_stats().steps;
                sys( [&] { s->run( "/w/out" ); } );
                n.steps    = current_stats().steps - s0;
                n.done     = sys( [&] { return s->n_iterations(); } );
                n.h        = peak_holdings( false );
                n.h.blocks -= h0.blocks, n.h.bytes -= h0.bytes, n.h.files -= h0.files;
                sys( [&] { s.reset(); } );
            },
            p );
        expect_ok( res, ctx );
        std::set<string> written, due;
        for( auto & f : w.list( "/w/out" ) )
            written.insert( f );
        for( auto & q : expected_files( c, n.it ) )
            due.insert( q.begin(), q.end() );
        w.remove_tree( "/w/out" );
        if( written != due )
            violate( "files", ctx + strf( ": %llu iterations left %zu files instead of %zu", (unsigned long long)n.it, written.size(), due.size() ) );
        if( n.done != n.it )
            violate( "iterations", ctx + strf( ": %llu done", (unsigned long long)n.done ) );
        need.push_back( n );
    }
    // needs settle while the opinions do; what grows with the length of the run grows from each run to the next
    auto grows = [&]( auto get, double slack )
    {
        double d1 = double( get( need[2] ) - get( need[1] ) ), d2 = double( get( need[3] ) - get( need[2] ) );
        return d1 > slack && d2 > 1.5 * slack && d2 > 1.2 * d1;
    };
    auto report = [&]( const char * what, auto get )
    {
        violate( "grows", ctx + strf( ": %s: %lld, %lld, %lld, %lld", what, (long long)get( need[0] ), (long long)get( need[1] ), (long long)get( need[2] ), (long long)get( need[3] ) ) );
    };
    const double n = double( c.n );
    auto bytes     = []( const Need & x ) { return x.h.bytes; };
    auto blocks    = []( const Need & x ) { return x.h.blocks; };
    auto files     = []( const Need & x ) { return x.h.files; };
    if( grows( bytes, 300 + 16 * n * n ) )
        report( "memory in bytes", bytes );
    if( grows( blocks, 8 + n * n ) )
        report( "blocks of memory", blocks );
    if( grows( files, 1 ) )
        report( "open files", files );
    auto rate = [&]( int k ) { return double( need[k].steps - need[k - 1].steps ) / double( need[k].it - need[k - 1].it ); };
    if( rate( 2 ) > 1.25 * rate( 1 ) + 10 && rate( 3 ) > 1.25 * rate( 2 ) + 20 )
        violate( "grows", ctx + strf( ": basic blocks per iteration: %.0f, %.0f, %.0f", rate( 1 ), rate( 2 ), rate( 3 ) ) );
    probe( 0 );
    nontrivial();
}
static Register r29( { "P29", p29, 3000, 120000,
                       "the same random simulation with N/2, N, 2N and 4N iterations; peak memory, open files and work per iteration; "
                       "every run is non-trivial",
                       all_real, all_stub, { "runs" } } );
} // namespace sim
