// P30: several processes at the same time on one disk.
#include "props.hpp"

namespace sim
{
static void p30( World & w )
{
    auto & ch    = w.ch;
    const size_t k = 2 + ch.below( 3 );
    // where they write: beside each other, inside each other, together under different numbers, the same run several times
    enum { Siblings, Nested, Numbers, Same };
    int layout = int( ch.below( 4 ) );
    auto abs = []( const string & p ) { return p[0] == '/' ? p : "/w/" + p; };
    GenOpt o;
    o.outputs  = true;
    o.max_n    = 8;
    o.max_iter = 5;
    o.big      = ch.chance( 1, 12 );
    const bool shared_in = ch.chance( 1, 2 ) || layout == Same;
    vector<Cfg> cs;
    vector<Invocation> inv( k );
    Inputs common;
    for( size_t i = 0; i < k; i++ )
    {
        if( i && layout == Same )
            cs.push_back( cs[0] );
        else if( i && shared_in )
        {
            GenOpt q = o;
            q.kinds  = { cs[0].kind };
            Cfg c    = gen_cfg( ch, q );
            // the files fit all of them
            if( !common.agents && !common.network )
                ;
            else if( !c.activity_like() && c.kind != Kind::DeGroot && c.kind != Kind::Deffuant )
                c = cs[0];
            else
            {
                c.n = cs[0].n;
                if( c.n_bots > c.n )
                    c.n_bots = 0;
            }
            cs.push_back( c );
        }
        else
            cs.push_back( gen_cfg( ch, o ) );
        if( ch.chance( 1, 2 ) && layout != Same )
            cs[i].out_agents = cs[i].out_network = 1;
        if( layout == Numbers )
            cs[i].start_num = i * 100000 + cs[i].start_num.value_or( 0 ) % 1000;
        auto give = [&]( Inputs & in, const char * where )
        {
            const Cfg & c = cs[i];
            if( ch.chance( 1, 3 ) )
            {
                in.agents = strf( "/w/%s/agents.txt", where );
                w.put( *in.agents, text_agents( c.kind, gen_agents( ch, c ) ) );
            }
            if( ch.chance( 1, 3 ) )
            {
                in.network = strf( "/w/%s/network.txt", where );
                w.put( *in.network, text_network( gen_rows( ch, c.n, c.kind == Kind::DeGroot ) ) );
            }
        };
        if( shared_in )
        {
            if( i == 0 )
                give( common, "in" );
            inv[i].agents = common.agents, inv[i].network = common.network;
        }
        else
        {
            Inputs in;
            give( in, strf( "in%zu", i ).c_str() );
            inv[i].agents = in.agents, inv[i].network = in.network;
        }
        inv[i].config = layout == Same ? "/w/conf.toml" : strf( "/w/conf%zu.toml", i );
        w.put( inv[i].config, cs[i].toml() );
        switch( layout )
        {
            case Siblings: inv[i].out_dir = strf( "/w/sweep/a/run%zu", i ); break;
            case Nested: inv[i].out_dir = i ? abs( inv[i - 1].out_dir ) + strf( "/r%zu", i ) : "/w/sweep"; break;
            default: inv[i].out_dir = "/w/sweep/all";
        }
        if( ch.chance( 1, 2 ) )
        {
            inv[i].out_dir = inv[i].out_dir.substr( 3 ); // relative
            if( inv[i].agents && ch.chance( 1, 2 ) )
                inv[i].agents = inv[i].agents->substr( 3 );
        }
    }
    vector<Plan> plans( k );
    for( size_t i = 0; i < k; i++ )
        plans[i].device_value = std::uint32_t( layout == Same ? 77 : 77 + i );
    string brief;
    static const char * names[] = { "side by side", "inside each other", "in one directory", "the same run" };
    for( auto & c : cs )
        brief += ( brief.empty() ? string( names[layout] ) + ": " : " | " ) + c.brief();
    sample( brief );
    state_hash( brief );

    // each alone
    vector<Result> solo;
    vector<Tree> files( k ); // absolute name -> contents
    Tree owner_of, all;
    for( size_t i = 0; i < k; i++ )
    {
        Result r = run_cli( w, inv[i], plans[i] );
        if( abnormal( r ) )
            violate( "run failed", brief + ": " + r.describe() );
        solo.push_back( r );
        for( auto & [n, b] : w.tree( "/w/sweep" ) )
        {
            string f = "/w/sweep/" + n;
            if( w.fs.at( f ).dir )
                continue;
            files[i][f] = b;
            if( all.count( f ) && layout != Same )
                return; // (the numbers meet)
            all[f] = b;
        }
        w.remove_tree( "/w/sweep" );
    }
    nontrivial();
    probe( unsigned( layout ) );
    // together
    if( ch.chance( 1, 3 ) )
        w.mkdirs( abs( inv[ch.below( k )].out_dir ) );
    if( ch.chance( 1, 2 ) )
    {
        w.put( "/w/sweep/notes.txt", "keep me\n" );
        w.put( "/w/elsewhere/opinions_1.txt", "keep me too\n" );
    }
    Tree before = w.tree( "/w" );
    vector<Plan> together = plans;
    for( auto & p : together )
        if( ch.chance( 1, 3 ) )
            add_noise( ch, p );
    i64 victim = -1;
    if( layout != Same && ch.chance( 1, 3 ) )
    {
        victim  = i64( ch.below( k ) );
        auto & p = together[size_t( victim )];
        if( ch.chance( 1, 2 ) )
            p.crash_op = i64( ch.below( 60 ) ), p.crash_frac = ch.below( 256 );
        else
        {
            Fault f;
            f.op  = ch.pick( vector<Op>{ Op::Open, Op::Write, Op::Read, Op::Close } );
            f.nth = ch.below( 8 );
            f.err = EIO;
            p.faults.push_back( f );
        }
    }
    vector<std::function<int()>> bodies;
    for( size_t i = 0; i < k; i++ )
        bodies.push_back(
            [&, i]() -> int
            {
                auto a = inv[i].argv();
                return sys( [&] { return sut::cli( a ); } );
            } );
    auto rs = run_procs( w, bodies, together, 1, true );
    Tree after = w.tree( "/w" );
    for( size_t i = 0; i < k; i++ )
    {
        if( abnormal( rs[i] ) )
            violate( "abnormal end", brief + strf( ": process %zu: ", i ) + rs[i].describe() );
        probe( 5, rs[i].st.yields );
        if( i64( i ) == victim )
        {
            probe( 4, !rs[i].ok() );
            continue;
        }
        if( rs[i].end != solo[i].end || rs[i].code != solo[i].code )
            violate( "ends differently", brief + strf( ": process %zu ends with %s, alone with %s", i, rs[i].describe().c_str(), solo[i].describe().c_str() ) );
        if( rs[i].ok() && iterations_reported( rs[i].out ) != iterations_reported( solo[i].out ) )
            violate( "another number of iterations", brief + strf( ": process %zu", i ) );
        for( auto & [f, b] : files[i] )
        {
            string n = f.substr( 3 );
            if( !after.count( n ) )
                violate( "file missing", brief + strf( ": %s of process %zu", f.c_str(), i ) );
            if( after[n] != b )
                violate( "processes disturb each other",
                         brief + strf( ": process %zu: ", i ) + first_difference( { { f, b } }, { { f, after[n] } }, "alone", "together" ) );
        }
    }
    for( auto & [n, b] : before )
        if( !after.count( n ) || after[n] != b )
            violate( "foreign file changed", brief + ": " + n );
    for( auto & [n, b] : after )
    {
        string f = "/w/" + n;
        if( w.fs.at( f ).dir )
        {
            bool ours = before.count( n ) > 0;
            for( auto & v : inv )
                ours = ours || ( abs( v.out_dir ) + "/" ).rfind( f + "/", 0 ) == 0;
            if( !ours && victim < 0 )
                violate( "unexpected directory", brief + ": " + n );
            continue;
        }
        if( before.count( n ) || all.count( f ) )
        {
            // what is left of the process that was stopped
            if( victim >= 0 && together[size_t( victim )].crash_op >= 0 && files[size_t( victim )].count( f ) && !before.count( n )
                && all[f].compare( 0, b.size(), b ) != 0 )
                violate( "torn file is not a prefix", brief + ": " + n );
            continue;
        }
        if( victim < 0 )
            violate( "unexpected file", brief + ": " + n );
    }
}
static Register r30( { "P30", p30, 12000, 500000,
                       "two to four processes of the program with random configurations and shared or own input files, in directories "
                       "beside or inside each other, in one directory under different numbers, or the same run several times, switched "
                       "at random basic blocks and file operations, one of them killed or hit by an I/O error now and then, against each of "
                       "them alone; every run in which the names of files do not meet is non-trivial",
                       all_real, all_stub,
                       { "side_by_side", "inside_each_other", "one_directory", "same_run", "victims_failed", "preemptions" } } );
} // namespace sim
