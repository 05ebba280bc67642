// P02 P07 P11: several simulations at once, resuming, stopping.
#include "props.hpp"

namespace sim
{
// ------------------------------------------------------------------ P02
static void p02( World & w )
{
    size_t k = 2 + w.ch.below( 2 );
    GenOpt o;
    o.max_n    = 8;
    o.max_iter = 5;
    o.big      = w.ch.chance( 1, 10 );
    vector<Cfg> cs;
    vector<Inputs> ins( k );
    for( size_t i = 0; i < k; i++ )
    {
        if( i && w.ch.chance( 1, 2 ) )
        {
            // the same kind of model, other parameters and seed
            GenOpt q = o;
            q.kinds  = { cs[0].kind };
            cs.push_back( gen_cfg( w.ch, q ) );
        }
        else
            cs.push_back( gen_cfg( w.ch, o ) );
        cs[i].out_agents = cs[i].out_network = 1;
        w.put( strf( "/w/conf%zu.toml", i ), cs[i].toml() );
        if( w.ch.chance( 1, 4 ) )
        {
            ins[i].agents = strf( "/w/in/a%zu.txt", i );
            w.put( *ins[i].agents, text_agents( cs[i].kind, gen_agents( w.ch, cs[i] ) ) );
        }
        if( w.ch.chance( 1, 4 ) )
        {
            ins[i].network = strf( "/w/in/n%zu.txt", i );
            w.put( *ins[i].network, text_network( gen_rows( w.ch, cs[i].n, cs[i].kind == Kind::DeGroot ) ) );
        }
    }
    auto make = [&]( size_t i ) { return sut::make_sim( strf( "/w/conf%zu.toml", i ), ins[i].network, ins[i].agents ); };
    auto whole = [&]( size_t i, const string & dir )
    {
        sys(
            [&]
            {
                auto s = make( i );
                s->run( dir );
            } );
    };
    vector<Tree> solo;
    for( size_t i = 0; i < k; i++ )
    {
        string d = strf( "/w/solo%zu", i );
        w.mkdirs( d );
        Result r = run_lib( w, [&] { whole( i, d ); }, {} );
        expect_ok( r, cs[i].brief() );
        solo.push_back( w.tree( d ) );
    }
    string brief;
    for( auto & c : cs )
        brief += ( brief.empty() ? "" : " | " ) + c.brief();
    sample( brief );
    nontrivial();
    state_hash( brief );
    auto check = [&]( const char * how )
    {
        for( size_t i = 0; i < k; i++ )
            if( auto d = first_difference( solo[i], w.tree( strf( "/w/par%zu", i ) ), "alone", "together" ); !d.empty() )
                violate( "simulations influence each other", brief + strf( " (%s, simulation %zu): ", how, i ) + d );
    };
    for( size_t i = 0; i < k; i++ )
        w.mkdirs( strf( "/w/par%zu", i ) );
    if( w.ch.chance( 1, 3 ) )
    {
        // one thread, alternating steps of several objects
        Plan p;
        add_noise( w.ch, p );
        Result r = run_lib(
            w,
            [&]
            {
                vector<std::unique_ptr<sut::ISim>> s( k );
                vector<int> stage( k, -1 ); // -1 not constructed, n = iterations done, -2 finished
                auto dump = [&]( size_t i )
                {
                    sys(
                        [&]
                        {
                            s[i]->write_network( strf( "/w/par%zu/network_%d.txt", i, stage[i] ) );
                            s[i]->write_agents( strf( "/w/par%zu/opinions_%d.txt", i, stage[i] ) );
                        } );
                };
                for( size_t left = k; left > 0; )
                {
                    size_t i = w.ch.below( k );
                    if( stage[i] == -2 )
                        for( i = 0; stage[i] == -2; )
                            i++;
                    if( stage[i] == -1 )
                    {
                        sys( [&] { s[i] = make( i ); } );
                        stage[i] = 0;
                        dump( i );
                        sys( [&] { s[i]->initialize(); } );
                    }
                    else if( sys( [&] { return s[i]->finished(); } ) )
                    {
                        sys( [&] { s[i].reset(); } );
                        stage[i] = -2;
                        left--;
                    }
                    else
                    {
                        sys( [&] { s[i]->iteration(); } );
                        stage[i]++;
                        dump( i );
                    }
                    probe( 1 );
                }
            },
            p );
        expect_ok( r, brief );
        check( "alternating" );
        return;
    }
    // threads, preempted anywhere
    vector<std::function<int()>> bodies;
    vector<Plan> plans( k );
    for( size_t i = 0; i < k; i++ )
    {
        bodies.push_back(
            [&, i]() -> int
            {
                whole( i, strf( "/w/par%zu", i ) );
                return 0;
            } );
        plans[i].device_value = std::uint32_t( 77 + i );
    }
    auto rs = run_procs( w, bodies, plans, 1 );
    for( size_t i = 0; i < k; i++ )
    {
        expect_ok( rs[i], cs[i].brief() );
        probe( 0, rs[i].st.yields );
    }
    check( "threads" );
}
static Register r02( { "P02", p02, 20000, 780000,
                       "two or three random simulations, in threads preempted at random basic blocks or file operations, or stepped "
                       "alternately in one thread, against each of them alone; every run is non-trivial",
                       "Simulation objects: construction, run, models, output", all_stub, { "preemptions", "alternating_steps" } } );

// ------------------------------------------------------------------ P07
static void p07( World & w )
{
    GenOpt o;
    o.max_iter = 12;
    Cfg c      = gen_cfg( w.ch, o );
    bool exact = c.kind == Kind::DeGroot || ( c.activity_like() && c.mean_w );
    if( !exact && w.ch.chance( 1, 2 ) ) // prefer what can be compared bit by bit
    {
        GenOpt q = o;
        q.kinds  = { w.ch.chance( 1, 2 ) ? Kind::DeGroot : w.ch.chance( 1, 2 ) ? Kind::Activity : Kind::Inertial };
        c        = gen_cfg( w.ch, q );
        if( c.activity_like() )
        {
            c.mean_w = true;
            c.n      = std::min<size_t>( c.n, 40 );
            c.nconn  = std::min( c.nconn, c.n - 1 );
        }
        exact = true;
    }
    c.out_agents = c.out_network = 1;
    c.out_initial                = true;
    Inputs in                    = gen_inputs( w, c, 30, 30 );
    size_t total                 = size_t( *c.max_iter );
    sample( c.brief() );
    // the uninterrupted run
    Result ref = run_cfg( w, c, "/w/ref", {}, in.agents, in.network );
    expect_ok( ref, c.brief() );
    size_t ref_n = iterations_reported( ref.out );
    auto fa = in.agents, fn = in.network;
    size_t done = 0;
    size_t resumes = 0;
    for( size_t s = 0; s < 6; s++ )
    {
        Cfg cs      = c;
        cs.max_iter = int( total - done );
        if( done || w.ch.chance( 1, 4 ) )
            cs.start_num = done;
        if( s && ( fa || !exact || c.kind == Kind::DeGroot ) && ( fn || c.kind != Kind::DeGroot ) )
            cs.seed = int( w.ch.below( 1u << 31 ) );
        Plan p;
        add_noise( w.ch, p );
        u64 how = s < 4 ? w.ch.below( 3 ) : 0;
        if( how == 1 ) // stops early, on purpose
            cs.max_iter = int( w.ch.below( total - done + 1 ) );
        else if( how == 2 )
        {
            p.crash_op   = i64( w.ch.below( 30 + 14 * ( total - done ) ) );
            p.crash_frac = w.ch.below( 256 );
        }
        string dir = strf( "/w/s%zu", s );
        string before_a = fa ? w.get( *fa ) : "", before_n = fn ? w.get( *fn ) : "";
        size_t ev0 = w.file_events.size();
        Result r   = run_cfg( w, cs, dir, p, fa, fn );
        bool killed = r.end == End::Killed;
        if( !killed )
            expect_ok( r, cs.brief() );
        std::set<string> closed;
        for( size_t i = ev0; i < w.file_events.size(); i++ )
            if( w.file_events[i].kind == 1 )
                closed.insert( w.file_events[i].path );
        auto complete = [&]( size_t k )
        {
            return closed.count( dir + strf( "/opinions_%zu.txt", k ) ) && closed.count( dir + strf( "/network_%zu.txt", k ) );
        };
        size_t iters = killed ? 0 : iterations_reported( r.out );
        if( !killed )
        {
            if( c.kind != Kind::DeGroot && iters != size_t( *cs.max_iter ) )
                violate( "iteration count", strf( "session did %zu of %d iterations", iters, *cs.max_iter ) );
            // numbering continues where the previous session ended
            for( size_t k = done; k <= done + iters; k++ )
                if( !complete( k ) )
                    violate( "numbering", strf( "after resuming at %zu, snapshot %zu was not written", done, k ) );
            size_t n_files = outputs( w, dir ).size();
            if( n_files != 2 * ( iters + 1 ) )
                violate( "numbering", strf( "%zu files for %zu iterations", n_files, iters ) );
        }
        string err;
        if( complete( done ) )
        {
            Snap first = read_snap( w, c, dir, done );
            if( fa )
            {
                auto want = parse_agents( c.kind, before_a, err );
                if( !want || !same_agents( *want, first.a ) )
                    violate( "state not restored", cs.brief() + strf( ": agents loaded at %zu differ from the file", done ) );
            }
            if( fn && c.kind != Kind::Lattice && !c.grid && !( c.activity_like() && c.mean_w ) )
            {
                auto want = parse_network( before_n, err );
                if( !want || !same_rows( *want, first.net ) )
                    violate( "state not restored", cs.brief() + strf( ": network loaded at %zu differs from the file", done ) );
            }
            probe( 0 );
        }
        if( fa && w.get( *fa ) != before_a )
            violate( "input changed", *fa );
        size_t last = done;
        bool any    = false;
        for( size_t k = done; complete( k ); k++ )
        {
            last = k, any = true;
            bool loaded_start = k == done;
            if( exact && ( k <= ref_n ) )
            {
                // network of a mean-field model right after loading has not been computed yet
                string a1 = w.get( strf( "/w/ref/opinions_%zu.txt", k ) ), a2 = w.get( dir + strf( "/opinions_%zu.txt", k ) );
                if( a1 != a2 )
                    violate( "resumed run diverges",
                             cs.brief() + strf( ": session %zu, ", s )
                                 + first_difference( { { strf( "opinions_%zu.txt", k ), a1 } }, { { strf( "opinions_%zu.txt", k ), a2 } },
                                                     "uninterrupted run", "resumed run" ) );
                if( !( c.mean_w && c.activity_like() && loaded_start ) )
                {
                    a1 = w.get( strf( "/w/ref/network_%zu.txt", k ) ), a2 = w.get( dir + strf( "/network_%zu.txt", k ) );
                    if( a1 != a2 )
                        violate( "resumed run diverges",
                                 cs.brief() + strf( ": session %zu, ", s )
                                     + first_difference( { { strf( "network_%zu.txt", k ), a1 } }, { { strf( "network_%zu.txt", k ), a2 } },
                                                         "uninterrupted run", "resumed run" ) );
                }
                probe( 1 );
            }
        }
        state_hash( c.brief() + std::to_string( last ) );
        if( any )
        {
            if( s && last > done )
                nontrivial(), resumes++;
            done = last;
            fa   = dir + strf( "/opinions_%zu.txt", done );
            fn   = dir + strf( "/network_%zu.txt", done );
        }
        if( !killed && how != 1 )
            break;
        count( Counters::Restart );
        if( done >= total )
            break;
    }
    probe( 2, resumes );
}
static Register r07( { "P07", p07, 16000, 630000,
                       "a random run cut into sessions (ended early or killed at a random operation), each resumed from the last snapshot "
                       "of the one before, with another seed; non-trivial when a resumed session advanced",
                       all_real, all_stub, { "restored_states", "snapshots_equal_to_uninterrupted_run", "resumed_sessions" } } );

// ------------------------------------------------------------------ P11
static double max_change( const vector<AgentRec> & a, const vector<AgentRec> & b )
{
    double d = 0;
    for( size_t i = 0; i < a.size(); i++ )
        d = std::max( d, std::fabs( a[i].opinion - b[i].opinion ) );
    return d;
}
static void p11( World & w )
{
    u64 mode = w.ch.below( 4 );
    if( mode == 0 )
    {
        // exactly max_iterations
        GenOpt o;
        Cfg c = gen_cfg( w.ch, o );
        if( w.ch.chance( 1, 4 ) )
            c.max_iter = 0;
        if( c.kind == Kind::DeGroot )
            c.tol = 0.0;
        c.out_agents = w.ch.chance( 1, 2 ) ? optional<size_t>( 1 ) : std::nullopt;
        Inputs in    = gen_inputs( w, c, 30, 30 );
        sample( c.brief() );
        Plan p;
        add_noise( w.ch, p );
        if( w.ch.chance( 1, 3 ) )
            add_overrides( w.ch, p, 40 + 10 * c.n * size_t( *c.max_iter + 1 ) );
        if( w.ch.chance( 1, 5 ) )
        {
            // so does every run of one simulation
            c.out_initial = w.ch.chance( 1, 2 );
            c.out_agents  = 1;
            w.put( "/w/conf.toml", c.toml() );
            size_t runs = 1 + w.ch.below( 3 ), its[3] = {};
            expect_ok( run_lib(
                           w,
                           [&]
                           {
                               auto s = sys( [&] { return sut::make_sim( "/w/conf.toml", in.network, in.agents ); } );
                               for( size_t k = 0; k < runs; k++ )
                               {
                                   sys( [&] { s->run( strf( "/w/m%zu", k ) ); } );
                                   its[k] = sys( [&] { return s->n_iterations(); } );
                               }
                               sys( [&] { s.reset(); } );
                           },
                           p ),
                       c.brief() );
            for( size_t k = 0; k < runs; k++ )
            {
                size_t states = 0;
                for( auto & [n, b] : outputs( w, strf( "/w/m%zu", k ) ) )
                    states += n[0] == 'o' && n != "opinions_0.txt";
                if( its[k] != size_t( *c.max_iter ) || states != its[k] )
                    violate( "iteration count", c.brief() + strf( ": run() number %zu does %zu iterations and writes %zu states", k + 1, its[k], states ) );
            }
            nontrivial();
            return;
        }
        Result r = run_cfg( w, c, "/w/out", p, in.agents, in.network );
        expect_ok( r, c.brief() );
        if( iterations_reported( r.out ) != size_t( *c.max_iter ) )
            violate( "iteration count", c.brief() + strf( ": %zu iterations", iterations_reported( r.out ) ) );
        size_t last = 0;
        for( auto & [n, b] : outputs( w, "/w/out" ) )
            if( n[0] == 'o' )
                last = std::max<size_t>( last, size_t( atoll( n.c_str() + 9 ) ) );
        if( c.out_agents && last != size_t( *c.max_iter ) )
            violate( "iteration count", c.brief() + strf( ": last state written is number %zu", last ) );
        nontrivial();
        probe( 0 );
        state_hash( c.brief() );
        return;
    }
    if( mode == 1 || mode == 2 )
    {
        // DeGroot: stops at the first iteration whose largest change is below the tolerance
        GenOpt o;
        o.kinds = { Kind::DeGroot };
        o.big   = false;
        Cfg c   = gen_cfg( w.ch, o );
        double tol = w.ch.pick( vector<double>{ 1e-2, 1e-3, 1e-6, 1e-1, 0.25, 1e-9 } );
        c.tol   = tol;
        if( w.ch.chance( 1, 4 ) )
            c.tol.reset(), tol = 1e-6; // the documented default
        c.max_iter = mode == 1 ? optional<int>( int( w.ch.range( 1, 60 ) ) ) : std::nullopt;
        c.out_agents = c.out_network = 1;
        c.out_initial                = true;
        Inputs in;
        in = gen_inputs( w, c, 50, 50 );
        if( in.agents && w.ch.chance( 1, 3 ) ) // consensus from the start
        {
            for( auto & a : *in.a )
                a.opinion = 0.5;
            w.put( *in.agents, text_agents( c.kind, *in.a ) );
        }
        if( mode == 2 )
        {
            in.r.reset(), in.network.reset(); // generated: every agent listens to itself, so it converges
        }
        // what the model should do
        Cfg c0      = c;
        c0.max_iter = 0;
        expect_ok( run_cfg( w, c0, "/w/start", {}, in.agents, in.network ), c.brief() );
        Snap s0 = read_snap( w, c, "/w/start", 0 );
        vector<double> x;
        for( auto & a : s0.a )
            x.push_back( a.opinion );
        size_t limit = mode == 2 ? 4000 : size_t( *c.max_iter ), ref_n = 0;
        bool sure = true, conv = false;
        while( ref_n < limit && !conv )
        {
            auto y   = ref_degroot( x, s0.net, nullptr );
            double d = 0;
            for( size_t i = 0; i < x.size(); i++ )
                d = std::max( d, std::fabs( x[i] - y[i] ) );
            x = y;
            ref_n++;
            if( std::fabs( d - tol ) < 1e-9 * tol + 1e-14 )
                sure = false;
            conv = d < tol;
        }
        if( mode == 2 && !conv )
            return; // converges too slowly to wait for
        sample( c.brief() );
        Plan p;
        add_noise( w.ch, p );
        p.max_steps = 400'000'000;
        Result r    = run_cfg( w, c, "/w/out", p, in.agents, in.network );
        if( r.end == End::Stuck )
            violate( "does not stop", c.brief() + strf( ": the opinions settle after %zu iterations, the run goes on", ref_n ) );
        expect_ok( r, c.brief() );
        size_t n = iterations_reported( r.out );
        state_hash( c.brief() + std::to_string( n ) );
        // the states that were written
        Snap prev = read_snap( w, c, "/w/out", 0 );
        for( size_t k = 1; k <= n; k++ )
        {
            Snap s   = read_snap( w, c, "/w/out", k );
            double d = max_change( prev.a, s.a );
            if( k < n && d < tol * ( 1 - 1e-12 ) )
                violate( "went on after convergence", c.brief() + strf( ": change %.3g in iteration %zu, stopped after %zu", d, k, n ) );
            if( k == n && !( d < tol * ( 1 + 1e-12 ) ) && !( c.max_iter && n == size_t( *c.max_iter ) ) )
                violate( "stopped before convergence", c.brief() + strf( ": change %.3g in the last iteration %zu", d, k ) );
            prev = s;
        }
        if( c.max_iter && n > size_t( *c.max_iter ) )
            violate( "iteration count", c.brief() + strf( ": %zu iterations", n ) );
        if( sure && n != ref_n )
            violate( "iteration count", c.brief() + strf( ": %zu iterations instead of %zu", n, ref_n ) );
        if( conv )
            nontrivial();
        probe( 1 );
        return;
    }
    // a second run() of the same object starts counting anew and continues from the state reached
    GenOpt o;
    o.big = false;
    Cfg c = gen_cfg( w.ch, o );
    if( c.kind == Kind::DeGroot )
        c.tol = w.ch.pick( vector<double>{ 0.0, 1e-2, 1e-1 } );
    c.out_agents = c.out_network = 1;
    c.out_initial                = true;
    w.put( "/w/conf.toml", c.toml() );
    Inputs in = gen_inputs( w, c, 30, 30 );
    sample( c.brief() );
    Plan p;
    add_noise( w.ch, p );
    size_t n[3] = {};
    size_t runs = 2 + w.ch.below( 2 );
    bool manual = w.ch.chance( 1, 3 ); // step it by hand first
    size_t by_hand = 0;
    Result r = run_lib(
        w,
        [&]
        {
            auto s = sys( [&] { return sut::make_sim( "/w/conf.toml", in.network, in.agents ); } );
            if( manual )
            {
                by_hand = 1 + w.ch.below( 4 );
                for( size_t k = 0; k < by_hand; k++ )
                    sys( [&] { s->iteration(); } );
                if( sys( [&] { return s->n_iterations(); } ) != by_hand )
                    violate( "iteration count", c.brief() + ": iteration() does not count" );
            }
            for( size_t q = 0; q < runs; q++ )
            {
                sys( [&] { s->run( strf( "/w/r%zu", q ) ); } );
                n[q] = sys( [&] { return s->n_iterations(); } );
            }
            sys( [&] { s.reset(); } );
        },
        p );
    expect_ok( r, c.brief() );
    Snap prev;
    for( size_t q = 0; q < runs; q++ )
    {
        if( c.kind != Kind::DeGroot && n[q] != size_t( *c.max_iter ) )
            violate( "iteration count", c.brief() + strf( ": run() number %zu did %zu iterations", q + 1, n[q] ) );
        if( n[q] > size_t( *c.max_iter ) || ( *c.max_iter > 0 && n[q] == 0 ) )
            violate( "iteration count", c.brief() + strf( ": run() number %zu did %zu iterations", q + 1, n[q] ) );
        string dir = strf( "/w/r%zu", q );
        Snap first = read_snap( w, c, dir, 0 );
        if( q && ( !same_agents( first.a, prev.a ) || !same_rows( first.net, prev.net ) ) )
            violate( "second run", c.brief() + ": does not continue from the state of the first" );
        prev = read_snap( w, c, dir, n[q] );
        if( outputs( w, dir ).size() != 2 * ( n[q] + 1 ) )
            violate( "second run", c.brief() + ": number of files" );
        if( c.kind == Kind::DeGroot )
        {
            Snap a = first;
            for( size_t k = 1; k <= n[q]; k++ )
            {
                Snap b   = read_snap( w, c, dir, k );
                double d = max_change( a.a, b.a );
                if( k < n[q] && d < *c.tol * ( 1 - 1e-12 ) )
                    violate( "went on after convergence", c.brief() );
                if( k == n[q] && k < size_t( *c.max_iter ) && !( d < *c.tol * ( 1 + 1e-12 ) ) )
                    violate( "stopped before convergence", c.brief() );
                a = b;
            }
        }
    }
    nontrivial();
    probe( 2 );
    state_hash( c.brief() + std::to_string( n[0] ) );
}
static Register r11( { "P11", p11, 45000, 1730000,
                       "runs with a fixed number of iterations, DeGroot runs with a tolerance (with and without a limit) against the "
                       "stopping rule and a reference run, and repeated run() calls; non-trivial when the run had to stop by its rule",
                       all_real, all_stub, { "fixed_length", "tolerance", "repeated_runs" } } );
} // namespace sim
