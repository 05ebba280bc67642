// P23: laws of chance, over the pseudo-random generator of the program.
#include "props.hpp"

namespace sim
{
namespace
{
// Chernoff: at most 2 exp(-n KL(observed, p)) for n independent trials
double surprise( double n, double hits, double p )
{
    if( n <= 0 )
        return 0;
    double q = hits / n, r = 0;
    if( q > 0 )
        r += p > 0 ? q * std::log( q / p ) : 1e9;
    if( q < 1 )
        r += p < 1 ? ( 1 - q ) * std::log( ( 1 - q ) / ( 1 - p ) ) : 1e9;
    return n * r;
}
constexpr double limit = 26; // 1e-11 for each comparison
struct Ctx
{
    World & w;
    string who;
};
void test( const Ctx & c, const string & what, double n, double hits, double p )
{
    probe( 0 );
    if( surprise( n, hits, p ) > limit )
        violate( "frequency", c.who + ": " + what + strf( ": %g of %g, expected a fraction of %g", hits, n, p ) );
}
std::unique_ptr<sut::ISim> make( World & w, const Cfg & c, const optional<vector<AgentRec>> & a, const optional<Rows> & r = {} )
{
    w.put( "/w/conf.toml", c.toml() );
    optional<string> fa, fn;
    if( a )
        fa = "/w/in/a.txt", w.put( *fa, text_agents( c.kind, *a ) );
    if( r )
        fn = "/w/in/n.txt", w.put( *fn, text_network( *r ) );
    return sys( [&] { return sut::make_sim( "/w/conf.toml", fn, fa ); } );
}
Cfg base( World & w, Kind k, size_t n )
{
    Cfg c;
    c.kind     = k;
    c.n        = n;
    c.nconn    = std::min<size_t>( n - 1, 2 );
    c.seed     = int( w.ch.below( 1u << 31 ) );
    c.max_iter = 1;
    c.mean_act = c.mean_w = false;
    c.out_agents.reset();
    return c;
}
// still life: opinions do not move
void frozen( Cfg & c )
{
    c.dt = 1e-13;
    c.K  = 1.0;
}
vector<vector<char>> edges( sut::ISim & s ) // [i][j]: i contacts j
{
    size_t n = s.n();
    vector<vector<char>> e( n, vector<char>( n, 0 ) );
    for( size_t j = 0; j < n; j++ )
        for( auto i : s.neighbours( j ) )
            e[i][j] = 1;
    return e;
}
Kind act_kind( World & w )
{
    return w.ch.chance( 1, 2 ) ? Kind::Activity : Kind::Inertial;
}

void activation( World & w )
{
    size_t n = size_t( w.ch.range( 3, 12 ) ), T = 400;
    Cfg c    = base( w, act_kind( w ), n );
    c.m      = int( w.ch.range( 1, 3 ) );
    c.reciprocity = 0;
    frozen( c );
    vector<double> act( n ), pool;
    if( w.ch.chance( 1, 2 ) ) // agents that share their activities
        for( u64 q = 1 + w.ch.below( 2 ); q > 0; q-- )
            pool.push_back( w.ch.unit() );
    auto draw = [&] { return pool.empty() ? w.ch.unit() : w.ch.pick( pool ); };
    optional<vector<AgentRec>> a;
    bool bots = w.ch.chance( 1, 3 );
    if( bots )
    {
        c.n_bots = n;
        for( size_t i = 0; i < n; i++ )
        {
            act[i] = draw();
            c.bot_m.push_back( int( w.ch.range( 1, 3 ) ) ), c.bot_op.push_back( gen_opinion( w.ch ) ), c.bot_act.push_back( act[i] ),
                c.bot_hom.push_back( 0.5 );
        }
    }
    else
    {
        a = vector<AgentRec>( n );
        for( size_t i = 0; i < n; i++ )
        {
            ( *a )[i].opinion  = gen_opinion( w.ch );
            ( *a )[i].activity = act[i] = draw();
        }
    }
    auto s = make( w, c, a );
    vector<double> hits( n, 0 ), pairs( n, 0 ), before( n, 0 ), joint( n, 0 );
    double ends = 0;
    for( size_t t = 0; t < T; t++ )
    {
        sys( [&] { s->iteration(); } );
        auto e = edges( *s );
        for( size_t i = 0; i < n; i++ )
        {
            bool on = std::find( e[i].begin(), e[i].end(), 1 ) != e[i].end();
            hits[i] += on;
            if( t % 2 )
                pairs[i] += on && before[i] > 0;
            before[i] = on;
            if( i >= 1 )
                joint[i] += on && before[i - 1] > 0;
            if( i + 1 == n )
                ends += on && before[0] > 0;
        }
    }
    Ctx x{ w, c.brief() + strf( " seed=%d%s", *c.seed, bots ? " bots" : "" ) };
    for( size_t i = 0; i < n; i++ )
    {
        test( x, strf( "iterations in which agent %zu (activity %g) is active", i, act[i] ), double( T ), hits[i], act[i] );
        test( x, strf( "pairs of iterations in which agent %zu (activity %g) is active in both", i, act[i] ), double( T / 2 ), pairs[i], act[i] * act[i] );
    }
    for( size_t i = 1; i < n; i++ )
        test( x, strf( "agents %zu and %zu (activities %g, %g) both active", i - 1, i, act[i - 1], act[i] ), double( T ), joint[i], act[i - 1] * act[i] );
    test( x, "the first and the last agent both active", double( T ), ends, act[0] * act[n - 1] );
    sys( [&] { s.reset(); } );
}
void answers( World & w )
{
    size_t n = size_t( w.ch.range( 6, 20 ) ), T = 300, k = 1 + w.ch.below( 3 );
    Cfg c    = base( w, act_kind( w ), n );
    c.m      = int( w.ch.range( 1, 4 ) );
    c.homophily   = w.ch.pick( vector<double>{ 0.0, 0.5, 1.0 } );
    c.reciprocity = w.ch.pick( vector<double>{ 0.5, 0.1, 0.9, 0.3, 0.75, 0.01 } );
    frozen( c );
    vector<AgentRec> a( n );
    for( size_t i = 0; i < n; i++ )
        a[i].opinion = gen_opinion( w.ch ), a[i].activity = i < k ? 1.0 : 0.0;
    auto s = make( w, c, a );
    double total = 0, back = 0, low = 0, low_back = 0, two = 0, two_back = 0, seq = 0, seq_back = 0;
    vector<int> last( n, -1 ); // how the last contact of each agent ended
    for( size_t t = 0; t < T; t++ )
    {
        sys( [&] { s->iteration(); } );
        auto e = edges( *s );
        for( size_t i = 0; i < k; i++ )
        {
            int open = -1, first = -1;
            for( size_t j = k; j < n; j++ )
                if( e[i][j] )
                {
                    if( first < 0 )
                        first = e[j][i];
                    if( open < 0 )
                        open = e[j][i];
                    else
                        two++, two_back += open && e[j][i], open = -1;
                    total++, back += e[j][i];
                    if( j < n / 2 )
                        low++, low_back += e[j][i];
                }
            if( first >= 0 )
            {
                if( last[i] >= 0 )
                    seq++, seq_back += last[i] && first, last[i] = -1;
                else
                    last[i] = first;
            }
        }
    }
    Ctx x{ w, c.brief() + strf( " seed=%d", *c.seed ) };
    test( x, "contacts that were answered", total, back, c.reciprocity );
    test( x, "pairs of contacts of one agent that were both answered", two, two_back, c.reciprocity * c.reciprocity );
    test( x, "contacts of one agent in successive iterations that were both answered", seq, seq_back, c.reciprocity * c.reciprocity );
    test( x, "contacts with lower indices that were answered", low, low_back, c.reciprocity );
    sys( [&] { s.reset(); } );
}
// chance that j is among the first m of a sequence drawn by weight without replacement
double included( const vector<double> & p, size_t j, size_t m, vector<char> & used, double left )
{
    if( !m )
        return 0;
    double r = 0;
    for( size_t q = 0; q < p.size(); q++ )
    {
        if( used[q] || p[q] <= 0 )
            continue;
        double now = p[q] / left;
        if( q == j )
            r += now;
        else if( m > 1 )
        {
            used[q] = 1;
            r += now * included( p, j, m - 1, used, left - p[q] );
            used[q] = 0;
        }
    }
    return r;
}
void homophily( World & w )
{
    size_t n = size_t( w.ch.range( 3, 7 ) ), T = 600;
    Cfg c    = base( w, act_kind( w ), n );
    c.m      = int( w.ch.range( 1, 3 ) );
    c.homophily   = w.ch.pick( vector<double>{ 0.0, 0.5, 1.0, 2.0, 3.0, -1.0 } );
    c.reciprocity = 0;
    frozen( c );
    if( w.ch.chance( 1, 2 ) )
    {
        c.n_bots = size_t( w.ch.range( 1, i64( n ) ) );
        for( size_t i = 0; i < c.n_bots; i++ )
            c.bot_m.push_back( int( w.ch.range( 1, 2 ) ) ), c.bot_op.push_back( double( i ) * 0.5 + 0.25 ), c.bot_act.push_back( 1.0 ),
                c.bot_hom.push_back( w.ch.pick( vector<double>{ 0.0, 1.0, 2.0 } ) );
    }
    vector<AgentRec> a( n );
    for( size_t i = 0; i < n; i++ )
    {
        a[i].opinion  = i < c.n_bots ? c.bot_op[i] : double( i ) * 0.5 + w.ch.unit() * 0.4;
        a[i].activity = 1;
    }
    if( w.ch.chance( 1, 6 ) && c.homophily == 1.0 && !c.n_bots )
        a[1].opinion = a[0].opinion; // identical opinions: practically certain
    auto s = make( w, c, a );
    vector<vector<double>> cnt( n, vector<double>( n, 0 ) ), twice = cnt, prev = cnt;
    for( size_t t = 0; t < T; t++ )
    {
        sys( [&] { s->iteration(); } );
        auto e = edges( *s );
        for( size_t i = 0; i < n; i++ )
            for( size_t j = 0; j < n; j++ )
            {
                cnt[i][j] += e[i][j];
                if( t % 2 )
                    twice[i][j] += e[i][j] && prev[i][j] > 0;
                prev[i][j] = e[i][j];
            }
    }
    Ctx x{ w, c.brief() + strf( " seed=%d", *c.seed ) };
    for( size_t i = 0; i < n; i++ )
    {
        vector<double> p( n, 0 );
        double z = 0;
        for( size_t j = 0; j < n; j++ )
            if( j != i )
                z += p[j] = hom_weight( a[i].opinion, a[j].opinion, c.hom( i ) );
        for( size_t j = 0; j < n; j++ )
        {
            if( j == i )
                continue;
            vector<char> used( n, 0 );
            double q = c.contacts( i ) >= n - 1 ? 1.0 : included( p, j, c.contacts( i ), used, z );
            test( x, strf( "agent %zu (%zu contacts, homophily %g) contacts %zu", i, c.contacts( i ), c.hom( i ), j ), double( T ), cnt[i][j],
                  std::clamp( q, 1e-12, 1.0 - ( q < 1 - 1e-9 ? 1e-12 : 0.0 ) ) );
            test( x, strf( "agent %zu (%zu contacts, homophily %g) contacts %zu in two iterations running", i, c.contacts( i ), c.hom( i ), j ),
                  double( T / 2 ), twice[i][j], std::clamp( q * q, 1e-12, 1.0 - ( q < 1 - 1e-9 ? 1e-12 : 0.0 ) ) );
        }
    }
    sys( [&] { s.reset(); } );
}
void pairs( World & w )
{
    // only one pair can interact; each interaction shrinks its distance by a known factor
    bool grid = w.ch.chance( 1, 2 );
    size_t e  = 2 + w.ch.below( 3 ), n = grid ? e * e : size_t( w.ch.range( 2, 8 ) );
    Cfg c     = base( w, grid ? Kind::Lattice : Kind::Deffuant, n );
    c.threshold = 1;
    c.mu        = 0.001;
    vector<AgentRec> a( n );
    for( size_t i = 0; i < n; i++ )
        a[i].opinion = 10.0 * double( i );
    size_t A = w.ch.below( n ), B;
    double p;
    if( grid )
    {
        auto nb  = lattice_neighbours( e, A );
        B        = nb[w.ch.below( 4 )];
        double k = double( std::count( nb.begin(), nb.end(), B ) );
        p        = 2.0 / double( n ) * k / 4;
    }
    else
    {
        B = w.ch.below( n - 1 );
        B += B >= A;
        p = 2.0 / ( double( n ) * double( n - 1 ) );
    }
    a[B].opinion = a[A].opinion + 0.5;
    auto s       = make( w, c, a );
    double done = 0, trials = 0, d = 0.5;
    for( size_t t = 0; t < 6000 && done < 3000; t++ )
    {
        sys( [&] { s->iteration(); } );
        double nd = s->agent( B ).opinion - s->agent( A ).opinion;
        double k  = std::log( nd / d ) / std::log( 0.998 );
        if( !( std::fabs( k - std::round( k ) ) < 1e-3 ) || k < -0.5 || k > double( n ) + 0.5 )
            violate( "wrong update", c.brief() + strf( ": distance %g -> %g", d, nd ) );
        done += std::round( k );
        trials += double( n );
        d = nd;
    }
    Ctx x{ w, c.brief() + strf( " seed=%d", *c.seed ) };
    // stopping when enough were seen does not matter at this scale
    test( x, strf( "interactions of agents %zu and %zu", A, B ), trials, done, p );
    sys( [&] { s.reset(); } );
}
double phi( double z )
{
    return 0.5 * ( 1 + std::erf( z / std::sqrt( 2.0 ) ) );
}
void initial( World & w )
{
    size_t n = 400;
    Cfg c    = base( w, act_kind( w ), n );
    c.max_iter = 0;
    c.eps      = w.ch.pick( vector<double>{ 0.5, 0.01, 0.1, 0.9 } );
    c.gamma    = w.ch.pick( vector<double>{ 2.1, 2.5, 3.0, 5.0 } );
    c.nconn    = size_t( w.ch.range( 0, 6 ) );
    c.use_rel  = w.ch.chance( 2, 3 );
    if( c.use_rel )
    {
        c.rel_mean  = w.ch.pick( vector<double>{ 1.0, 0.5, 2.0 } );
        c.rel_sigma = w.ch.pick( vector<double>{ 0.25, 0.5, 1.0 } );
        c.rel_eps   = w.ch.pick( vector<double>{ 0.01, 0.2, 0.5 } );
        c.cov       = w.ch.pick( vector<double>{ 0.0, 0.5, -0.5, 0.9, -0.9 } );
    }
    vector<double> op, ac, re;
    Ctx x{ w, c.brief() + strf( " eps=%g gamma=%g reluctance %g %g %g cov=%g seed=%d", c.eps, c.gamma, c.rel_mean, c.rel_sigma, c.rel_eps,
                                c.cov, *c.seed ) };
    size_t reps = 4;
    vector<double> listened( n, 0 );
    double self = 0, first = 0;
    for( size_t q = 0; q < reps; q++ )
    {
        Cfg d  = c;
        d.seed = int( w.ch.below( 1u << 31 ) );
        auto s = make( w, d, {} );
        for( size_t i = 0; i < n; i++ )
        {
            auto a = s->agent( i );
            op.push_back( ( a.opinion + 1 ) / 2 );
            double g = 1 - c.gamma, e = std::pow( c.eps, g );
            ac.push_back( ( std::pow( a.activity, g ) - e ) / ( 1 - e ) );
            if( c.use_rel )
            {
                double z0 = phi( ( c.rel_eps - c.rel_mean ) / c.rel_sigma );
                re.push_back( ( phi( ( a.reluctance - c.rel_mean ) / c.rel_sigma ) - z0 ) / ( 1 - z0 ) );
            }
            auto nb = s->neighbours( i );
            auto we = s->weights( i );
            for( size_t t = 0; t < nb.size(); t++ )
                if( nb[t] == i )
                    self += we[t];
                else
                {
                    listened[nb[t]]++;
                    if( nb[t] < n / 2 )
                        first++;
                }
        }
        sys( [&] { s.reset(); } );
    }
    auto uniform = [&]( const vector<double> & v, const char * what )
    {
        double N = double( v.size() );
        for( int b = 1; b < 16; b++ )
        {
            double k = 0, cut = b / 16.0;
            for( double u : v )
                k += u < cut;
            test( x, strf( "%s below the %d/16 quantile", what, b ), N, k, cut );
        }
        double up = 0, m = 0; // successive ones are independent
        for( size_t i = 0; i + 1 < v.size(); i += 2 )
            m++, up += ( v[i] < 0.5 ) == ( v[i + 1] < 0.5 );
        test( x, strf( "successive agents on the same side of the median %s", what ), m, up, 0.5 );
    };
    uniform( op, "opinion" );
    uniform( ac, "activity" );
    auto same_side = [&]( const vector<double> & a, const vector<double> & b, const char * what, double p )
    {
        double k = 0;
        for( size_t i = 0; i < a.size(); i++ )
            k += ( a[i] < 0.5 ) == ( b[i] < 0.5 );
        test( x, what, double( a.size() ), k, p );
    };
    same_side( op, ac, "opinion and activity on the same side of their medians", 0.5 );
    if( c.use_rel )
    {
        uniform( re, "reluctance" );
        same_side( ac, re, "activity and reluctance on the same side of their medians", 0.5 + std::asin( c.cov ) / 3.14159265358979324 );
        same_side( op, re, "opinion and reluctance on the same side of their medians", 0.5 );
    }
    double others = double( reps * ( n - 1 ) );
    for( size_t j = 0; j < n; j++ )
        test( x, strf( "agents that listen to %zu", j ), others, listened[j], double( c.nconn ) / double( n - 1 ) );
    // weights are exchangeable: the mean weight of the agent itself is 1/(k+1)
    double N = double( reps * n ), dev = std::fabs( self / N - 1.0 / double( c.nconn + 1 ) );
    if( 2 * N * dev * dev > limit )
        violate( "frequency", x.who + strf( ": mean weight of the agent itself is %g of %zu", self / N, c.nconn + 1 ) );
}
void bits( World & w )
{
    size_t n = 2000;
    Cfg c    = base( w, Kind::Vector, n );
    c.dim    = size_t( w.ch.range( 1, 8 ) );
    c.threshold = 1;
    auto s      = make( w, c, {} );
    Ctx x{ w, c.brief() + strf( " seed=%d", *c.seed ) };
    for( size_t d = 0; d < c.dim; d++ )
    {
        double k = 0, same = 0, next = 0;
        for( size_t i = 0; i < n; i++ )
        {
            auto v = s->agent( i ).vec;
            k += v[d];
            same += v[d] == v[( d + 1 ) % c.dim];
            if( i % 2 )
                next += v[d] == s->agent( i - 1 ).vec[d];
        }
        test( x, strf( "ones in opinion %zu", d ), double( n ), k, 0.5 );
        test( x, "same opinion in successive agents", double( n / 2 ), next, 0.5 );
        if( c.dim > 1 )
            test( x, "same value in successive opinions", double( n ), same, 0.5 );
    }
    sys( [&] { s.reset(); } );
}
// two agents meet: who takes over what
void disputes( World & w )
{
    Cfg c       = base( w, Kind::Vector, 2 );
    c.nconn     = 1;
    c.dim       = size_t( w.ch.range( 1, 400 ) );
    c.threshold = double( c.dim ) + 1;
    c.mu        = w.ch.pick( vector<double>{ 0.5, 0.0, 1.0, 0.2, 0.8 } );
    auto s      = make( w, c, {} );
    Ctx x{ w, c.brief() + strf( " dim=%zu seed=%d", c.dim, *c.seed ) };
    Rng filler( w.ch.below( 1 << 20 ) );
    double p = ( 1 - c.mu ) / 2, per_entry = 0, entries = 0, alike = 0, twos = 0;
    for( size_t t = 0; t < 40; t++ )
    {
        AgentRec a[2];
        for( size_t d = 0; d < c.dim; d++ )
        {
            int v = int( filler.below( 2 ) );
            bool differ = filler.below( 3 ) > 0;
            a[0].vec.push_back( v ), a[1].vec.push_back( differ ? 1 - v : v );
        }
        sys( [&] { s->set_agent( 0, a[0] ), s->set_agent( 1, a[1] ), s->iteration(); } );
        auto r0 = s->agent( 0 ).vec, r1 = s->agent( 1 ).vec;
        if( r0 != r1 )
            violate( "dispute left", x.who + ": the two agents still disagree after meeting" );
        double n = 0, first = 0;
        int before = -1;
        for( size_t d = 0; d < c.dim; d++ )
            if( a[0].vec[d] != a[1].vec[d] )
            {
                int from_other = r0[d] == a[1].vec[d];
                n++, first += from_other;
                if( before >= 0 )
                    twos++, alike += before == from_other, before = -1;
                else
                    before = from_other;
            }
            else if( r0[d] != a[0].vec[d] )
                violate( "dispute", x.who + ": an entry both agree on changes" );
        probe( 0 );
        // which of the two is asked first is not stated
        if( std::min( surprise( n, first, p ), surprise( n, first, 1 - p ) ) > limit )
            violate( "frequency", x.who + strf( ": entries taken over by one of the two: %g of %g, expected a fraction of %g or %g", first, n, p, 1 - p ) );
        if( c.mu == 0 )
            per_entry += first, entries += n;
    }
    if( c.mu == 0 )
        test( x, "entries taken over by agent 0", entries, per_entry, 0.5 );
    // entries are decided one by one: neighbours agree with chance p^2 + (1-p)^2
    test( x, "successive disputes with the same outcome", twos, alike, p * p + ( 1 - p ) * ( 1 - p ) );
    sys( [&] { s.reset(); } );
}
// the distributions by themselves: samples, and the density each reports
void densities( World & w )
{
    size_t n    = 2000;
    auto seed   = std::uint32_t( w.ch.below( 1ull << 32 ) );
    u64 kind    = w.ch.below( 3 );
    double a    = 0, b = 0, c = 0;
    string who;
    if( kind == 2 )
    {
        a           = w.ch.pick( vector<double>{ 0.0, 0.5, -0.5, 0.9, -0.9, 1.0, -1.0, 0.2 } );
        Ctx x{ w, strf( "bivariate normal distribution, covariance %g", a ) };
        auto r      = sys( [&] { return sut::bivariate_normal( a, n, seed ); } );
        double same = 0;
        for( size_t i = 0; i < n; i++ )
            same += ( r.samples[i] < 0 ) == ( r.second[i] < 0 );
        test( x, "pairs of the same sign", double( n ), same, std::clamp( 0.5 + std::asin( a ) / 3.14159265358979324, 1e-12, 1.0 ) );
        for( int q = 1; q < 8; q++ )
        {
            double k1 = 0, k2 = 0;
            for( size_t i = 0; i < n; i++ )
                k1 += phi( r.samples[i] ) < q / 8.0, k2 += phi( r.second[i] ) < q / 8.0;
            test( x, strf( "first component below the %d/8 quantile", q ), double( n ), k1, q / 8.0 );
            test( x, strf( "second component below the %d/8 quantile", q ), double( n ), k2, q / 8.0 );
        }
        return;
    }
    double lo, hi;
    if( kind == 0 )
    {
        a  = w.ch.pick( vector<double>{ 0.5, 0.01, 0.1, 0.9, 0.001 } );
        b  = w.ch.pick( vector<double>{ 2.5, 2.1, 3.0, 1.5, 6.0 } );
        lo = a, hi = 1;
        who = strf( "power law, eps %g, gamma %g", a, b );
    }
    else
    {
        a  = w.ch.pick( vector<double>{ 1.0, 0.5, 2.0, -1.0 } );
        b  = w.ch.pick( vector<double>{ 0.25, 0.5, 1.0, 3.0 } );
        c  = w.ch.pick( vector<double>{ 0.01, 0.2, 0.5 } );
        if( a < 0 && b < 0.5 )
            b = 0.5;
        lo = c, hi = std::max( a, c ) + 6 * b;
        who = strf( "truncated normal distribution, mean %g, sigma %g, eps %g", a, b, c );
    }
    // a few intervals, Simpson's rule on each (on a logarithmic scale for the power law)
    constexpr size_t parts = 6, steps = 200;
    vector<double> cut{ lo }, at;
    for( size_t q = 1; q < parts; q++ )
        if( kind == 0 )
        {
            double g = 1 - b, e = std::pow( a, g );
            cut.push_back( std::pow( e + ( 1 - e ) * double( q ) / parts, 1 / g ) );
        }
        else
            cut.push_back( lo + ( hi - lo ) * std::pow( double( q ) / parts, 1.5 ) );
    cut.push_back( hi );
    for( size_t q = 0; q < parts; q++ )
        for( size_t i = 0; i <= steps; i++ )
            at.push_back( kind == 0 ? cut[q] * std::pow( cut[q + 1] / cut[q], double( i ) / steps )
                                    : cut[q] + ( cut[q + 1] - cut[q] ) * double( i ) / steps );
    auto r = sys( [&] { return kind == 0 ? sut::power_law( a, b, n, at, seed ) : sut::truncated_normal( a, b, c, n, at, seed ); } );
    Ctx x{ w, who };
    double all = 0;
    for( size_t q = 0; q < parts; q++ )
    {
        double mass = 0, hits = 0;
        for( size_t i = 0; i <= steps; i++ )
            mass += r.density[q * ( steps + 1 ) + i] * ( kind == 0 ? at[q * ( steps + 1 ) + i] : 1.0 ) * ( i == 0 || i == steps ? 1 : i % 2 ? 4 : 2 );
        mass *= ( kind == 0 ? std::log( cut[q + 1] / cut[q] ) : cut[q + 1] - cut[q] ) / steps / 3;
        for( double v : r.samples )
            hits += v >= cut[q] && ( v < cut[q + 1] || q + 1 == parts );
        if( !( mass > -1e-9 && mass < 1 + 1e-6 ) )
            violate( "density", who + strf( ": %g between %g and %g, %g of %zu samples are there", mass, cut[q], cut[q + 1], hits, n ) );
        test( x, strf( "samples between %g and %g, according to the density", cut[q], cut[q + 1] ), double( n ), hits, std::clamp( mass, 1e-9, 1.0 ) );
        all += mass;
    }
    if( std::fabs( all - 1 ) > 1e-5 )
        violate( "density", who + strf( ": the density integrates to %.10g", all ) );
}
// drawing from a list by itself
void draws( World & w )
{
    size_t n = size_t( w.ch.range( 2, 60 ) ), T = 1500;
    auto seed = [&] { return std::uint32_t( w.ch.below( 1ull << 32 ) ); };
    u64 s0 = seed();
    vector<double> hits( n, 0 );
    Ctx x{ w, "" };
    if( w.ch.chance( 1, 2 ) )
    {
        size_t k = size_t( w.ch.range( 1, i64( std::min<size_t>( n - 1, 12 ) ) ) );
        optional<size_t> ign;
        if( w.ch.chance( 1, 2 ) )
            ign = w.ch.below( n );
        x.who     = strf( "%zu of %zu items%s", k, n, ign ? strf( " without %zu", *ign ).c_str() : "" );
        double ends = 0;
        for( size_t t = 0; t < T; t++ )
        {
            auto v = sys( [&] { return sut::draw_unique( ign, k, n, std::uint32_t( s0 + t * 2654435761u ) ); } );
            for( auto i : v )
                hits.at( i )++;
            ends += std::find( v.begin(), v.end(), 0u ) != v.end() && std::find( v.begin(), v.end(), n - 1 ) != v.end();
        }
        double N = double( n - ( ign ? 1 : 0 ) ), K = std::min( double( k ), N );
        for( size_t i = 0; i < n; i++ )
            test( x, strf( "item %zu", i ), double( T ), hits[i], ign == i ? 0.0 : K / N );
        bool both = n > 1 && ign != size_t( 0 ) && ign != n - 1;
        test( x, "the first and the last item", double( T ), ends, both && N > 1 ? K * ( K - 1 ) / N / ( N - 1 ) : 0.0 );
    }
    else
    {
        vector<double> we( n );
        double sum = 0;
        bool same  = w.ch.chance( 1, 3 );
        for( auto & q : we )
            sum += q = same ? 0.25 : w.ch.chance( 1, 8 ) ? 0.0 : w.ch.pick( vector<double>{ 1.0, 0.5, 10.0, 1e-3, 1e3 } ) * ( 0.5 + w.ch.unit() );
        if( sum == 0 )
            sum = we[0] = 1;
        size_t k = same ? size_t( w.ch.range( 1, i64( n - 1 ) ) ) : 1;
        x.who    = strf( "%zu of %zu weighted items%s", k, n, same ? ", equal weights" : "" );
        for( size_t t = 0; t < T; t++ )
            for( auto i : sys( [&] { return sut::reservoir( k, we, std::uint32_t( s0 + t * 2654435761u ) ); } ) )
                hits.at( i )++;
        for( size_t i = 0; i < n; i++ )
            test( x, strf( "item %zu (weight %g of %g)", i, we[i], sum ), double( T ), hits[i],
                  same ? double( k ) / double( n ) : we[i] >= sum * ( 1 - 1e-9 ) ? 1.0 : std::max( we[i] / sum, we[i] > 0 ? 1e-12 : 0.0 ) );
    }
}
} // namespace
static void p23( World & w )
{
    u64 what = w.ch.below( 18 ); // the last three are short
    what /= 2;
    static const char * names[] = { "activation", "answers", "homophily", "pairs", "initial values", "binary vectors", "distributions", "draws", "disputes" };
    sample( names[what] );
    state_hash( string( names[what] ) );
    Plan p;
    add_noise( w.ch, p );
    p.max_steps = 300'000'000;
    Result r = run_lib(
        w,
        [&]
        {
            switch( what )
            {
                case 0: activation( w ); break;
                case 1: answers( w ); break;
                case 2: homophily( w ); break;
                case 3: pairs( w ); break;
                case 4: initial( w ); break;
                case 5: bits( w ); break;
                case 6: densities( w ); break;
                case 7: draws( w ); break;
                default: disputes( w );
            }
        },
        p );
    expect_ok( r, names[what] );
    u64 z = r.st.draws;
    state_hash( &z, sizeof z );
    nontrivial();
    probe( 1 + int( what ) );
}
static Register r23( { "P23", p23, 5000, 500000,
                       "repeated iterations (or initial states) of small systems with a known law, seeds drawn at random; every frequency is "
                       "compared with its expectation at an error probability of 1e-11; every run is non-trivial",
                       "sampling, distributions, models", "disk (in-memory); mt19937 is real",
                       { "comparisons", "activation", "answers", "homophily", "pairs", "initial_values", "binary_vectors", "distributions", "draws", "disputes" } } );
} // namespace sim
