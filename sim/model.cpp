#include "model.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <numeric>
#include <set>
#include <sstream>

namespace sim
{
const char * kind_name( Kind k )
{
    static const char * n[] = { "DeGroot", "Deffuant", "Activity", "Inertial", "Lattice", "Vector" };
    return n[int( k )];
}
vector<Prop> & registry()
{
    static vector<Prop> r;
    return r;
}
void nontrivial()
{
    if( shared )
        shared->nontrivial = 1;
}
void sample( const string & s )
{
    if( shared && !shared->sample[0] )
        snprintf( shared->sample, sizeof shared->sample, "%s", s.c_str() );
}

// ---------------------------------------------------------------- config
static string num( double d )
{
    string s = fmt_double( d );
    if( s.find_first_of( ".ein" ) == string::npos )
        s += ".0";
    else if( s.find( '.' ) == string::npos && s.find( 'e' ) != string::npos )
        s.insert( s.find( 'e' ), ".0" );
    return s;
}
template<typename V, typename F>
static string arr( const V & v, F f )
{
    string s = "[";
    for( size_t i = 0; i < v.size(); i++ )
        s += ( i ? ", " : "" ) + f( v[i] );
    return s + "]";
}
string Cfg::toml() const
{
    std::ostringstream o;
    const char * model = kind == Kind::DeGroot    ? "DeGroot"
                         : kind == Kind::Activity ? "ActivityDriven"
                         : kind == Kind::Inertial ? "ActivityDrivenInertial"
                                                  : "Deffuant";
    auto b = []( bool x ) { return x ? "true" : "false"; };
    o << "[simulation]\nmodel = \"" << model << "\"\n";
    if( seed )
        o << "rng_seed = " << *seed << "\n";
    o << "[io]\n";
    if( out_network )
        o << "n_output_network = " << *out_network << "\n";
    if( out_agents )
        o << "n_output_agents = " << *out_agents << "\n";
    if( progress )
        o << "print_progress = " << b( *progress ) << "\n";
    if( out_initial )
        o << "output_initial = " << b( *out_initial ) << "\n";
    if( start_output )
        o << "start_output = " << *start_output << "\n";
    if( start_num )
        o << "start_numbering_from = " << *start_num << "\n";
    o << "[model]\n";
    if( max_iter )
        o << "max_iterations = " << *max_iter << "\n";
    o << "[" << model << "]\n";
    switch( kind )
    {
        case Kind::DeGroot:
            if( tol )
                o << "convergence = " << num( *tol ) << "\n";
            break;
        case Kind::Deffuant:
        case Kind::Lattice:
        case Kind::Vector:
            o << "homophily_threshold = " << num( threshold ) << "\nmu = " << num( mu ) << "\n";
            o << "use_network = " << b( kind == Kind::Lattice || grid ) << "\n";
            if( kind == Kind::Vector )
                o << "binary_vector = true\ndim = " << dim << "\n";
            break;
        default:
            o << "dt = " << num( dt ) << "\nm = " << m << "\neps = " << num( eps ) << "\ngamma = " << num( gamma )
              << "\nreciprocity = " << num( reciprocity ) << "\nhomophily = " << num( homophily )
              << "\nalpha = " << num( alpha ) << "\nK = " << num( K ) << "\nmean_activities = " << b( mean_act )
              << "\nmean_weights = " << b( mean_w ) << "\n";
            if( use_rel )
                o << "reluctances = true\nreluctance_mean = " << num( rel_mean )
                  << "\nreluctance_sigma = " << num( rel_sigma ) << "\nreluctance_eps = " << num( rel_eps )
                  << "\ncovariance_factor = " << num( cov ) << "\n";
            if( kind == Kind::Inertial )
                o << "friction_coefficient = " << num( friction ) << "\n";
            if( n_bots )
            {
                o << "n_bots = " << n_bots << "\n";
                if( bot_arrays )
                    o << "bot_m = " << arr( bot_m, []( int x ) { return std::to_string( x ); } )
                      << "\nbot_opinion = " << arr( bot_op, num ) << "\nbot_activity = " << arr( bot_act, num )
                      << "\nbot_homophily = " << arr( bot_hom, num ) << "\n";
            }
    }
    o << "[network]\nnumber_of_agents = " << n << "\nconnections_per_agent = " << nconn << "\n";
    o << extra;
    return o.str();
}
string Cfg::brief() const
{
    string s = strf( "%s n=%zu", kind_name( kind ), n );
    if( max_iter )
        s += strf( " iterations=%d", *max_iter );
    if( activity_like() )
        s += strf( " m=%d homophily=%g reciprocity=%g bots=%zu%s%s", m, homophily, reciprocity, n_bots,
                   mean_w ? " mean_weights" : "", use_rel ? " reluctances" : "" );
    if( kind == Kind::Deffuant || kind == Kind::Lattice || kind == Kind::Vector )
        s += strf( " threshold=%g mu=%g dim=%zu%s", threshold, mu, dim, grid ? " lattice" : "" );
    if( kind == Kind::DeGroot && tol )
        s += strf( " tol=%g", *tol );
    return s;
}

Cfg gen_cfg( Choices & ch, const GenOpt & o )
{
    Cfg c;
    c.kind = ch.pick( o.kinds );
    // sizes: mostly small, now and then large
    u64 sz = ch.below( 20 );
    if( o.big && sz == 19 )
        c.n = size_t( ch.chance( 1, 10 ) ? ch.range( 301, 1100 ) : ch.range( 100, 300 ) );
    else if( o.big && sz >= 17 )
        c.n = size_t( ch.range( 13, 60 ) );
    else
        c.n = size_t( ch.range( 2, i64( o.max_n ) ) );
    u64 it = ch.below( 20 );
    if( o.big && it == 19 )
        c.max_iter = int( c.n <= 8 && ch.chance( 1, 10 ) ? ch.range( 250, 700 ) : ch.range( 20, c.n > 60 ? 40 : 120 ) );
    else
        c.max_iter = int( ch.range( 1, o.max_iter ) );
    if( c.n > 300 )
        c.max_iter = std::min( c.max_iter.value(), 3 );
    c.nconn = size_t( ch.range( 0, i64( std::min<size_t>( c.n - 1, 10 ) ) ) );
    c.seed  = int( ch.below( 1u << 31 ) );
    if( ch.chance( 1, 6 ) )
        c.seed = ch.pick( vector<int>{ 0, 1, -1, 120, 2147483647, -2147483647, std::numeric_limits<int>::min() } );
    switch( c.kind )
    {
        case Kind::DeGroot: c.tol = ch.pick( vector<double>{ 0.0, 0.0, 1e-12, 1e-6, 1e-2 } ); break;
        case Kind::Vector:
            c.dim       = size_t( ch.chance( 1, 4 ) ? ch.range( 7, 70 ) : ch.range( 1, 6 ) );
            if( c.n <= 60 && ch.chance( 1, 25 ) )
                c.dim = size_t( ch.range( 100, 300 ) );
            c.threshold = double( ch.range( 1, i64( c.dim ) + 1 ) ) - ( ch.chance( 1, 3 ) ? 0.5 : 0.0 );
            c.mu        = ch.pick( vector<double>{ 0.5, 0.0, 1.0, 0.2, 0.8 } );
            if( ch.chance( 1, 4 ) )
            {
                size_t e = c.n > 300 ? 18 + ch.below( 16 ) : c.n > 60 ? 10 + ch.below( 6 ) : c.n > 12 ? 4 + ch.below( 4 ) : 2 + ch.below( 2 );
                c.n      = e * e;
                c.nconn  = std::min<size_t>( c.nconn, 3 );
                c.grid   = true;
            }
            break;
        case Kind::Lattice:
        {
            size_t e = 2 + ch.below( 3 );
            if( c.n > 12 )
                e = c.n > 300 ? 18 + ch.below( 16 ) : c.n > 60 ? 9 + ch.below( 9 ) : 5 + ch.below( 4 );
            c.n     = e * e;
            c.nconn = std::min<size_t>( c.nconn, 3 );
        }
            [[fallthrough]];
        case Kind::Deffuant:
            c.threshold = ch.pick( vector<double>{ 0.2, 0.3, 0.5, 1.0, 2.0, 0.05, 0.25 } );
            c.mu        = ch.pick( vector<double>{ 0.5, 0.25, 0.1, 0.0, 1.0, 0.37, 0.75 } );
            if( ch.chance( 1, 5 ) ) // anything goes
            {
                c.threshold = ch.chance( 1, 4 ) ? ch.pick( vector<double>{ 1e-3, 10.0, 1000.0 } ) : 0.001 + 1.5 * ch.unit();
                c.mu        = ch.unit();
            }
            break;
        default:
            c.dt          = ch.pick( vector<double>{ 0.1, 0.01, 0.5, 0.25 } );
            c.eps         = ch.pick( vector<double>{ 0.5, 0.01, 0.1, 0.9 } );
            c.gamma       = ch.pick( vector<double>{ 2.1, 2.5, 3.0 } );
            c.alpha       = ch.pick( vector<double>{ 2.0, 0.0, 0.5, 3.0, 10.0 } );
            c.homophily   = ch.pick( vector<double>{ 0.5, 0.0, 1.0, 2.0, 0.75, 3.0 } );
            c.reciprocity = ch.pick( vector<double>{ 0.5, 0.0, 1.0, 0.9, 0.1 } );
            c.K           = ch.pick( vector<double>{ 1.5, 0.0, 3.0, 0.3, 5.0 } );
            c.m           = int( ch.range( 0, 4 ) );
            if( ch.chance( 1, 10 ) )
                c.m = 10;
            c.use_rel = ch.chance( 1, 3 );
            if( c.use_rel )
            {
                c.rel_mean  = ch.pick( vector<double>{ 1.0, 0.5, 2.0 } );
                c.rel_sigma = ch.pick( vector<double>{ 0.25, 0.1, 1.0 } );
                c.rel_eps   = ch.pick( vector<double>{ 0.01, 0.1, 0.5 } );
                c.cov       = ch.pick( vector<double>{ 0.0, 0.5, -0.5, 0.9, 1.0, -1.0 } );
            }
            c.friction = ch.pick( vector<double>{ 1.0, 0.0, 0.5, 2.0 } );
            if( ch.chance( 1, 4 ) ) // unusual values, one or two at a time
                for( u64 k = 1 + ch.below( 2 ); k--; )
                    switch( ch.below( 9 ) )
                    {
                        case 0: c.dt = ch.pick( vector<double>{ 1.0, 1e-3, 1e-6, 1.5 } ); break;
                        case 1: c.eps = ch.pick( vector<double>{ 0.99, 0.001, 1e-4 } ); break;
                        case 2: c.gamma = ch.pick( vector<double>{ 2.001, 4.0, 8.0 } ); break;
                        case 3: c.alpha = ch.pick( vector<double>{ 50.0, 0.01, 1000.0 } ); break;
                        case 4: c.homophily = ch.pick( vector<double>{ 5.0, 0.1, 8.0, -0.5, -2.0 } ); break;
                        case 5: c.reciprocity = ch.unit(); break;
                        case 6: c.K = ch.pick( vector<double>{ 20.0, 0.01, 100.0, -1.5, -0.3 } ); break;
                        case 7:
                            c.m = int( c.n ) - 2 + int( ch.below( 4 ) );
                            if( c.n > 60 ) // every iteration takes time quadratic in n
                                c.max_iter = std::min( c.max_iter.value_or( 5 ), 5 );
                            break;
                        default: c.friction = ch.pick( vector<double>{ 5.0, 0.01, 20.0, 100.0 } );
                    }
            if( o.mean )
            {
                c.mean_act = ch.chance( 1, 8 );
                c.mean_w   = ch.chance( 1, 6 );
                if( c.mean_w && c.n > 60 )
                    c.n = 60;
            }
            if( o.bots && ch.chance( 1, 3 ) )
            {
                c.n_bots = size_t( ch.range( 1, i64( std::min<size_t>( c.n, ch.chance( 1, 8 ) ? 40 : 3 ) ) ) );
                size_t listed = c.n_bots + ( ch.chance( 1, 6 ) ? 1 + ch.below( 2 ) : 0 ); // surplus entries are fine
                for( size_t i = 0; i < listed; i++ )
                {
                    c.bot_m.push_back( int( ch.chance( 1, 12 ) ? ch.range( 6, 14 ) : ch.range( 0, 5 ) ) );
                    c.bot_op.push_back( ch.pick( vector<double>{ 1.0, -1.0, 0.0, 0.3, 20.0, -7.25, 1e-3, 1000.0 } ) );
                    c.bot_act.push_back( ch.pick( vector<double>{ 1.0, 0.0, 0.5, 0.05 } ) );
                    c.bot_hom.push_back( ch.pick( vector<double>{ 0.0, 0.5, 1.0, 2.0, 0.25, -1.0, 6.0 } ) );
                }
            }
    }
    if( ch.chance( 1, 40 ) ) // nobody to talk to
    {
        c.n      = 1;
        c.n_bots = std::min<size_t>( c.n_bots, 1 );
    }
    if( c.n > 300 ) // the work stays well within the step budget
        c.m = std::min( c.m, 64 );
    if( c.nconn >= c.n )
        c.nconn = c.n - 1;
    if( o.outputs )
        gen_outputs( ch, c );
    return c;
}
void gen_outputs( Choices & ch, Cfg & c )
{
    auto every = [&]() -> optional<size_t>
    {
        u64 x = ch.below( 8 );
        if( x < 3 )
            return 1;
        if( x == 7 )
            return std::nullopt;
        if( ch.chance( 1, 40 ) ) // never, unless it is cut to fewer bits
            return ch.pick( vector<size_t>{ 65537, 2147483648, 4294967297, 9223372036854775807 } );
        return size_t( ch.range( 2, 7 ) );
    };
    c.out_agents  = every();
    c.out_network = every();
    u64 x         = ch.below( 6 );
    if( x >= 4 )
        c.out_initial = x == 4;
    else if( x == 3 )
        c.out_initial = false;
    if( ch.chance( 1, 2 ) )
        c.progress = ch.chance( 1, 2 );
    if( ch.chance( 1, 2 ) )
        c.start_output = size_t( ch.range( 1, ( c.max_iter ? *c.max_iter : 5 ) + 2 ) );
    if( ch.chance( 1, 40 ) )
        c.start_output = ch.pick( vector<size_t>{ 65536, 2147483649, 4294967297, 9223372036854775807 } );
    if( ch.chance( 1, 40 ) )
        c.start_num = ch.pick( vector<size_t>{ 65534, 2147483646, 4294967294, 99999999999998, 9223372036854775000 } );
    else if( ch.chance( 1, 2 ) )
        c.start_num = ch.chance( 1, 4 ) ? size_t( ch.range( 90, 1000001 ) ) : size_t( ch.range( 0, 12 ) );
}

// ---------------------------------------------------------------- files
bool same_bits( double a, double b )
{
    return memcmp( &a, &b, sizeof a ) == 0;
}
bool same_agents( const vector<AgentRec> & a, const vector<AgentRec> & b )
{
    if( a.size() != b.size() )
        return false;
    for( size_t i = 0; i < a.size(); i++ )
        if( !same_bits( a[i].opinion, b[i].opinion ) || !same_bits( a[i].activity, b[i].activity )
            || !same_bits( a[i].reluctance, b[i].reluctance ) || !same_bits( a[i].velocity, b[i].velocity )
            || a[i].vec != b[i].vec )
            return false;
    return true;
}
bool same_rows( const Rows & a, const Rows & b )
{
    if( a.nb != b.nb || a.w.size() != b.w.size() )
        return false;
    for( size_t i = 0; i < a.w.size(); i++ )
    {
        if( a.w[i].size() != b.w[i].size() )
            return false;
        for( size_t j = 0; j < a.w[i].size(); j++ )
            if( !same_bits( a.w[i][j], b.w[i][j] ) )
                return false;
    }
    return true;
}
static string trim( const string & s )
{
    size_t a = s.find_first_not_of( " \t\r" ), b = s.find_last_not_of( " \t\r" );
    return a == string::npos ? "" : s.substr( a, b - a + 1 );
}
static vector<string> split( const string & s, char c )
{
    vector<string> r;
    size_t i = 0;
    for( ;; )
    {
        size_t j = s.find( c, i );
        r.push_back( trim( s.substr( i, j == string::npos ? j : j - i ) ) );
        if( j == string::npos )
            return r;
        i = j + 1;
    }
}
static bool to_d( const string & s, double & d )
{
    if( s.empty() )
        return false;
    char * e;
    d = strtod( s.c_str(), &e );
    return *e == 0;
}
static bool to_i( const string & s, long long & v )
{
    if( s.empty() )
        return false;
    char * e;
    errno = 0;
    v     = strtoll( s.c_str(), &e, 10 );
    return *e == 0 && errno == 0;
}
optional<vector<AgentRec>> parse_agents( Kind k, const string & text, string & err )
{
    vector<AgentRec> r;
    auto lines = split( text, '\n' );
    if( text.empty() || lines.empty() || lines[0].empty() || lines[0][0] != '#' )
    {
        err = "no header line";
        return {};
    }
    if( text.back() != '\n' )
    {
        err = "last line is not complete";
        return {};
    }
    lines.pop_back();
    for( size_t i = 1; i < lines.size(); i++ )
    {
        auto f = split( lines[i], ',' );
        long long idx;
        if( !to_i( f[0], idx ) || idx != (long long)r.size() )
        {
            err = "row " + std::to_string( r.size() ) + " has index '" + f[0] + "'";
            return {};
        }
        AgentRec a;
        bool ok = true;
        auto d  = [&]( size_t j, double & x ) { ok = ok && f.size() > j && to_d( f[j], x ); };
        size_t want = 2;
        if( k == Kind::Vector )
        {
            if( !( f.size() == 2 && f[1].empty() ) )
                for( size_t j = 1; j < f.size(); j++ )
                {
                    long long v = 0;
                    ok          = ok && to_i( f[j], v );
                    a.vec.push_back( int( v ) );
                }
            want = f.size();
        }
        else if( k == Kind::Activity )
        {
            d( 1, a.opinion ), d( 2, a.activity ), d( 3, a.reluctance );
            want = 4;
        }
        else if( k == Kind::Inertial )
        {
            d( 1, a.opinion ), d( 2, a.velocity ), d( 3, a.activity ), d( 4, a.reluctance );
            want = 5;
        }
        else
            d( 1, a.opinion );
        if( !ok || f.size() != want )
        {
            err = "row " + std::to_string( r.size() ) + " is malformed: '" + lines[i] + "'";
            return {};
        }
        r.push_back( a );
    }
    return r;
}
optional<Rows> parse_network( const string & text, string & err )
{
    Rows r;
    if( text.empty() || text[0] != '#' )
    {
        err = "no header line";
        return {};
    }
    auto lines = split( text, '\n' );
    if( lines.back().empty() )
        lines.pop_back();
    for( size_t i = 1; i < lines.size(); i++ )
    {
        auto f = split( lines[i], ',' );
        long long idx, cnt;
        if( f.size() < 2 || !to_i( f[0], idx ) || idx != (long long)r.nb.size() || !to_i( f[1], cnt ) || cnt < 0
            || f.size() != size_t( 2 + 2 * cnt ) )
        {
            err = "row " + std::to_string( r.nb.size() ) + " is malformed: '" + lines[i] + "'";
            return {};
        }
        vector<size_t> nb;
        vector<double> w;
        for( long long j = 0; j < cnt; j++ )
        {
            long long v;
            double d;
            if( !to_i( f[size_t( 2 + j )], v ) || v < 0 || !to_d( f[size_t( 2 + cnt + j )], d ) )
            {
                err = "row " + std::to_string( r.nb.size() ) + " is malformed: '" + lines[i] + "'";
                return {};
            }
            nb.push_back( size_t( v ) );
            w.push_back( d );
        }
        r.nb.push_back( nb );
        r.w.push_back( w );
    }
    for( auto & row : r.nb )
        for( auto j : row )
            if( j >= r.nb.size() )
            {
                err = strf( "neighbour index %zu of %zu agents", j, r.nb.size() );
                return {};
            }
    return r;
}
string text_agents( Kind k, const vector<AgentRec> & a, int style )
{
    string s = style == 1 ? "" : "# idx_agent, data\n";
    for( size_t i = 0; i < a.size(); i++ )
    {
        string sep = style == 1 ? "," : ", ";
        s += strf( style == 1 ? "%zu" : "%5zu", i );
        auto d = [&]( double x ) { s += sep + ( style == 2 ? strf( "%.17g", x ) : fmt_double( x ) ); };
        if( k == Kind::Vector )
        {
            for( int v : a[i].vec )
                s += sep + std::to_string( v );
            if( a[i].vec.empty() )
                s += sep;
        }
        else
        {
            d( a[i].opinion );
            if( k == Kind::Inertial )
                d( a[i].velocity );
            if( k == Kind::Activity || k == Kind::Inertial )
                d( a[i].activity ), d( a[i].reluctance );
        }
        if( i + 1 < a.size() || style != 1 )
            s += "\n";
    }
    return s;
}
string text_network( const Rows & r, int style )
{
    string s   = style == 1 ? "" : "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n";
    string sep = style == 1 ? "," : ", ";
    for( size_t i = 0; i < r.n(); i++ )
    {
        s += std::to_string( i ) + sep + std::to_string( r.nb[i].size() );
        for( auto j : r.nb[i] )
            s += sep + std::to_string( j );
        for( auto w : r.w[i] )
            s += sep + ( style == 2 ? strf( "%.17g", w ) : fmt_double( w ) );
        if( i + 1 < r.n() || style != 1 )
            s += "\n";
    }
    return s;
}

double gen_double( Choices & ch )
{
    switch( ch.below( 8 ) )
    {
        case 0: return double( ch.below( 5 ) ) * 0.25;
        case 1: return ch.unit() * 2 - 1;
        case 2: return ( ch.unit() * 2 - 1 ) / 3.0;
        case 3:
            return ch.pick( vector<double>{ 0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3, 1e-5, 123456789.125, 1e15 + 0.5, 1e16, 1e22, 1e-7,
                                            0.30000000000000004, 4.35, 9007199254740993.0 } );
        case 4:
            return ch.pick( vector<double>{ 1.7976931348623157e308, 2.2250738585072014e-308, -1.7976931348623157e308,
                                            1e-300, -1e300, 5e-324, 2.2250738585072009e-308, -3e-310 } );
        case 5: return std::ldexp( ch.unit() - 0.5, int( ch.range( -60, 60 ) ) );
        case 6: return std::ldexp( ch.unit() - 0.5, int( ch.range( -1000, 1000 ) ) );
        default:
        {
            u64 hi = ch.below( 1ull << 32 ), lo = ch.below( 1ull << 32 );
            u64 x = hi << 32 | lo;
            double d;
            memcpy( &d, &x, 8 );
            return std::isfinite( d ) ? d : 0.5;
        }
    }
}
double gen_opinion( Choices & ch )
{
    switch( ch.below( 4 ) )
    {
        case 0: return double( ch.range( -8, 8 ) ) * 0.125;
        case 1: return ch.unit() * 2 - 1;
        case 2: return ch.pick( vector<double>{ 0.0, 1.0, -1.0, 0.5, 3.0, -2.5 } );
        default: return ( ch.unit() * 2 - 1 ) * 0.1;
    }
}
vector<AgentRec> gen_agents( Choices & ch, const Cfg & c )
{
    vector<AgentRec> r( c.n );
    u64 act_mode = ch.below( 4 );
    for( size_t i = 0; i < c.n; i++ )
    {
        if( c.kind == Kind::Vector )
        {
            for( size_t d = 0; d < c.dim; d++ )
                r[i].vec.push_back( int( ch.below( 2 ) ) );
            continue;
        }
        r[i].opinion = gen_opinion( ch );
        if( c.activity_like() )
        {
            r[i].activity = act_mode == 0 ? 1.0 : act_mode == 1 ? double( ch.below( 2 ) ) : ch.unit();
            if( c.use_rel )
                r[i].reluctance = 0.25 + ch.unit() * 2;
            if( c.kind == Kind::Inertial )
                r[i].velocity = gen_opinion( ch );
            if( i < c.n_bots )
                r[i].opinion = c.bot_op[i], r[i].activity = c.bot_act[i];
        }
    }
    return r;
}
Rows gen_rows( Choices & ch, size_t n, bool stochastic, size_t max_deg, bool repeats )
{
    Rows r;
    for( size_t i = 0; i < n; i++ )
    {
        size_t deg = size_t( ch.below( std::min( n, max_deg ) + 1 ) );
        if( stochastic && deg == 0 )
            deg = 1;
        std::set<size_t> s;
        vector<size_t> nb;
        for( size_t t = 0; t < deg; t++ )
        {
            size_t j = size_t( ch.below( n ) );
            if( s.insert( j ).second || repeats )
                nb.push_back( j );
            if( repeats && ch.chance( 1, 3 ) )
                nb.push_back( j );
        }
        vector<double> w;
        double sum = 0;
        for( size_t t = 0; t < nb.size(); t++ )
        {
            w.push_back( 0.01 + ch.unit() );
            sum += w.back();
        }
        if( stochastic )
            for( auto & x : w )
                x /= sum;
        r.nb.push_back( nb );
        r.w.push_back( w );
    }
    return r;
}

void add_noise( Choices & ch, Plan & p )
{
    u64 level = ch.below( 4 );
    if( level > 0 )
    {
        p.noise_seed = 1 + ch.below( 1u << 30 );
        p.p_short    = int( ch.below( 160 ) );
        p.p_eintr    = int( ch.below( 60 ) );
    }
    if( ch.chance( 1, 2 ) )
        p.clock_noise = 1 + ch.below( 1u << 30 );
    if( ch.chance( 1, 2 ) )
    {
        p.clock_base = i64( ch.below( 4'000'000'000ull ) ) * 1'000'000'000ll;
        p.clock_step = i64( ch.below( 2'000'000'000ull ) );
    }
    p.fill_new = ch.pick( vector<int>{ 0, 0xff, 0xa5, 0x01, 0x7f } );
    if( ch.chance( 1, 2 ) )
        p.fill_free = ch.pick( vector<int>{ 0xdd, 0x00, 0xff } );
    if( ch.chance( 1, 4 ) )
        p.fill_stack = ch.pick( vector<int>{ 0xff, 0xa5, 0x3f } );
    p.device_value = std::uint32_t( ch.below( 1ull << 32 ) );
    if( ch.chance( 1, 2 ) )
        p.heap_seed = 1 + ch.below( 1u << 30 );
}
void add_overrides( Choices & ch, Plan & p, u64 span )
{
    u64 k = ch.below( 5 );
    if( k == 0 )
        return;
    static const vector<std::uint32_t> vals{ 0xffffffffu, 0x80000000u, 0x7fffffffu, 1u, 0xfffffffeu };
    std::map<u64, std::uint32_t> m;
    for( u64 i = 0; i < k * 3; i++ )
    {
        u64 d = ch.below( span );
        auto v = ch.pick( vals );
        m[d] = v;
        if( ch.chance( 1, 2 ) )
            m[d + 1] = v; // a double takes two draws
    }
    for( auto & [d, v] : m )
        p.overrides.push_back( { d, v } );
}

// ---------------------------------------------------------------- running
vector<string> Invocation::argv() const
{
    vector<string> a{ config, "-o", out_dir };
    if( agents )
        a.push_back( "-a" ), a.push_back( *agents );
    if( network )
        a.push_back( "-n" ), a.push_back( *network );
    return a;
}
Result run_cli( World & w, const Invocation & v, const Plan & p )
{
    auto a = v.argv();
    if( w.verbose )
    {
        string s = "run: seldon";
        for( auto & x : a )
            s += " " + x;
        w.log.push_back( s );
    }
    return run_proc(
        w,
        [&]() -> int
        {
            Scope s;
            return sut::cli( a );
        },
        p );
}
Result run_cfg( World & w, const Cfg & c, const string & out_dir, const Plan & p, optional<string> agents, optional<string> network )
{
    Invocation v;
    v.out_dir = out_dir;
    v.config  = "/w/conf.toml";
    v.agents  = agents;
    v.network = network;
    w.put( v.config, c.toml() );
    if( w.verbose )
        w.log.push_back( "config:\n" + c.toml() );
    return run_cli( w, v, p );
}
bool abnormal( const Result & r )
{
    return r.end == End::Signal || r.end == End::Assert || r.end == End::Stuck;
}
void expect_ok( const Result & r, const string & what )
{
    if( !r.ok() )
        violate( "run failed", what + ": " + r.describe() );
}
vector<vector<string>> expected_files( const Cfg & c, size_t iterations )
{
    size_t base = c.start_num.value_or( 0 ), from = c.start_output.value_or( 1 );
    vector<vector<string>> r( iterations + 1 );
    if( c.out_initial.value_or( true ) )
        r[0] = { strf( "opinions_%zu.txt", base ), strf( "network_%zu.txt", base ) };
    for( size_t k = 1; k <= iterations; k++ )
    {
        if( c.out_agents && k >= from && k % *c.out_agents == 0 )
            r[k].push_back( strf( "opinions_%zu.txt", base + k ) );
        if( c.out_network && k >= from && k % *c.out_network == 0 )
            r[k].push_back( strf( "network_%zu.txt", base + k ) );
    }
    return r;
}
size_t iterations_reported( const string & out )
{
    auto p = out.rfind( "Finished after " );
    return p == string::npos ? ~size_t( 0 ) : size_t( strtoull( out.c_str() + p + 15, nullptr, 10 ) );
}
Snap read_snap( World & w, const Cfg & c, const string & dir, size_t k )
{
    Snap s;
    s.k = k;
    string err, fa = dir + strf( "/opinions_%zu.txt", k ), fn = dir + strf( "/network_%zu.txt", k );
    auto a = parse_agents( c.kind, w.get( fa ), err );
    if( !a )
        violate( "unreadable snapshot", fa + ": " + err );
    auto n = parse_network( w.get( fn ), err );
    if( !n )
        violate( "unreadable snapshot", fn + ": " + err );
    s.a   = *a;
    s.net = *n;
    if( s.a.size() != c.n || s.net.n() != c.n )
        violate( "snapshot size", strf( "%zu agents, %zu network rows, configured %zu", s.a.size(), s.net.n(), c.n ) );
    return s;
}

History run_history( World & w, Cfg c, const HistOpt & o )
{
    History h;
    c.out_agents  = 1;
    c.out_network = 1;
    c.out_initial = true;
    c.start_output.reset();
    c.start_num.reset();
    h.cfg        = c;
    size_t total = size_t( c.max_iter.value() ), done = 0;
    optional<string> fa, fn;
    if( o.agents )
    {
        w.put( "/w/in/agents.txt", text_agents( c.kind, *o.agents ) );
        fa = "/w/in/agents.txt";
    }
    if( o.network )
    {
        w.put( "/w/in/network.txt", text_network( *o.network ) );
        fn = "/w/in/network.txt";
    }
    for( size_t s = 0;; s++ )
    {
        Cfg cs      = c;
        cs.max_iter = int( total - done );
        if( done )
            cs.start_num = done;
        Plan p;
        if( o.noise )
            add_noise( w.ch, p );
        if( o.overrides )
            add_overrides( w.ch, p, 40 + 10 * c.n * total );
        // killed at some operation?  an iteration costs about 12 of them
        if( o.crashes && s < 3 && w.ch.chance( 1, 3 ) )
        {
            p.crash_op   = i64( w.ch.below( 30 + 14 * ( total - done ) ) );
            p.crash_frac = w.ch.below( 256 );
        }
        string dir = strf( "/w/s%zu", s );
        size_t ev0 = w.file_events.size();
        Result r   = run_cfg( w, cs, dir, p, fa, fn );
        Session se;
        se.first          = done;
        se.out            = r.out;
        se.killed         = r.end == End::Killed;
        se.loaded_agents  = fa.has_value();
        se.loaded_network = fn.has_value();
        if( !se.killed )
            expect_ok( r, c.brief() );
        std::set<string> closed;
        for( size_t i = ev0; i < w.file_events.size(); i++ )
            if( w.file_events[i].kind == 1 )
                closed.insert( w.file_events[i].path );
        for( size_t k = done;; k++ )
        {
            if( !closed.count( dir + strf( "/opinions_%zu.txt", k ) )
                || !closed.count( dir + strf( "/network_%zu.txt", k ) ) )
                break;
            se.snaps.push_back( read_snap( w, c, dir, k ) );
        }
        if( shared )
            shared->iterations += se.snaps.size();
        if( !se.snaps.empty() )
        {
            if( se.killed && !se.snaps.empty() )
            {
                size_t k = se.snaps.back().k;
                done     = k;
                fa       = dir + strf( "/opinions_%zu.txt", k );
                fn       = dir + strf( "/network_%zu.txt", k );
            }
        }
        bool killed = se.killed;
        h.sessions.push_back( std::move( se ) );
        if( !killed )
            break;
        h.restarts++;
        count( Counters::Restart );
    }
    return h;
}

// ---------------------------------------------------------------- references
bool close( double a, double b, double scale, double rel )
{
    if( !( std::isfinite( a ) && std::isfinite( b ) ) )
        return same_bits( a, b ) || ( std::isnan( a ) && std::isnan( b ) ) || a == b;
    return std::fabs( a - b ) <= rel * ( std::fabs( scale ) + std::fabs( a ) + std::fabs( b ) ) + 1e-300;
}
double hom_weight( double xi, double xj, double homophily )
{
    double d = std::fabs( xi - xj );
    if( d < 1e-10 )
        d = 1e-10;
    return std::pow( d, -homophily );
}
vector<double> slopes( const Cfg & c, const vector<AgentRec> & a, const Rows & net, const vector<double> & x )
{
    vector<double> f( a.size() );
    for( size_t i = 0; i < a.size(); i++ )
    {
        double s = 0;
        for( size_t t = 0; t < net.nb[i].size(); t++ )
            s += net.w[i][t] * std::tanh( c.alpha * x[net.nb[i][t]] );
        f[i] = -x[i] + c.K / a[i].reluctance * s;
    }
    return f;
}
vector<double> ref_rk4( const Cfg & c, const vector<AgentRec> & a, const Rows & net, vector<double> * scale )
{
    size_t n = a.size();
    vector<double> x( n ), y( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = a[i].opinion;
    auto k1 = slopes( c, a, net, x );
    for( size_t i = 0; i < n; i++ )
        y[i] = x[i] + c.dt / 2 * k1[i];
    auto k2 = slopes( c, a, net, y );
    for( size_t i = 0; i < n; i++ )
        y[i] = x[i] + c.dt / 2 * k2[i];
    auto k3 = slopes( c, a, net, y );
    for( size_t i = 0; i < n; i++ )
        y[i] = x[i] + c.dt * k3[i];
    auto k4 = slopes( c, a, net, y );
    if( scale )
        scale->assign( n, 0 );
    for( size_t i = 0; i < n; i++ )
    {
        y[i] = x[i] + c.dt * ( k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i] ) / 6;
        if( scale )
        {
            double sw = 0;
            for( double q : net.w[i] )
                sw += std::fabs( q );
            ( *scale )[i] = std::fabs( x[i] ) + c.dt * std::fabs( c.K / a[i].reluctance ) * sw;
        }
    }
    return y;
}
void ref_inertial( const Cfg & c, vector<AgentRec> & a, const Rows & net, vector<double> * scale )
{
    size_t n = a.size();
    vector<double> x( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = a[i].opinion;
    auto d0 = slopes( c, a, net, x );
    if( scale )
        scale->assign( n, 0 );
    for( size_t i = 0; i < n; i++ )
        x[i] += a[i].velocity * c.dt + 0.5 * ( d0[i] - c.friction * a[i].velocity ) * c.dt * c.dt;
    auto d1 = slopes( c, a, net, x );
    for( size_t i = 0; i < n; i++ )
    {
        double v = a[i].velocity;
        if( scale )
        {
            double sw = 0;
            for( double q : net.w[i] )
                sw += std::fabs( q );
            ( *scale )[i] = std::fabs( a[i].opinion ) + std::fabs( v ) + std::fabs( c.K / a[i].reluctance ) * sw;
        }
        a[i].opinion  = x[i];
        a[i].velocity = ( v + 0.5 * c.dt * ( d0[i] - c.friction * v + d1[i] ) ) / ( 1 + 0.5 * c.friction * c.dt );
    }
    for( size_t i = 0; i < c.n_bots; i++ )
        a[i].opinion = c.bot_op[i];
}
vector<double> ref_degroot( const vector<double> & x, const Rows & net, vector<double> * scale )
{
    vector<double> y( x.size(), 0 );
    if( scale )
        scale->assign( x.size(), 0 );
    for( size_t i = 0; i < x.size(); i++ )
        for( size_t t = 0; t < net.nb[i].size(); t++ )
        {
            y[i] += net.w[i][t] * x[net.nb[i][t]];
            if( scale )
                ( *scale )[i] += std::fabs( net.w[i][t] * x[net.nb[i][t]] );
        }
    return y;
}
vector<vector<double>> ref_mean_weights( const Cfg & c, const vector<AgentRec> & a, int rule )
{
    size_t n = a.size();
    vector<vector<double>> p( n, vector<double>( n, 0 ) ), w = p;
    for( size_t i = 0; i < n; i++ )
    {
        double z   = 0;
        double act = rule ? std::max( 1.0, a[i].activity ) : a[i].activity;
        for( size_t j = 0; j < n; j++ )
            if( j != i )
                z += hom_weight( a[i].opinion, a[j].opinion, c.hom( i ) );
        int m = i < c.n_bots ? c.bot_m[i] : c.m;
        for( size_t j = 0; j < n; j++ )
        {
            double om = j == i ? 0 : hom_weight( a[i].opinion, a[j].opinion, c.hom( i ) ) / z;
            double s  = 0;
            for( int r = 1; r <= m; r++ )
                s += ( std::pow( -om, r + 1 ) + om ) / ( om + 1 );
            p[i][j] = act * s;
        }
    }
    // incoming weight of a from b: b contacts a, or a contacts b and b answers
    for( size_t x = 0; x < n; x++ )
        for( size_t y = 0; y < n; y++ )
            w[x][y] = p[y][x] + ( 1 - p[y][x] ) * c.reciprocity * p[x][y];
    return w;
}
vector<vector<size_t>> ref_scc( const vector<vector<size_t>> & nb )
{
    // Kosaraju with explicit stacks
    size_t n = nb.size();
    vector<vector<size_t>> rev( n );
    for( size_t i = 0; i < n; i++ )
        for( auto j : nb[i] )
            rev[j].push_back( i );
    vector<size_t> order;
    vector<char> seen( n, 0 );
    for( size_t s = 0; s < n; s++ )
    {
        if( seen[s] )
            continue;
        vector<std::pair<size_t, size_t>> st{ { s, 0 } };
        seen[s] = 1;
        while( !st.empty() )
        {
            auto & [v, i] = st.back();
            if( i < nb[v].size() )
            {
                size_t u = nb[v][i++];
                if( !seen[u] )
                {
                    seen[u] = 1;
                    st.push_back( { u, 0 } );
                }
            }
            else
            {
                order.push_back( v );
                st.pop_back();
            }
        }
    }
    vector<char> done( n, 0 );
    vector<vector<size_t>> r;
    for( size_t q = n; q-- > 0; )
    {
        size_t s = order[q];
        if( done[s] )
            continue;
        vector<size_t> comp, st{ s };
        done[s] = 1;
        while( !st.empty() )
        {
            size_t v = st.back();
            st.pop_back();
            comp.push_back( v );
            for( auto u : rev[v] )
                if( !done[u] )
                    done[u] = 1, st.push_back( u );
        }
        std::sort( comp.begin(), comp.end() );
        r.push_back( comp );
    }
    std::sort( r.begin(), r.end() );
    return r;
}
vector<size_t> lattice_neighbours( size_t e, size_t i )
{
    size_t x = i % e, y = i / e;
    return { ( x + e - 1 ) % e + y * e, ( x + 1 ) % e + y * e, x + ( ( y + e - 1 ) % e ) * e, x + ( ( y + 1 ) % e ) * e };
}
} // namespace sim
