// P26: configuration files; P27: the command line and what a run reports.
#include "props.hpp"
#include <cstring>
#include <regex>

namespace sim
{
namespace
{
using Vals = vector<double>;
struct Key
{
    const char * section; // "" = the section of the model
    const char * key;
    const char * option;
    const char * printed; // label in the printed settings; nullptr = not printed
    char type;            // d double, i integer, b boolean, D / I list
    Vals def;             // documented default; empty = unset
    Vals pool;            // valid values
};
const vector<Key> & common()
{
    static const vector<Key> k{
        { "simulation", "rng_seed", "rng_seed", "Random seed:", 'i', {}, { 1, 0, 42, 2147483647, 1048576, -1, -2147483648.0 } },
        { "io", "n_output_agents", "n_output_agents", "n_output_agents", 'i', {}, { 1, 2, 20, 1000, 4294967297.0 } },
        { "io", "n_output_network", "n_output_network", "n_output_network", 'i', {}, { 1, 3, 17, 4096, 5000000000.0 } },
        { "io", "print_progress", "print_progress", "print_progress", 'b', { 0 }, { 0, 1 } },
        { "io", "output_initial", "output_initial", "output_initial", 'b', { 1 }, { 0, 1 } },
        { "io", "start_output", "start_output", "start_output", 'i', { 1 }, { 1, 2, 50, 2147483648.0, 70000000001.0 } },
        { "io", "start_numbering_from", "start_numbering_from", "start_numbering_from", 'i', { 0 }, { 0, 1, 500, 4294967296.0, 1e15 } },
        { "model", "max_iterations", "max_iterations", "max_iterations", 'i', {}, { 0, 1, 500, 100000, 2147483647 } },
        { "network", "number_of_agents", "n_agents", "n_agents", 'i', { 200 }, { 1, 2, 10, 1000, 123456, 6000000001.0 } },
        { "network", "connections_per_agent", "n_connections", "n_connections", 'i', { 10 }, { 0, 1, 7, 99, 4294967295.0 } },
    };
    return k;
}
const vector<Key> & model_keys( int m )
{
    static const vector<Key> degroot{ { "", "convergence", "convergence_tol", "convergence_tol", 'd', { 1e-6 }, { 0, 1e-3, 0.5, 1e-12, 2 } } };
    static const vector<Key> deffuant{
        { "", "homophily_threshold", "homophily_threshold", "homophily_threshold", 'd', { 0.2 }, { 0.1, 0.5, 1, 2, 3.5 } },
        { "", "mu", "mu", "mu", 'd', { 0.5 }, { 0, 0.25, 1, 0.01 } },
        { "", "use_network", "use_network", "use_network", 'b', { 0 }, { 0, 1 } },
        { "", "binary_vector", "use_binary_vector", "use_binary_vector", 'b', { 0 }, { 0, 1 } },
        { "", "dim", "dim", "dim", 'i', { 1 }, { 1, 2, 3, 64 } },
    };
    static const vector<Key> activity{
        { "", "dt", "dt", "dt", 'd', { 0.01 }, { 0.1, 1, 1e-4, 0.25 } },
        { "", "m", "m", "m", 'i', { 10 }, { 0, 1, 5, 300 } },
        { "", "eps", "eps", "eps", 'd', { 0.01 }, { 0.5, 0.125, 1, 1e-3 } },
        { "", "gamma", "gamma", "gamma", 'd', { 2.1 }, { 2.5, 3, 4.25, 2.001 } },
        { "", "alpha", "alpha", "alpha", 'd', { 3.0 }, { 0, 0.25, 2, 10.5 } },
        { "", "homophily", "homophily", "homophily", 'd', { 0.5 }, { 0, 1, 1.5, -0.5, 3 } },
        { "", "reciprocity", "reciprocity", "reciprocity", 'd', { 0.5 }, { 0, 1, 0.65, 0.05 } },
        { "", "K", "K", "K", 'd', { 3.0 }, { 0, 1, 2.5, -1, 40 } },
        { "", "mean_activities", "mean_activities", "mean_activities", 'b', { 0 }, { 0, 1 } },
        { "", "mean_weights", "mean_weights", "mean_weights", 'b', { 0 }, { 0, 1 } },
        { "", "reluctances", "use_reluctances", "use_reluctances", 'b', { 0 }, { 0, 1 } },
        { "", "reluctance_mean", "reluctance_mean", "reluctance_mean", 'd', { 1.0 }, { 0.5, 2, 1.25, 0.01 } },
        { "", "reluctance_sigma", "reluctance_sigma", "reluctance_sigma", 'd', { 0.25 }, { 0.1, 1, 3 } },
        { "", "reluctance_eps", "reluctance_eps", "reluctance_eps", 'd', { 0.01 }, { 0.1, 1, 0.75 } },
        { "", "covariance_factor", "covariance_factor", "covariance_factor", 'd', { 0.0 }, { 0.5, -0.5, 1, -1, 0.125 } },
        { "", "n_bots", "n_bots", "n_bots", 'i', { 0 }, { 0, 1, 2, 3, 5 } },
        { "", "bot_m", "bot_m", "Bot m", 'I', {}, { 0, 1, 2, 300 } },
        { "", "bot_opinion", "bot_opinion", "Bot opinions", 'D', {}, { -2, 2, 0.25, 1, 0 } },
        { "", "bot_activity", "bot_activity", "Bot activity(s)", 'D', {}, { 1, 0, 0.5, 0.1 } },
        { "", "bot_homophily", "bot_homophily", "Bot homophily(s)", 'D', {}, { 0.7, 0.2, 0, 1, 3 } },
        { "", "friction_coefficient", "friction_coefficient", "friction_coefficient", 'd', { 1.0 }, { 0, 0.5, 2, 30 } },
    };
    return m == 0 ? degroot : m == 1 ? deffuant : activity;
}
string spell( Choices & ch, char type, double v ) // one of the ways TOML has to write it
{
    if( type == 'b' )
        return v ? "true" : "false";
    if( type == 'i' || type == 'I' || ( v == std::floor( v ) && std::fabs( v ) < 1e6 && ch.chance( 1, 3 ) ) )
    {
        i64 x = i64( v );
        switch( ch.below( 5 ) )
        {
            case 1: return x >= 0 ? strf( "+%lld", (long long)x ) : strf( "%lld", (long long)x );
            case 2: return x >= 0 ? strf( "0x%llx", (long long)x ) : strf( "%lld", (long long)x );
            case 3: return x >= 1000 ? strf( "%lld_%03lld", (long long)( x / 1000 ), (long long)( x % 1000 ) ) : strf( "%lld", (long long)x );
            default: return strf( "%lld", (long long)x );
        }
    }
    string s = fmt_double( v );
    if( s.find_first_of( ".e" ) == string::npos )
        s += ".0";
    switch( ch.below( 4 ) )
    {
        case 1: return s.find( 'e' ) == string::npos ? s + "00" : s;
        case 2: return v >= 0 ? "+" + s : s;
        case 3: return strf( "%.16e", v );
        default: return s;
    }
}
vector<double> numbers_in( const string & s )
{
    static const std::regex re( "true|false|[-+]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][-+]?[0-9]+)?" );
    vector<double> r;
    for( std::sregex_iterator i( s.begin(), s.end(), re ), e; i != e; ++i )
        r.push_back( i->str() == "true" ? 1 : i->str() == "false" ? 0 : strtod( i->str().c_str(), nullptr ) );
    return r;
}
string show( const Vals & v )
{
    string s = "[";
    for( double x : v )
        s += ( s.size() > 1 ? ", " : "" ) + fmt_double( x );
    return s + "]";
}
template<typename T>
void shuffle( Choices & ch, vector<T> & v )
{
    for( size_t i = v.size(); i > 1; i-- )
        std::swap( v[i - 1], v[ch.below( i )] );
}
} // namespace
static void p26( World & w )
{
    auto & ch = w.ch;
    static const char * models[] = { "DeGroot", "Deffuant", "ActivityDriven", "ActivityDrivenInertial" };
    int model = int( ch.below( 4 ) );
    std::map<string, Vals> want;
    std::map<string, const char *> label;
    std::map<string, vector<string>> text; // section -> "key = value"
    double density = double( ch.below( 5 ) ) / 4;
    vector<Key> keys = common();
    for( auto & k : model_keys( model ) )
        if( model == 3 || string( k.key ) != "friction_coefficient" )
            keys.push_back( k );
    size_t n_bots = 0;
    bool vec      = false;
    for( auto & k : keys )
    {
        string sec = *k.section ? k.section : models[model];
        bool give  = double( ch.below( 100 ) ) < 100 * density;
        label[k.option] = k.printed;
        if( k.type == 'D' || k.type == 'I' )
        {
            Vals v;
            if( give )
            {
                string t;
                for( size_t q = n_bots + ( ch.chance( 1, 4 ) ? ch.below( 3 ) : 0 ); q > 0; q-- )
                {
                    double x = ch.pick( k.pool );
                    v.push_back( x );
                    t += ( t.empty() ? "" : ch.chance( 1, 6 ) ? ",\n   " : ", " ) + spell( ch, k.type == 'I' ? 'I' : 'd', x );
                }
                if( !t.empty() && ch.chance( 1, 5 ) )
                    t += ",";
                text[sec].push_back( string( k.key ) + " = [ " + t + " ]" );
            }
            else
                v.assign( n_bots, string( k.key ) == "bot_m"           ? want["m"][0]
                                  : string( k.key ) == "bot_homophily" ? want["homophily"][0]
                                  : string( k.key ) == "bot_activity"  ? 1.0
                                                                       : 0.0 );
            want[k.option] = v;
            continue;
        }
        Vals v = k.def;
        if( give )
        {
            v = { ch.pick( k.pool ) };
            if( string( k.key ) == "dim" && !vec )
                v = { 1 };
            text[sec].push_back( string( k.key ) + " = " + spell( ch, k.type, v[0] ) );
        }
        if( string( k.key ) == "binary_vector" )
            vec = v[0] != 0;
        if( string( k.key ) == "n_bots" )
            n_bots = size_t( v[0] );
        want[k.option] = v;
    }
    string impossible; // a value its option cannot have
    if( ch.chance( 1, 12 ) )
    {
        const Key & k = ch.pick( keys );
        string sec    = *k.section ? k.section : models[model];
        vector<string> bad{ "\"1\"", "'x'", "\"\"", "[ \"1\" ]", "1979-05-27", "{ value = 1 }" };
        bool narrow = !strcmp( k.key, "rng_seed" ) || !strcmp( k.key, "max_iterations" ) || !strcmp( k.key, "m" );
        if( k.type == 'i' )
        {
            bad.insert( bad.end(), { "[ 1 ]", "1.5", "0.25", "1e300", "inf", "nan" } );
            if( narrow )
                bad.insert( bad.end(), { "2147483648", "-2147483649", "3000000000", "4294967297", "9223372036854775807" } );
            else
                bad.insert( bad.end(), { "-1", "-9223372036854775808", "-4294967295" } );
        }
        if( k.type == 'd' || k.type == 'b' )
            bad.insert( bad.end(), { "[ 1 ]", "[ 0.5, 0.5 ]" } );
        if( k.type == 'D' || k.type == 'I' )
            bad.insert( bad.end(), { "1", "0.5", "[ 1, \"1\", 1, 1, 1, 1 ]", "[ 1, 1, [ 1 ], 1, 1, 1 ]" } );
        if( k.type == 'I' )
            bad.insert( bad.end(), { "[ 1, 1.5, 1, 1, 1, 1 ]", "[ 1, 2147483648, 1, 1, 1, 1 ]", "[ 4294967297, 1, 1, 1, 1, 1 ]" } );
        auto & t = text[sec];
        std::erase_if( t, [&]( const string & l ) { return l.rfind( string( k.key ) + " = ", 0 ) == 0; } );
        impossible = string( k.key ) + " = " + ch.pick( bad );
        t.push_back( impossible );
    }
    string quote = ch.chance( 1, 3 ) ? "'" : "\"";
    text["simulation"].push_back( "model = " + quote + models[model] + quote );
    // what other programs and models may find in the same file
    if( ch.chance( 1, 3 ) )
    {
        int other = ( model + 1 + int( ch.below( 3 ) ) ) % 4;
        for( auto & k : model_keys( other ) )
            if( k.type != 'D' && k.type != 'I' && ch.chance( 1, 2 ) )
                text[models[other]].push_back( string( k.key ) + " = " + spell( ch, k.type, ch.pick( k.pool ) ) );
    }
    if( ch.chance( 1, 4 ) )
        text["io"].push_back( "n_output = 3" ), text["remarks"].push_back( "author = \"nobody, # or # somebody\"" );
    vector<string> head, order;
    for( auto & [s, t] : text )
        order.push_back( s );
    shuffle( ch, order );
    string nl = ch.chance( 1, 5 ) ? "\r\n" : "\n", body, top;
    auto deco = [&]() -> string
    {
        switch( ch.below( 8 ) )
        {
            case 0: return " # dt = 7, m = 3";
            case 1: return "\t";
            case 2: return "   #";
            default: return "";
        }
    };
    for( auto & s : order )
    {
        auto & t = text[s];
        shuffle( ch, t );
        u64 form   = ch.below( 8 );
        bool multi = false;
        for( auto & l : t )
            multi = multi || l.find( '\n' ) != string::npos || l.find( ",]" ) != string::npos || l.find( ", ]" ) != string::npos;
        if( form == 0 && !multi ) // inline table
        {
            top += s + " = { ";
            for( size_t i = 0; i < t.size(); i++ )
                top += ( i ? ", " : "" ) + t[i];
            top += " }" + deco() + nl;
        }
        else if( form == 1 ) // dotted keys
            for( auto & l : t )
                top += s + "." + l + deco() + nl;
        else
        {
            body += ( ch.chance( 1, 4 ) ? "  " : "" ) + ( "[" + s + "]" ) + deco() + nl;
            for( auto & l : t )
            {
                if( ch.chance( 1, 8 ) )
                    body += ch.chance( 1, 2 ) ? nl : "# " + l.substr( 0, l.find( '\n' ) ) + nl;
                body += ( ch.chance( 1, 4 ) ? "    " : "" ) + l + deco() + nl;
            }
        }
    }
    string toml = top + body;
    if( ch.chance( 1, 6 ) && toml.size() >= nl.size() )
        toml.resize( toml.size() - nl.size() ); // no end of line at the end
    w.put( "/w/conf.toml", toml );
    if( w.verbose )
        w.log.push_back( "config:\n" + toml );
    Plan p;
    add_noise( ch, p );
    if( ch.chance( 1, 5 ) ) // the file cannot be read completely
    {
        Fault f;
        f.op = Op::Read, f.err = EIO, f.nth = ch.below( 3 ), f.sticky = ch.chance( 1, 2 ), f.path = "conf.toml";
        p.faults.push_back( f );
    }
    bool before = ch.chance( 1, 4 ); // another file was read by the same process before
    if( before )
    {
        GenOpt o;
        o.outputs = true;
        w.put( "/w/before.toml", gen_cfg( ch, o ).toml() );
    }
    sut::Settings got;
    u64 errors = shared->cnt.v[Counters::ReadErr];
    Result r   = run_lib( w,
                          [&]
                          {
                            if( before )
                                sys( [&] { sut::settings( "/w/before.toml" ); } );
                            sys( [&] { got = sut::settings( "/w/conf.toml" ); } );
                          },
                          p );
    errors = shared->cnt.v[Counters::ReadErr] - errors;
    sample( toml.substr( 0, 300 ) );
    state_hash( toml );
    string ctx = strf( "model %s, %zu bots, configuration:\n%s", models[model], n_bots, toml.c_str() );
    if( !impossible.empty() && !abnormal( r ) )
    {
        if( r.ok() )
            violate( "impossible value", impossible + " is ignored -- " + ctx );
        probe( 5 );
        nontrivial();
        return;
    }
    if( !r.ok() && errors && !abnormal( r ) )
    {
        probe( 4 );
        nontrivial();
        return;
    }
    if( !r.ok() )
        violate( "refused", r.describe() + " -- " + ctx );
    if( got.model != models[model] )
        violate( "model", "got " + got.model + " -- " + ctx );
    std::map<string, Vals> have;
    for( auto & [n, v] : got.v )
        have[n] = v;
    if( want["rng_seed"].empty() )
        want["rng_seed"] = { double( int( p.device_value ) ) }, have["rng_seed"] = want["rng_seed"]; // P01 looks at the seed material
    vector<string> lines;
    {
        size_t from = r.out.rfind( "Random seed:" ); // the last settings printed
        std::istringstream in( from == string::npos ? r.out : r.out.substr( from ) );
        string l;
        while( std::getline( in, l ) )
        {
            auto b = l.find_first_not_of( " \t" );
            lines.push_back( b == string::npos ? "" : l.substr( b ) );
        }
    }
    for( auto & [n, v] : want )
    {
        auto it = have.find( n );
        if( it == have.end() )
            continue;
        Vals x = v, y = it->second;
        bool list = n.rfind( "bot_", 0 ) == 0;
        if( list ) // entries beyond the number of bots are ignored
        {
            if( y.size() < n_bots )
                violate( "option", n + " is " + show( y ) + " -- " + ctx );
            x.resize( n_bots ), y.resize( n_bots );
        }
        if( x != y )
            violate( "option", n + " is " + show( y ) + ", expected " + show( x ) + " -- " + ctx );
        probe( 0 );
        // printed?
        string lab = label[n];
        if( ( list && !n_bots ) || n == "rng_seed" )
            continue;
        for( auto & l : lines )
            if( l.rfind( lab + " ", 0 ) == 0 )
            {
                auto q = numbers_in( l.substr( lab.size() ) );
                if( list && q.size() > n_bots )
                    q.resize( n_bots );
                bool same = q.size() == x.size();
                for( size_t i = 0; same && i < q.size(); i++ )
                    same = std::fabs( q[i] - x[i] ) <= 1e-5 * std::fabs( x[i] );
                if( !same )
                    violate( "printed", "'" + l + "', the value in use is " + show( x ) + " -- " + ctx );
                probe( 1 );
            }
    }
    if( density == 0 )
        probe( 2 );
    if( density == 1 )
        probe( 3 );
    nontrivial();
}
static Register r26( { "P26", p26, 30000, 1200000,
                       "random configuration files: every key given or left out, sections and keys in any order, in all spellings TOML has, with "
                       "comments, foreign keys and sections, read in random pieces; the resulting options and what is printed are compared "
                       "with the values written and the documented defaults; values the options cannot have; every run is non-trivial",
                       "config parser, toml++, file reading, printing of settings", all_stub,
                       { "options_compared", "printed_values_compared", "nothing_given", "everything_given", "reading_failed", "impossible_values_refused" } } );

// ------------------------------------------------------------------ P27
static double seconds_in( const string & l ) // "00h 00m 01.250s"
{
    static const std::regex re( "(-?)([0-9]+)h ([0-9]+)m ([0-9.]+)s" );
    std::smatch m;
    if( !std::regex_search( l, m, re ) )
        return NAN;
    double s = strtod( m[2].str().c_str(), nullptr ) * 3600 + strtod( m[3].str().c_str(), nullptr ) * 60 + strtod( m[4].str().c_str(), nullptr );
    return m[1].length() ? -s : s;
}
static void p27( World & w )
{
    auto & ch = w.ch;
    GenOpt o;
    o.outputs = true;
    o.max_n   = 9;
    Cfg c     = gen_cfg( ch, o );
    c.progress.reset();
    if( ch.chance( 2, 3 ) )
        c.progress = ch.chance( 3, 4 );
    bool count_files = c.kind == Kind::DeGroot;
    if( count_files )
        c.out_agents = 1, c.start_output = 1;
    if( ch.chance( 1, 8 ) )
        c.max_iter = 0;
    Inputs in = gen_inputs( w, c, 50, c.kind == Kind::Lattice || c.grid || c.mean_w ? 0 : 50 );
    string dir = ch.pick( vector<string>{ "out", "./out/", "/w/out", "/w/deep/er/out", "/w/out dir" } ), conf = ch.pick( vector<string>{ "/w/conf.toml", "/w/c/run-1.toml", "conf.toml", "c/conf.toml" } );
    // the files that are named, and others of the same names elsewhere
    vector<string> dirs{ "in", "", "c", "out", "deep" };
    string taken;
    auto place = [&]( optional<string> & name, const char * base, const std::function<string()> & other )
    {
        string bytes = w.get( *name ), from = ch.pick( dirs );
        if( taken == from + "/" + base )
            from = from == "in" ? "c" : "in";
        bool absolute = ch.chance( 1, 2 );
        for( auto & d : dirs )
            if( d != from && taken != d + "/" + base && ch.chance( 1, 2 ) )
                w.put( "/w/" + d + ( d.empty() ? "" : "/" ) + base, other() );
        taken      = from + "/" + base;
        string rel = from + ( from.empty() ? "" : "/" ) + base;
        w.put( "/w/" + rel, bytes );
        name = absolute ? "/w/" + rel : ch.chance( 1, 4 ) ? "./" + rel : rel;
    };
    if( in.agents )
        place( in.agents, ch.pick( vector<const char *>{ "agents.txt", "initial" } ), [&] { return text_agents( c.kind, gen_agents( ch, c ) ); } );
    if( in.network )
        place( in.network, ch.pick( vector<const char *>{ "network.txt", "initial" } ),
               [&] { return text_network( gen_rows( ch, c.n, c.kind == Kind::DeGroot ) ); } );
    u64 wrong = ch.below( 12 ); // 0..4: a command line that does not work
    wrong     = wrong >= 7 ? wrong - 7 : 99;
    auto abs = []( const string & p ) { return p[0] == '/' ? p : "/w/" + p.substr( p.rfind( "./", 0 ) == 0 ? 2 : 0 ); };
    if( wrong != 3 )
        w.put( abs( conf ), c.toml() );
    string conf_dir = abs( conf ).substr( 0, abs( conf ).rfind( '/' ) ), said = dir;
    dir         = abs( dir );
    while( dir.back() == '/' )
        dir.pop_back();
    vector<vector<string>> opts;
    auto opt = [&]( const char * s, const char * l, const string & v )
    {
        switch( ch.below( 3 ) )
        {
            case 0: opts.push_back( { s, v } ); break;
            case 1: opts.push_back( { l, v } ); break;
            default: opts.push_back( { string( l ) + "=" + v } );
        }
    };
    bool named = !ch.chance( 1, 8 );
    if( named )
        opt( "-o", "--output", said );
    else
        dir = "/w/output"; // the documentation has two versions of the default: below the current directory or next to the configuration
    if( in.agents )
        opt( "-a", "--agents", *in.agents );
    if( in.network )
        opt( "-n", "--network", *in.network );
    opts.push_back( { conf } );
    for( size_t i = opts.size(); i > 1; i-- )
        std::swap( opts[i - 1], opts[ch.below( i )] );
    static const char * wrongs[] = { "no configuration file", "unknown option", "missing value", "configuration file does not exist", "help" };
    vector<string> args;
    for( auto & q : opts )
        if( !( wrong == 0 && q[0] == conf ) )
            args.insert( args.end(), q.begin(), q.end() );
    if( wrong == 1 )
        args.insert( args.begin() + i64( ch.below( 2 ) ? args.size() : 0 ), ch.pick( vector<string>{ "--outputs", "-x", "--seed" } ) );
    if( wrong == 2 )
        args.push_back( ch.pick( vector<string>{ "-o", "--agents", "-n" } ) );
    if( wrong == 4 )
        args = { ch.pick( vector<string>{ "--help", "-h" } ) };
    Plan p;
    add_noise( ch, p );
    if( ch.chance( 1, 4 ) ) // hours and days
        p.clock_step = i64( ch.below( 4000 ) ) * 1'000'000'000ll;
    string line = "seldon";
    for( auto & x : args )
        line += " '" + x + "'";
    if( w.verbose )
        w.log.push_back( "run: " + line + "\nconfig:\n" + c.toml() );
    Result r = run_proc(
        w,
        [&]() -> int
        {
            Scope s;
            return sut::cli( args );
        },
        p );
    string ctx = line + " -- " + c.brief();
    sample( ctx );
    state_hash( ctx );
    nontrivial();
    if( abnormal( r ) )
        violate( "run failed", ctx + ": " + r.describe() );
    if( wrong < 5 )
    {
        probe( 0 );
        if( ( wrong == 4 ) != r.ok() )
            violate( "command line", string( wrongs[wrong] ) + ": " + ctx + ": " + r.describe() );
        for( auto & d : { string( "/w" ), dir, conf_dir, string( "/w/output" ) } )
            for( auto & [n, b] : outputs( w, d ) )
                violate( "command line", string( wrongs[wrong] ) + ": " + ctx + " wrote " + d + "/" + n );
        return;
    }
    if( !r.ok() )
        violate( "run failed", ctx + ": " + r.describe() );
    // where the output goes
    if( !named && outputs( w, dir ).empty() )
        dir = conf_dir + "/output";
    auto files = outputs( w, dir );
    size_t n   = size_t( c.max_iter.value_or( 0 ) );
    if( count_files )
    {
        n = 0;
        while( files.count( strf( "opinions_%zu.txt", c.start_num.value_or( 0 ) + n + 1 ) ) )
            n++;
    }
    std::set<string> due, there;
    for( auto & q : expected_files( c, n ) )
        due.insert( q.begin(), q.end() );
    for( auto & [f, b] : files )
        there.insert( f );
    if( due != there )
        violate( "output directory", strf( "%zu files instead of %zu in %s: ", there.size(), due.size(), dir.c_str() ) + ctx );
    // the input files that were named are used
    if( c.out_initial.value_or( true ) )
    {
        string err;
        if( in.a )
        {
            auto a = parse_agents( c.kind, files[strf( "opinions_%zu.txt", c.start_num.value_or( 0 ) )], err );
            if( !a || !same_agents( *a, *in.a ) )
                violate( "input file", "the agents of " + *in.agents + " are not used: " + ctx + " " + err );
            probe( 1 );
        }
        if( in.r )
        {
            auto q = parse_network( files[strf( "network_%zu.txt", c.start_num.value_or( 0 ) )], err );
            if( !q || !same_rows( *q, *in.r ) )
                violate( "input file", "the network of " + *in.network + " is not used: " + ctx + " " + err );
            probe( 2 );
        }
    }
    // what it says
    auto says = [&]( const string & what )
    {
        if( r.out.find( what ) == string::npos )
            violate( "report", "does not mention " + what + ": " + ctx + "\n" + r.out.substr( 0, 1500 ) );
    };
    says( conf );
    if( named )
        says( said.substr( 0, said.find_last_not_of( '/' ) + 1 ) );
    if( in.agents )
        says( *in.agents );
    if( in.network )
        says( *in.network );
    std::istringstream text( r.out );
    string l;
    size_t progress = 0, finished = 0;
    double sum = 0, total = 0;
    static const std::regex it_re( "^\\s*Iteration\\s+([0-9]+)\\b.*" ), fin_re( ".*Finished after\\s+([0-9]+) iterations.*" );
    std::smatch m;
    while( std::getline( text, l ) )
    {
        if( std::regex_match( l, m, it_re ) )
        {
            progress++;
            if( strtoull( m[1].str().c_str(), nullptr, 10 ) != progress )
                violate( "report", strf( "progress line %zu is '%s': ", progress, l.c_str() ) + ctx );
            double s = seconds_in( l );
            if( !std::isnan( s ) )
                sum += s;
        }
        if( std::regex_match( l, m, fin_re ) )
        {
            finished++;
            if( strtoull( m[1].str().c_str(), nullptr, 10 ) != n )
                violate( "report", strf( "%zu iterations were done: '%s': ", n, l.c_str() ) + ctx );
            total = seconds_in( l );
        }
    }
    if( progress != ( c.progress.value_or( false ) ? n : 0 ) )
        violate( "report", strf( "%zu progress lines in %zu iterations: ", progress, n ) + ctx );
    if( finished != 1 )
        violate( "report", strf( "%zu final lines: ", finished ) + ctx );
    probe( 3, progress );
    if( !p.clock_noise && !std::isnan( total ) )
    {
        double all = double( r.st.sim_ns ) * 1e-9, tol = 1e-3 * double( n + 2 );
        if( sum > total + tol || total > all + tol || total < 0 )
            violate( "report", strf( "iterations took %g s, all together %g s; the whole process took %g s: ", sum, total, all ) + ctx );
        probe( 4 );
    }
}
static Register r27( { "P27", p27, 20000, 800000,
                       "random configurations of all models run through the command line with its options in any order and spelling, wrong command "
                       "lines, clocks that jump; output files, exit status and every line printed are compared with what was done; every run is "
                       "non-trivial",
                       all_real, all_stub, { "wrong_command_lines", "agents_files_used", "network_files_used", "progress_lines", "durations_compared" } } );
} // namespace sim
