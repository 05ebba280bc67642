// Workload generator, independent parsers of the program's files, reference models.
#pragma once
#include "core.hpp"
#include "sut_api.hpp"
#include <cmath>

namespace sim
{
using sut::AgentRec;
using std::optional;
using std::size_t;

enum class Kind { DeGroot, Deffuant, Activity, Inertial, Lattice, Vector };
const char * kind_name( Kind k );

struct Cfg
{
    Kind kind = Kind::DeGroot;
    size_t n = 3, nconn = 2;
    optional<int> seed = 1;
    optional<int> max_iter = 2;
    optional<double> tol;            // DeGroot "convergence"
    double threshold = 0.2, mu = 0.5;
    size_t dim = 1;
    bool grid  = false; // Vector: neighbours on a lattice only
    double dt = 0.1, eps = 0.5, gamma = 2.1, alpha = 2.0, homophily = 0.5, reciprocity = 0.5, K = 1.5;
    int m = 1;
    bool mean_act = false, mean_w = false;
    bool use_rel = false;
    double rel_mean = 1.0, rel_sigma = 0.25, rel_eps = 0.01, cov = 0.0;
    double friction = 1.0;
    size_t n_bots = 0;
    bool bot_arrays = true; // write the bot arrays
    vector<int> bot_m;
    vector<double> bot_op, bot_act, bot_hom;
    optional<size_t> out_agents, out_network, start_output, start_num;
    optional<bool> out_initial, progress;
    string extra; // raw text added at the end

    string toml() const;
    bool activity_like() const { return kind == Kind::Activity || kind == Kind::Inertial; }
    size_t contacts( size_t i ) const // contacts agent i makes when active
    {
        int mm = i < n_bots ? bot_m[i] : m;
        return std::min<size_t>( mm < 0 ? 0 : size_t( mm ), n ? n - 1 : 0 );
    }
    double hom( size_t i ) const { return i < n_bots ? bot_hom[i] : homophily; }
    string brief() const;
};

struct GenOpt
{
    vector<Kind> kinds{ Kind::DeGroot, Kind::Deffuant, Kind::Activity, Kind::Inertial, Kind::Lattice, Kind::Vector };
    size_t max_n   = 12;
    int max_iter   = 8;
    bool big       = true; // now and then larger sizes
    bool bots      = true;
    bool mean      = true;
    bool outputs   = false; // random output settings
};
Cfg gen_cfg( Choices & ch, const GenOpt & o = {} );
void gen_outputs( Choices & ch, Cfg & c );

struct Rows
{
    vector<vector<size_t>> nb;
    vector<vector<double>> w;
    size_t n() const { return nb.size(); }
    bool operator==( const Rows & ) const = default;
};
bool same_bits( double a, double b );
bool same_agents( const vector<AgentRec> & a, const vector<AgentRec> & b );
bool same_rows( const Rows & a, const Rows & b );

// strict parsers; nullopt and a reason on anything unexpected
optional<vector<AgentRec>> parse_agents( Kind k, const string & text, string & err );
optional<Rows> parse_network( const string & text, string & err );
string text_agents( Kind k, const vector<AgentRec> & a, int style = 0 );
string text_network( const Rows & r, int style = 0 );

double gen_double( Choices & ch );     // any finite double, biased to edges
double gen_opinion( Choices & ch );    // moderate
vector<AgentRec> gen_agents( Choices & ch, const Cfg & c );
Rows gen_rows( Choices & ch, size_t n, bool stochastic, size_t max_deg = 6, bool repeats = false );

// legal anomalies that must never change a result
void add_noise( Choices & ch, Plan & p );
void add_overrides( Choices & ch, Plan & p, u64 span );

// --- running the program ----------------------------------------------------
struct Invocation
{
    string config = "/w/conf.toml", out_dir = "/w/out";
    optional<string> agents, network;
    vector<string> argv() const;
};
Result run_cli( World & w, const Invocation & v, const Plan & p );
Result run_cfg( World & w, const Cfg & c, const string & out_dir, const Plan & p = {}, optional<string> agents = {},
                optional<string> network = {} );
void expect_ok( const Result & r, const string & what );
bool abnormal( const Result & r ); // signal, assertion, stuck

// names a run writes, iteration by iteration (index 0 = initial state)
vector<vector<string>> expected_files( const Cfg & c, size_t iterations );
size_t iterations_reported( const string & out ); // "Finished after N iterations"

struct Snap
{
    size_t k = 0;
    vector<AgentRec> a;
    Rows net;
};
struct Session
{
    vector<Snap> snaps;
    size_t first = 0;   // number of the first snapshot
    bool killed  = false;
    bool loaded_agents = false, loaded_network = false;
    string out;
};
struct History
{
    Cfg cfg;
    vector<Session> sessions;
    size_t restarts = 0;
};
struct HistOpt
{
    bool crashes = true, noise = true, overrides = true;
    optional<vector<AgentRec>> agents;
    optional<Rows> network;
};
// every snapshot of a run that is killed and resumed from its own files now and then
History run_history( World & w, Cfg c, const HistOpt & o );
Snap read_snap( World & w, const Cfg & c, const string & dir, size_t k );

// --- reference models -------------------------------------------------------
double hom_weight( double xi, double xj, double homophily );
vector<double> slopes( const Cfg & c, const vector<AgentRec> & a, const Rows & net, const vector<double> & x );
vector<double> ref_rk4( const Cfg & c, const vector<AgentRec> & a, const Rows & net, vector<double> * scale );
void ref_inertial( const Cfg & c, vector<AgentRec> & a, const Rows & net, vector<double> * scale );
vector<double> ref_degroot( const vector<double> & x, const Rows & net, vector<double> * scale );
// mean-field incoming weights; cap: how activities enter (0 = a, 1 = max(1,a))
vector<vector<double>> ref_mean_weights( const Cfg & c, const vector<AgentRec> & a, int activity_rule );
vector<vector<size_t>> ref_scc( const vector<vector<size_t>> & nb );
vector<size_t> lattice_neighbours( size_t n_edge, size_t i );
bool close( double a, double b, double scale, double rel = 1e-9 );

// --- registry ---------------------------------------------------------------
struct Prop
{
    const char * id;
    void ( *fn )( World & );
    u64 quick_runs, thorough_runs;
    const char * rule;               // how cases are made, what makes one non-trivial
    const char * real_code;          // what ran real code
    const char * stubs;              // what ran a stub
    vector<const char *> probes{};
};
vector<Prop> & registry();
struct Register
{
    Register( Prop p ) { registry().push_back( p ); }
};
void nontrivial(); // this run exercised what it is about
void sample( const string & s );
} // namespace sim
