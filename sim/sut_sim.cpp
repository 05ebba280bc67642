#include "sut_api.hpp"
#include "config_parser.hpp"
#include "models/DeGroot.hpp"
#include "models/DeffuantModel.hpp"
#include "models/InertialModel.hpp"
#include "simulation.hpp"
#include <models/ActivityDrivenModel.hpp>

int seldon_main( int argc, char ** argv );

namespace sut
{
int cli( const std::vector<std::string> & args )
{
    std::vector<std::string> a{ "seldon" };
    a.insert( a.end(), args.begin(), args.end() );
    std::vector<char *> p;
    for( auto & s : a )
        p.push_back( s.data() );
    p.push_back( nullptr );
    return seldon_main( int( a.size() ), p.data() );
}

namespace
{
void get( AgentRec & r, const Seldon::SimpleAgent & a )
{
    r.opinion = a.data.opinion;
}
void get( AgentRec & r, const Seldon::ActivityAgent & a )
{
    r.opinion    = a.data.opinion;
    r.activity   = a.data.activity;
    r.reluctance = a.data.reluctance;
}
void get( AgentRec & r, const Seldon::InertialAgent & a )
{
    r.opinion    = a.data.opinion;
    r.activity   = a.data.activity;
    r.reluctance = a.data.reluctance;
    r.velocity   = a.data.velocity;
}
void get( AgentRec & r, const Seldon::DiscreteVectorAgent & a )
{
    r.vec = a.data.opinion;
}
void set( const AgentRec & r, Seldon::SimpleAgent & a )
{
    a.data.opinion = r.opinion;
}
void set( const AgentRec & r, Seldon::ActivityAgent & a )
{
    a.data.opinion    = r.opinion;
    a.data.activity   = r.activity;
    a.data.reluctance = r.reluctance;
}
void set( const AgentRec & r, Seldon::InertialAgent & a )
{
    a.data.opinion    = r.opinion;
    a.data.activity   = r.activity;
    a.data.reluctance = r.reluctance;
    a.data.velocity   = r.velocity;
}
void set( const AgentRec & r, Seldon::DiscreteVectorAgent & a )
{
    a.data.opinion = r.vec;
}

template<typename A>
struct Sim : ISim
{
    Seldon::Simulation<A> s;
    Sim( const Seldon::Config::SimulationOptions & o, const std::optional<std::string> & n,
         const std::optional<std::string> & a )
            : s( o, n, a )
    {
    }
    size_t n() override { return s.network.n_agents(); }
    size_t n_iterations() override { return s.model->n_iterations(); }
    bool finished() override { return s.model->finished(); }
    void iteration() override { s.model->iteration(); }
    void initialize() override { s.model->initialize_iterations(); }
    void run( const std::string & dir ) override { s.run( std::filesystem::path( dir ) ); }
    AgentRec agent( size_t i ) override
    {
        AgentRec r;
        get( r, s.network.agents[i] );
        return r;
    }
    void set_agent( size_t i, const AgentRec & r ) override { set( r, s.network.agents[i] ); }
    std::vector<size_t> neighbours( size_t i ) override
    {
        auto x = s.network.get_neighbours( i );
        return { x.begin(), x.end() };
    }
    std::vector<double> weights( size_t i ) override
    {
        auto x = s.network.get_weights( i );
        return { x.begin(), x.end() };
    }
    void set_row( size_t i, const std::vector<size_t> & n, const std::vector<double> & w ) override
    {
        s.network.set_neighbours_and_weights( i, std::span<const size_t>( n ), std::span<const double>( w ) );
    }
    void write_agents( const std::string & p ) override { Seldon::agents_to_file( s.network, p ); }
    void write_network( const std::string & p ) override { Seldon::network_to_file( s.network, p ); }
    void write_dot( const std::string & p ) override { Seldon::network_to_dot_file( s.network, p ); }
    size_t components() override { return s.network.strongly_connected_components().size(); }
    size_t edges( size_t i ) override { return s.network.n_edges() + s.network.n_edges( i ); }
    std::string text( size_t i ) override
    {
        return Seldon::agent_to_string( s.network.agents[i] ) + Seldon::opinion_to_string( s.network.agents[i] );
    }
};
} // namespace

std::unique_ptr<ISim> make_sim(
    const std::string & toml, const std::optional<std::string> & net, const std::optional<std::string> & agents,
    void ( *configured )() )
{
    using namespace Seldon;
    auto o = Config::parse_config_file( toml );
    Config::validate_settings( o );
    if( configured )
        configured();
    switch( o.model )
    {
        case Config::Model::DeGroot: return std::make_unique<Sim<DeGrootModel::AgentT>>( o, net, agents );
        case Config::Model::ActivityDrivenModel:
            return std::make_unique<Sim<ActivityDrivenModel::AgentT>>( o, net, agents );
        case Config::Model::ActivityDrivenInertial: return std::make_unique<Sim<InertialModel::AgentT>>( o, net, agents );
        case Config::Model::DeffuantModel:
            if( std::get<Config::DeffuantSettings>( o.model_settings ).use_binary_vector )
                return std::make_unique<Sim<DeffuantModelVector::AgentT>>( o, net, agents );
            return std::make_unique<Sim<DeffuantModel::AgentT>>( o, net, agents );
    }
    throw std::runtime_error( "no model" );
}
Settings settings( const std::string & toml )
{
    using namespace Seldon;
    auto o = Config::parse_config_file( toml );
    Config::validate_settings( o );
    Config::print_settings( o );
    Settings r;
    r.model  = o.model_string;
    auto add = [&]( const char * n, const auto & x )
    {
        std::vector<double> v;
        if constexpr( requires { x.has_value(); } )
        {
            if( x.has_value() )
                v.push_back( double( x.value() ) );
        }
        else if constexpr( requires { x.begin(); } )
            v.assign( x.begin(), x.end() );
        else
            v.push_back( double( x ) );
        r.v.emplace_back( n, v );
    };
    add( "rng_seed", o.rng_seed );
    const auto & io = o.output_settings;
    add( "n_output_agents", io.n_output_agents ), add( "n_output_network", io.n_output_network );
    add( "print_progress", io.print_progress ), add( "output_initial", io.output_initial );
    add( "start_output", io.start_output ), add( "start_numbering_from", io.start_numbering_from );
    add( "n_agents", o.network_settings.n_agents ), add( "n_connections", o.network_settings.n_connections );
    auto activity = [&]( const auto & s )
    {
        add( "max_iterations", s.max_iterations ), add( "dt", s.dt ), add( "m", s.m ), add( "eps", s.eps ), add( "gamma", s.gamma );
        add( "alpha", s.alpha ), add( "homophily", s.homophily ), add( "reciprocity", s.reciprocity ), add( "K", s.K );
        add( "mean_activities", s.mean_activities ), add( "mean_weights", s.mean_weights ), add( "n_bots", s.n_bots );
        add( "bot_m", s.bot_m ), add( "bot_activity", s.bot_activity ), add( "bot_opinion", s.bot_opinion );
        add( "bot_homophily", s.bot_homophily ), add( "use_reluctances", s.use_reluctances );
        add( "reluctance_mean", s.reluctance_mean ), add( "reluctance_sigma", s.reluctance_sigma );
        add( "reluctance_eps", s.reluctance_eps ), add( "covariance_factor", s.covariance_factor );
    };
    if( auto * d = std::get_if<Config::DeGrootSettings>( &o.model_settings ) )
        add( "max_iterations", d->max_iterations ), add( "convergence_tol", d->convergence_tol );
    else if( auto * d = std::get_if<Config::DeffuantSettings>( &o.model_settings ) )
    {
        add( "max_iterations", d->max_iterations ), add( "homophily_threshold", d->homophily_threshold ), add( "mu", d->mu );
        add( "use_network", d->use_network ), add( "use_binary_vector", d->use_binary_vector ), add( "dim", d->dim );
    }
    else if( auto * d = std::get_if<Config::ActivityDrivenInertialSettings>( &o.model_settings ) )
        activity( *d ), add( "friction_coefficient", d->friction_coefficient );
    else if( auto * d = std::get_if<Config::ActivityDrivenSettings>( &o.model_settings ) )
        activity( *d );
    return r;
}
} // namespace sut
