// What the simulator may ask of the system under test.  Everything behind it is
// the repository's own code, compiled with the simulator's seams.
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace sut
{
using std::size_t;

// the whole command line program
int cli( const std::vector<std::string> & args );

struct AgentRec
{
    double opinion = 0, activity = 0, reluctance = 1, velocity = 0;
    std::vector<int> vec{};
};

struct ISim // one Simulation object
{
    virtual ~ISim()                                              = default;
    virtual size_t n()                                           = 0;
    virtual size_t n_iterations()                                = 0;
    virtual bool finished()                                      = 0;
    virtual void iteration()                                     = 0;
    virtual void initialize()                                    = 0;
    virtual void run( const std::string & dir )                  = 0;
    virtual AgentRec agent( size_t i )                           = 0;
    virtual void set_agent( size_t i, const AgentRec & )         = 0;
    virtual std::vector<size_t> neighbours( size_t i )           = 0;
    virtual std::vector<double> weights( size_t i )              = 0;
    virtual void set_row( size_t i, const std::vector<size_t> &, const std::vector<double> & ) = 0;
    virtual void write_agents( const std::string & path )        = 0;
    virtual void write_network( const std::string & path )       = 0;
    virtual void write_dot( const std::string & path )           = 0;
    virtual size_t components()                                  = 0; // strongly connected ones
    virtual size_t edges( size_t i )                             = 0; // of agent i and in total
    virtual std::string text( size_t i )                         = 0; // of agent i and its opinion
};
// parse_config_file + validate_settings + Simulation<AgentT>, as main() does
std::unique_ptr<ISim> make_sim(
    const std::string & toml, const std::optional<std::string> & net, const std::optional<std::string> & agents,
    void ( *configured )() = nullptr ); // called between the configuration and the construction

// the options a configuration file results in: name -> values (none for an absent optional); also prints them
struct Settings
{
    std::string model;
    std::vector<std::pair<std::string, std::vector<double>>> v;
};
Settings settings( const std::string & toml );

struct INet // one Network object
{
    virtual ~INet()                                                                    = default;
    virtual size_t n() const                                                           = 0;
    virtual size_t n_edges() const                                                     = 0;
    virtual size_t n_edges( size_t i ) const                                           = 0;
    virtual bool outgoing() const                                                      = 0;
    virtual std::vector<size_t> neighbours( size_t i ) const                           = 0;
    virtual std::vector<double> weights( size_t i ) const                              = 0;
    virtual void set_weights( size_t i, const std::vector<double> & w )                = 0;
    virtual void set_row( size_t i, const std::vector<size_t> & n, double w )          = 0;
    virtual void
    set_row( size_t i, const std::vector<size_t> & n, const std::vector<double> & w )  = 0;
    virtual void push_back( size_t i, size_t j, double w )                             = 0;
    virtual void transpose()                                                           = 0;
    virtual void toggle()                                                              = 0;
    virtual void switch_flag()                                                         = 0;
    virtual void remove_double_counting()                                              = 0;
    virtual void clear()                                                               = 0;
    virtual std::vector<std::vector<size_t>> scc() const                               = 0;
    virtual void write( const std::string & path ) const                               = 0;
    virtual void write_dot( const std::string & path ) const                           = 0;
};
std::unique_ptr<INet> net_empty( size_t n );
std::unique_ptr<INet>
net_lists( std::vector<std::vector<size_t>> n, std::vector<std::vector<double>> w, bool outgoing );
std::unique_ptr<INet> net_n_connections( size_t n, size_t k, bool self, std::uint32_t seed );
std::unique_ptr<INet> net_full( size_t n, double w );
std::unique_ptr<INet> net_full_random( size_t n, std::uint32_t seed );
std::unique_ptr<INet> net_lattice( size_t n_edge, double w );
std::unique_ptr<INet> net_file( const std::string & path );

// sampling primitives
std::vector<size_t> draw_unique( std::optional<size_t> ignore, size_t k, size_t n, std::uint32_t seed );
std::vector<size_t> reservoir( size_t k, const std::vector<double> & weights, std::uint32_t seed );
// distributions: n samples, and the densities reported at the points x
struct Drawn
{
    std::vector<double> samples, second, density; // second: the other component of a pair
};
Drawn power_law( double eps, double gamma, size_t n, const std::vector<double> & x, std::uint32_t seed );
Drawn truncated_normal( double mean, double sigma, double eps, size_t n, const std::vector<double> & x, std::uint32_t seed );
Drawn bivariate_normal( double covariance, size_t n, std::uint32_t seed );
} // namespace sut
