#include "sut_api.hpp"
#include "agents/simple_agent.hpp"
#include "network.hpp"
#include "network_generation.hpp"
#include "network_io.hpp"
#include "util/math.hpp"

namespace sut
{
namespace
{
using NetT = Seldon::Network<Seldon::SimpleAgent>;
struct Net : INet
{
    NetT x;
    explicit Net( NetT && n ) : x( std::move( n ) ) {}
    size_t n() const override { return x.n_agents(); }
    size_t n_edges() const override { return x.n_edges(); }
    size_t n_edges( size_t i ) const override { return x.n_edges( i ); }
    bool outgoing() const override { return x.direction() == NetT::EdgeDirection::Outgoing; }
    std::vector<size_t> neighbours( size_t i ) const override
    {
        auto s = x.get_neighbours( i );
        return { s.begin(), s.end() };
    }
    std::vector<double> weights( size_t i ) const override
    {
        auto s = x.get_weights( i );
        return { s.begin(), s.end() };
    }
    void set_weights( size_t i, const std::vector<double> & w ) override
    {
        x.set_weights( i, std::span<const double>( w ) );
    }
    void set_row( size_t i, const std::vector<size_t> & n, double w ) override
    {
        x.set_neighbours_and_weights( i, std::span<const size_t>( n ), w );
    }
    void set_row( size_t i, const std::vector<size_t> & n, const std::vector<double> & w ) override
    {
        x.set_neighbours_and_weights( i, std::span<const size_t>( n ), std::span<const double>( w ) );
    }
    void push_back( size_t i, size_t j, double w ) override { x.push_back_neighbour_and_weight( i, j, w ); }
    void transpose() override { x.transpose(); }
    void toggle() override { x.toggle_incoming_outgoing(); }
    void switch_flag() override { x.switch_direction_flag(); }
    void remove_double_counting() override { x.remove_double_counting(); }
    void clear() override { x.clear(); }
    std::vector<std::vector<size_t>> scc() const override { return x.strongly_connected_components(); }
    void write( const std::string & p ) const override { Seldon::network_to_file( x, p ); }
    void write_dot( const std::string & p ) const override { Seldon::network_to_dot_file( x, p ); }
};
std::unique_ptr<INet> wrap( NetT && n )
{
    return std::make_unique<Net>( std::move( n ) );
}
} // namespace
namespace G = Seldon::NetworkGeneration;
std::unique_ptr<INet> net_empty( size_t n )
{
    return wrap( NetT( n ) );
}
std::unique_ptr<INet> net_lists( std::vector<std::vector<size_t>> n, std::vector<std::vector<double>> w, bool outgoing )
{
    return wrap( NetT(
        std::move( n ), std::move( w ), outgoing ? NetT::EdgeDirection::Outgoing : NetT::EdgeDirection::Incoming ) );
}
std::unique_ptr<INet> net_n_connections( size_t n, size_t k, bool self, std::uint32_t seed )
{
    std::mt19937 gen( seed );
    return wrap( G::generate_n_connections<Seldon::SimpleAgent>( n, k, self, gen ) );
}
std::unique_ptr<INet> net_full( size_t n, double w )
{
    return wrap( G::generate_fully_connected<Seldon::SimpleAgent>( n, w ) );
}
std::unique_ptr<INet> net_full_random( size_t n, std::uint32_t seed )
{
    std::mt19937 gen( seed );
    return wrap( G::generate_fully_connected<Seldon::SimpleAgent>( n, gen ) );
}
std::unique_ptr<INet> net_lattice( size_t n_edge, double w )
{
    return wrap( G::generate_square_lattice<Seldon::SimpleAgent>( n_edge, w ) );
}
std::unique_ptr<INet> net_file( const std::string & path )
{
    return wrap( G::generate_from_file<Seldon::SimpleAgent>( path ) );
}
std::vector<size_t> draw_unique( std::optional<size_t> ignore, size_t k, size_t n, std::uint32_t seed )
{
    std::mt19937 gen( seed );
    std::vector<size_t> b;
    Seldon::draw_unique_k_from_n( ignore, k, n, b, gen );
    return b;
}
std::vector<size_t> reservoir( size_t k, const std::vector<double> & w, std::uint32_t seed )
{
    std::mt19937 gen( seed );
    std::vector<size_t> b;
    Seldon::reservoir_sampling_A_ExpJ( k, w.size(), [&]( size_t i ) { return w[i]; }, b, gen );
    return b;
}
template<typename D>
static Drawn drawn( D dist, size_t n, const std::vector<double> & x, std::uint32_t seed )
{
    std::mt19937 gen( seed );
    Drawn r;
    for( size_t i = 0; i < n; i++ )
        r.samples.push_back( dist( gen ) );
    for( double q : x )
        r.density.push_back( dist.pdf( q ) );
    return r;
}
Drawn power_law( double eps, double gamma, size_t n, const std::vector<double> & x, std::uint32_t seed )
{
    return drawn( Seldon::power_law_distribution<>( eps, gamma ), n, x, seed );
}
Drawn truncated_normal( double mean, double sigma, double eps, size_t n, const std::vector<double> & x, std::uint32_t seed )
{
    return drawn( Seldon::truncated_normal_distribution<>( mean, sigma, eps ), n, x, seed );
}
Drawn bivariate_normal( double covariance, size_t n, std::uint32_t seed )
{
    std::mt19937 gen( seed );
    Seldon::bivariate_normal_distribution<> dist( covariance );
    Drawn r;
    for( size_t i = 0; i < n; i++ )
    {
        auto z = dist( gen );
        r.samples.push_back( z[0] ), r.second.push_back( z[1] );
    }
    return r;
}
} // namespace sut
