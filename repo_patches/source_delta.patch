From 565fa594b898e80bfbe076c59ceecedd47e455e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 01/24] fix: report failed writes of agent and network files

Errors while opening, writing or closing an output file were ignored, so a
run could end successfully with missing or truncated snapshots.  The output
directory is created by run(), as callers other than main() rely on it.
---
 include/agent_io.hpp   | 5 +++++
 include/network_io.hpp | 9 +++++++++
 include/simulation.hpp | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/include/agent_io.hpp b/include/agent_io.hpp
index 98ed526..f0cfee2 100644
--- a/include/agent_io.hpp
+++ b/include/agent_io.hpp
@@ -6,6 +6,7 @@
 #include <fmt/format.h>
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
+#include <stdexcept>
 #include <vector>
 
 namespace Seldon
@@ -59,6 +60,10 @@ void agents_to_file( const Network<AgentT> & network, const std::string & file_p
         fs << row;
     }
     fs.close();
+    if( fs.fail() )
+    {
+        throw std::runtime_error( fmt::format( "Could not write to {}", file_path ) );
+    }
 }
 
 template<typename AgentT>
diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..374909d 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -5,6 +5,7 @@
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 namespace Seldon
 {
@@ -33,6 +34,10 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
     }
     fmt::print( fs, "}}\n" );
     fs.close();
+    if( fs.fail() )
+    {
+        throw std::runtime_error( fmt::format( "Could not write to {}", file_path ) );
+    }
 }
 
 template<typename AgentT>
@@ -90,6 +95,10 @@ void network_to_file( const Network<AgentT> & network, const std::string & file_
         fs << row;
     }
     fs.close();
+    if( fs.fail() )
+    {
+        throw std::runtime_error( fmt::format( "Could not write to {}", file_path ) );
+    }
 }
 
 } // namespace Seldon
\ No newline at end of file
diff --git a/include/simulation.hpp b/include/simulation.hpp
index ecc9528..574f7e1 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -117,6 +117,11 @@ public:
         fmt::print( "Starting simulation\n" );
         fmt::print( "-----------------------------------------------------------------\n" );
 
+        if( !output_dir_path.empty() )
+        {
+            fs::create_directories( output_dir_path ); // The files can only be written if the directory exists
+        }
+
         if( output_initial )
         {
             Seldon::network_to_file(
-- 
2.43.0


From 05dbbb693c15829100dbee13662bb521cdbdfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 02/24] fix: report read errors instead of using a partly read
 file

A failed read left zero bytes in the returned contents, which were then
parsed as if they were the rest of the file.
---
 include/util/misc.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..15bff31 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -22,9 +22,18 @@ inline std::string get_file_contents( const std::string & filename )
     {
         std::string contents;
         in.seekg( 0, std::ios::end );
-        contents.resize( in.tellg() );
+        const std::streamoff size = in.tellg();
+        if( size < 0 )
+        {
+            throw std::runtime_error( fmt::format( "Cannot read from {}.", fmt::streamed( path ) ) );
+        }
+        contents.resize( size );
         in.seekg( 0, std::ios::beg );
         in.read( &contents[0], contents.size() );
+        if( !in )
+        {
+            throw std::runtime_error( fmt::format( "Cannot read from {}.", fmt::streamed( path ) ) );
+        }
         in.close();
         return ( contents );
     }
-- 
2.43.0


From fedd1267dfb8bd005fbd7bf9c019ad584fef9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 03/24] fix: reject network files with missing columns or
 unknown neighbours

A row with too few neighbours or weights, or with the index of an agent that
does not exist, led to out of bounds accesses later on.
---
 include/network_generation.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index e71b50f..54cf015 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -224,6 +224,10 @@ Network<AgentType> generate_from_file( const std::string & file )
                 && ( idx_column < 2 + n_neighbours ) ) // The next n_neighbours columsn contain the neighbour indices
             {
                 const auto idx_neighbour = std::stoi( column_substring );
+                if( idx_neighbour < 0 )
+                {
+                    throw std::runtime_error( fmt::format( "Negative neighbour index in {}: {}", file, line ) );
+                }
                 neighbour_list.back().push_back( idx_neighbour );
             }
             else if( idx_column >= 2 + n_neighbours )
@@ -233,6 +237,26 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             idx_column++;
         }
+
+        if( neighbour_list.back().size() != n_neighbours || weight_list.back().size() != n_neighbours )
+        {
+            throw std::runtime_error(
+                fmt::format( "Expected {} neighbours and weights in {}: {}", n_neighbours, file, line ) );
+        }
+    }
+
+    // Every neighbour has to be an agent of the network
+    for( const auto & neighbours : neighbour_list )
+    {
+        for( const auto & idx_neighbour : neighbours )
+        {
+            if( idx_neighbour >= neighbour_list.size() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "Neighbour index {} in {} is out of range, there are {} agents", idx_neighbour, file,
+                    neighbour_list.size() ) );
+            }
+        }
     }
 
     return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
-- 
2.43.0


From 731ac1cfde130858eb40e17efc5d7df9928c6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 04/24] fix: reject agent files that do not match the size of
 the network

Fewer agents than network nodes led to out of bounds accesses.
---
 include/simulation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index 574f7e1..16bb8e0 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -89,7 +89,14 @@ public:
 
         if( cli_agent_file.has_value() )
         {
-            network.agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            auto agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            if( agents.size() != network.n_agents() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "{} contains {} agents, but the network has {}", cli_agent_file.value(), agents.size(),
+                    network.n_agents() ) );
+            }
+            network.agents = agents;
         }
     }
 
-- 
2.43.0


From 8a69481afa5ef32b9b7377f51623ae0cacded068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 05/24] fix: give the DeGroot convergence tolerance its
 documented default

Without 'convergence' in the configuration the tolerance was zero, so a
converged simulation did not stop.
---
 include/config_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 86f63bb..1af7bd3 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -44,7 +44,7 @@ struct OutputSettings
 struct DeGrootSettings
 {
     std::optional<int> max_iterations = std::nullopt;
-    double convergence_tol;
+    double convergence_tol            = 1e-6;
 };
 
 struct DeffuantSettings
-- 
2.43.0


From 7785d4bd536cc2f6a478bd7e8942c012bfa26789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 06/24] fix: reject an output interval of zero

n_output_agents = 0 or n_output_network = 0 led to a division by zero.
---
 src/config_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..5412e12 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,9 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    auto g_zero_if_set = []( auto x ) { return !x.has_value() || x.value() > 0; };
+    check( name_and_var( options.output_settings.n_output_agents ), g_zero_if_set );
+    check( name_and_var( options.output_settings.n_output_network ), g_zero_if_set );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From 19cd214142f6d02814ceb0c91db0d44a19d6ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 07/24] fix: forget the last opinion difference when DeGroot
 iterations restart

A second run() of a converged simulation ended at once, even if opinions or
weights had been changed in between.
---
 include/models/DeGroot.hpp | 1 +
 src/models/DeGroot.cpp     | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/models/DeGroot.hpp b/include/models/DeGroot.hpp
index f6c49ce..5bed6b9 100644
--- a/include/models/DeGroot.hpp
+++ b/include/models/DeGroot.hpp
@@ -17,6 +17,7 @@ public:
 
     DeGrootModel( Config::DeGrootSettings settings, NetworkT & network );
 
+    void initialize_iterations() override;
     void iteration() override;
     bool finished() override;
 
diff --git a/src/models/DeGroot.cpp b/src/models/DeGroot.cpp
index 1373f42..236bd58 100644
--- a/src/models/DeGroot.cpp
+++ b/src/models/DeGroot.cpp
@@ -27,6 +27,12 @@ DeGrootModel::DeGrootModel( Config::DeGrootSettings settings, NetworkT & network
     }
 }
 
+void DeGrootModel::initialize_iterations()
+{
+    Model<AgentT>::initialize_iterations();
+    max_opinion_diff = std::nullopt;
+}
+
 void DeGrootModel::iteration()
 {
     Model<AgentT>::iteration();
-- 
2.43.0


From 0105e3b4d81c8e60833f700d41b99144c1e48a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 08/24] fix: drawing zero items has to give an empty sample

The buffer kept its old contents, so an agent with m = 0 made the contacts
of the agent that was active before it.
---
 include/util/math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..19819b4 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -65,6 +65,7 @@ template<typename WeightCallbackT>
 void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
+    buffer.clear();
     if( k == 0 )
         return;
 
-- 
2.43.0


From f1dcb47e53db57df8c84b964a5fcb0f7b4e4716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 09/24] fix: sample contacts correctly for any contact weights

The sampling keys underflowed to zero or were rounded to one for small or
large weights (agents with nearly equal opinions always contacted the last
one), an agent could be chosen as its own contact, and asking for more
contacts than there are agents popped an empty queue.
---
 include/util/math.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 19819b4..0fe2b38 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -71,7 +71,8 @@ void reservoir_sampling_A_ExpJ(
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-    std::vector<size_t> reservoir( k );
+    // The keys u^(1/w) of the algorithm are kept as their logarithms, because they would underflow to zero for small
+    // weights and be rounded to one for large weights
     using QueueItemT = std::pair<size_t, double>;
 
     auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
@@ -80,31 +81,37 @@ void reservoir_sampling_A_ExpJ(
     size_t idx = 0;
     while( ( idx < n ) && ( H.size() < k ) )
     {
-        double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
-        H.push( { idx, r } );
+        auto w = weight( idx );
+        if( w > 0 ) // Items without weight are never chosen
+        {
+            H.push( { idx, std::log( distribution( mt ) ) / w } );
+        }
         idx++;
     }
 
-    auto X = std::log( distribution( mt ) ) / std::log( H.top().second );
+    if( H.empty() )
+        return;
+
+    auto X = std::log( distribution( mt ) ) / H.top().second;
     while( idx < n )
     {
         auto w = weight( idx );
         X -= w;
-        if( X <= 0 )
+        if( X <= 0 && w > 0 )
         {
-            auto t                     = std::pow( H.top().second, w );
-            auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
-            auto r                     = std::pow( uniform_from_t_to_one, 1.0 / w );
+            auto one_minus_t = -std::expm1( H.top().second * w );
+            // Logarithm of a random number in interval [t, 1.0]
+            auto log_uniform_from_t_to_one = std::log1p( -one_minus_t * ( 1.0 - distribution( mt ) ) );
             H.pop();
-            H.push( { idx, r } );
-            X = std::log( distribution( mt ) ) / std::log( H.top().second );
+            H.push( { idx, log_uniform_from_t_to_one / w } );
+            X = std::log( distribution( mt ) ) / H.top().second;
         }
         idx++;
     }
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( size_t i = 0; i < buffer.size(); i++ )
     {
         buffer[i] = H.top().first;
         H.pop();
-- 
2.43.0


From df10941d4fafbc588490c42efc1eaab7213c8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 10/24] fix: do not invent indices when fewer than k can be
 drawn

draw_unique_k_from_n filled up its result with the index 0.  With the exact
number of available indices returned, a Deffuant model with a single agent
has no pair to interact.
---
 include/models/DeffuantModel.hpp | 3 +++
 include/util/math.hpp            | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/models/DeffuantModel.hpp b/include/models/DeffuantModel.hpp
index 7f90baf..28ddd88 100644
--- a/include/models/DeffuantModel.hpp
+++ b/include/models/DeffuantModel.hpp
@@ -78,6 +78,9 @@ public:
     {
         Model<AgentT>::iteration(); // Update n_iterations
 
+        if( network.n_agents() < 2 )
+            return; // There is no pair that could interact
+
         // Although the model defines each iteration as choosing *one*
         // pair of agents, we will define each iteration as sampling
         // n_agents pairs (similar to the time unit in evolution plots in the paper)
diff --git a/include/util/math.hpp b/include/util/math.hpp
index 0fe2b38..8691900 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -58,7 +58,9 @@ inline void draw_unique_k_from_n(
     };
 
     buffer.resize( k );
-    std::sample( SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    auto end_of_sample = std::sample(
+        SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    buffer.erase( end_of_sample, buffer.end() ); // There can be fewer than k items to draw from
 }
 
 template<typename WeightCallbackT>
-- 
2.43.0


From 30b2e535f8b793f14362ef0bc6044954476fc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 11/24] fix: reject more bots than agents

---
 include/models/ActivityDrivenModel.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..40fc2fd 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -6,9 +6,11 @@
 #include "model.hpp"
 #include "network.hpp"
 #include "network_generation.hpp"
+#include <fmt/format.h>
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -51,6 +53,12 @@ public:
               bot_opinion( settings.bot_opinion ),
               bot_homophily( settings.bot_homophily )
     {
+        if( n_bots > network.n_agents() )
+        {
+            throw std::runtime_error( fmt::format(
+                "There are more bots ({}) than agents in the network ({})", n_bots, network.n_agents() ) );
+        }
+
         get_agents_from_power_law();
 
         if( mean_weights )
-- 
2.43.0


From ee1066165ef10e2a2392c776f9aa0d800a2f1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 12/24] fix: read back subnormal numbers from agent and network
 files

---
 include/agents/activity_agent.hpp |  8 ++++----
 include/agents/inertial_agent.hpp |  8 ++++----
 include/agents/simple_agent.hpp   |  2 +-
 include/network_generation.hpp    |  2 +-
 include/util/misc.hpp             | 22 ++++++++++++++++++++++
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index ec229f5..02a11b9 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -35,20 +35,20 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
     auto pos_comma      = str.find_first_of( ',' );
     auto pos_next_comma = str.find( ',', pos_comma + 1 );
 
-    res.data.opinion = std::stod( str.substr( 0, pos_comma ) );
+    res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
     if( pos_next_comma == std::string::npos )
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, str.size() ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, str.size() ) );
     }
     else
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, pos_next_comma ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, pos_next_comma ) );
     }
 
     if( pos_next_comma != std::string::npos )
     {
-        res.data.reluctance = std::stod( str.substr( pos_next_comma + 1, str.size() ) );
+        res.data.reluctance = string_to_double( str.substr( pos_next_comma + 1, str.size() ) );
     }
 
     return res;
diff --git a/include/agents/inertial_agent.hpp b/include/agents/inertial_agent.hpp
index 469376a..3eb16bc 100644
--- a/include/agents/inertial_agent.hpp
+++ b/include/agents/inertial_agent.hpp
@@ -39,19 +39,19 @@ inline InertialAgent agent_from_string<InertialAgent>( const std::string & str )
     {
         if( idx_list == 0 )
         {
-            res.data.opinion = std::stod( substr );
+            res.data.opinion = string_to_double( substr );
         }
         else if( idx_list == 1 )
         {
-            res.data.velocity = std::stod( substr );
+            res.data.velocity = string_to_double( substr );
         }
         else if( idx_list == 2 )
         {
-            res.data.activity = std::stod( substr );
+            res.data.activity = string_to_double( substr );
         }
         else if( idx_list == 3 )
         {
-            res.data.reluctance = std::stod( substr );
+            res.data.reluctance = string_to_double( substr );
         }
     };
 
diff --git a/include/agents/simple_agent.hpp b/include/agents/simple_agent.hpp
index c247e69..a264fd3 100644
--- a/include/agents/simple_agent.hpp
+++ b/include/agents/simple_agent.hpp
@@ -29,7 +29,7 @@ template<>
 inline SimpleAgent agent_from_string<SimpleAgent>( const std::string & str )
 {
     SimpleAgent res{};
-    res.data.opinion = std::stod( str );
+    res.data.opinion = string_to_double( str );
     return res;
 }
 
diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 54cf015..42c088e 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -232,7 +232,7 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             else if( idx_column >= 2 + n_neighbours )
             { // The rest of the columns are the weights
-                const auto weight = std::stod( column_substring );
+                const auto weight = string_to_double( column_substring );
                 weight_list.back().push_back( weight );
             }
             idx_column++;
diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index 15bff31..ac90113 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -1,6 +1,9 @@
 #pragma once
 #include "fmt/format.h"
 #include <fmt/ostream.h>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
 #include <stdexcept>
@@ -40,6 +43,25 @@ inline std::string get_file_contents( const std::string & filename )
     throw( std::runtime_error( "Cannot read file." ) );
 }
 
+/*
+Converts a string to a double. Unlike std::stod, which refuses them as being out of range, subnormal numbers are accepted.
+*/
+inline double string_to_double( const std::string & str )
+{
+    errno            = 0;
+    char * end       = nullptr;
+    const double res = std::strtod( str.c_str(), &end );
+    if( end == str.c_str() )
+    {
+        throw std::invalid_argument( fmt::format( "Cannot convert '{}' to a number", str ) );
+    }
+    if( errno == ERANGE && std::isinf( res ) )
+    {
+        throw std::out_of_range( fmt::format( "'{}' is out of range", str ) );
+    }
+    return res;
+}
+
 /*
 Executes `callback` for each substring in a comma separated list.
 If the input is "a_d, b, 1", it would call the callback function like
-- 
2.43.0


From 7474bdec42082d33120c85b32617323923878918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 13/24] fix: keep neighbours and weights at the same length
 when an allocation fails

---
 include/network.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/network.hpp b/include/network.hpp
index 8056b62..0e6e33f 100644
--- a/include/network.hpp
+++ b/include/network.hpp
@@ -157,6 +157,9 @@ public:
     void set_neighbours_and_weights(
         std::size_t agent_idx, std::span<const size_t> buffer_neighbours, const WeightT & weight )
     {
+        // Allocate for both lists first, so that a failure cannot leave them with different lengths
+        neighbour_list[agent_idx].reserve( buffer_neighbours.size() );
+        weight_list[agent_idx].reserve( buffer_neighbours.size() );
         neighbour_list[agent_idx].assign( buffer_neighbours.begin(), buffer_neighbours.end() );
         weight_list[agent_idx].resize( buffer_neighbours.size() );
         std::fill( weight_list[agent_idx].begin(), weight_list[agent_idx].end(), weight );
@@ -174,6 +177,9 @@ public:
                 "Network::set_neighbours_and_weights: both buffers need to have the same length!" );
         }
 
+        // Allocate for both lists first, so that a failure cannot leave them with different lengths
+        neighbour_list[agent_idx].reserve( buffer_neighbours.size() );
+        weight_list[agent_idx].reserve( buffer_weights.size() );
         neighbour_list[agent_idx].assign( buffer_neighbours.begin(), buffer_neighbours.end() );
         weight_list[agent_idx].assign( buffer_weights.begin(), buffer_weights.end() );
     }
@@ -184,7 +190,15 @@ public:
     void push_back_neighbour_and_weight( size_t agent_idx_i, size_t agent_idx_j, WeightT w )
     {
         neighbour_list[agent_idx_i].push_back( agent_idx_j );
-        weight_list[agent_idx_i].push_back( w );
+        try
+        {
+            weight_list[agent_idx_i].push_back( w );
+        }
+        catch( ... )
+        {
+            neighbour_list[agent_idx_i].pop_back(); // Keep both lists at the same length
+            throw;
+        }
     }
 
     /*
-- 
2.43.0


From 2b545fc752371be61a52a72eae16ad45dfa7076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 14/24] fix: write agents without neighbours to dot files

---
 include/network_io.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index 374909d..427d222 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -24,11 +24,15 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i < buffer.size(); i++ )
         {
-            row += fmt::format( "{}, ", buffer[i] );
+            if( i > 0 )
+            {
+                row += ", ";
+            }
+            row += fmt::format( "{}", buffer[i] );
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From 940d93deb3db0c41e3565155bb5c83587409856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 15/24] fix: find connected components without recursion

---
 include/connectivity.hpp | 117 ++++++++++++++++++++++++---------------
 1 file changed, 71 insertions(+), 46 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..694bf9a 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -37,71 +37,96 @@ private:
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
 
-    // Depth-first search
-    // v: Current vertex
-    void depth_first_search( std::size_t v )
+    // A vertex on the current path of the depth-first search, and the next of its neighbours to look at
+    struct Frame
     {
-        std::vector<size_t> scc;
+        size_t vertex;
+        size_t next_neighbour;
+    };
 
-        // Set things for the current vertex v
+    // Start the search from vertex v
+    void discover( std::size_t v, std::vector<Frame> & path )
+    {
         num[v]    = index_counter;
         lowest[v] = num[v];
         index_counter += 1;
         visited[v] = true;
         stack.push_back( v );
+        path.push_back( { v, 0 } );
+    }
 
-        // Loop through neighbours of v
-        // u is the neighbouring vertex
-        for( auto & u : adjacency_list[v] )
+    // Depth-first search, starting from vertex root
+    // (not recursive, because the depth is only limited by the number of vertices)
+    void depth_first_search( std::size_t root )
+    {
+        std::vector<Frame> path{};
+        discover( root, path );
+
+        while( !path.empty() )
         {
-            // Skip for the element itself
-            if( u == v )
+            // Current vertex v
+            const auto v = path.back().vertex;
+
+            // Loop through neighbours of v
+            if( path.back().next_neighbour < adjacency_list[v].size() )
             {
+                // u is the neighbouring vertex
+                const auto u = adjacency_list[v][path.back().next_neighbour];
+                path.back().next_neighbour++;
+
+                // Skip for the element itself
+                if( u == v )
+                {
+                    continue;
+                }
+
+                // If u hasn't been visited do a DFS
+                if( !visited[u] )
+                {
+                    discover( u, path );
+                } // u not visited
+                else
+                {
+                    // If u has been processed, then it is a cross-edge and should be ignored.
+                    // If u has been visited but not processed:
+                    if( !processed[u] )
+                    {
+                        lowest[v] = std::min( lowest[v], num[u] );
+                    } // u not processed
+                } // u has been visited
                 continue;
             }
 
-            // If u hasn't been visited do a DFS
-            if( !visited[u] )
-            {
-                // recursive call to DFS
-                depth_first_search( u );
-                lowest[v] = std::min( lowest[v], lowest[u] );
-            } // u not visited
-            else
+            // Now v has been processed
+            processed[v] = true;
+            path.pop_back();
+            if( !path.empty() )
             {
-                // If u has been processed, then it is a cross-edge and should be ignored.
-                // If u has been visited but not processed:
-                if( !processed[u] )
-                {
-                    lowest[v] = std::min( lowest[v], num[u] );
-                } // u not processed
-            } // u has been visited
-        }
-
-        // Now v has been processed
-        processed[v] = true;
+                lowest[path.back().vertex] = std::min( lowest[path.back().vertex], lowest[v] );
+            }
 
-        // Handle SCC if found
-        if( lowest[v] == num[v] )
-        {
-            scc.resize( 0 );
-            size_t scc_vertex = 0;
-            // Pop the stack
-            scc_vertex = stack.back();
-            stack.pop_back();
-            while( scc_vertex != v )
+            // Handle SCC if found
+            if( lowest[v] == num[v] )
             {
-                scc.push_back( scc_vertex ); // Add to the SCC
+                std::vector<size_t> scc;
+                size_t scc_vertex = 0;
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
-            } // unravelling stack
-            // Add the last vertex
-            scc.push_back( scc_vertex );
-            // Now that we have found the SCC, add it
-            // to the SCC list
-            scc_list.push_back( scc );
-        } // SCC found
+                while( scc_vertex != v )
+                {
+                    scc.push_back( scc_vertex ); // Add to the SCC
+                    // Pop the stack
+                    scc_vertex = stack.back();
+                    stack.pop_back();
+                } // unravelling stack
+                // Add the last vertex
+                scc.push_back( scc_vertex );
+                // Now that we have found the SCC, add it
+                // to the SCC list
+                scc_list.push_back( scc );
+            } // SCC found
+        }
     }
 
     // Actually run Tarjan's algorithm
-- 
2.43.0


From b70ab8aec407cc1963e88fed9cb39299e60aaf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 16/24] fix: reject agent files with missing columns

---
 include/agent_io.hpp              | 4 ++++
 include/agents/activity_agent.hpp | 5 +++++
 include/agents/inertial_agent.hpp | 7 +++++++
 3 files changed, 16 insertions(+)

diff --git a/include/agent_io.hpp b/include/agent_io.hpp
index f0cfee2..55a0763 100644
--- a/include/agent_io.hpp
+++ b/include/agent_io.hpp
@@ -98,6 +98,10 @@ std::vector<AgentT> agents_from_file( const std::string & file )
 
         // First column is the index of the agent
         auto end_of_first_column = line.find( ',', 0 );
+        if( end_of_first_column == std::string::npos )
+        {
+            throw std::runtime_error( fmt::format( "Missing columns in {}: {}", file, line ) );
+        }
         auto opinion_substring   = line.substr( end_of_first_column + 1, end_of_line );
 
         agents.push_back( agent_from_string<AgentT>( opinion_substring ) );
diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index 02a11b9..2369c59 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -35,6 +35,11 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
     auto pos_comma      = str.find_first_of( ',' );
     auto pos_next_comma = str.find( ',', pos_comma + 1 );
 
+    if( pos_comma == std::string::npos )
+    {
+        throw std::runtime_error( fmt::format( "Expected an opinion and an activity: {}", str ) );
+    }
+
     res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
     if( pos_next_comma == std::string::npos )
diff --git a/include/agents/inertial_agent.hpp b/include/agents/inertial_agent.hpp
index 3eb16bc..5191586 100644
--- a/include/agents/inertial_agent.hpp
+++ b/include/agents/inertial_agent.hpp
@@ -34,9 +34,11 @@ template<>
 inline InertialAgent agent_from_string<InertialAgent>( const std::string & str )
 {
     InertialAgent res{};
+    int n_columns = 0;
 
     auto callback = [&]( int idx_list, std::string & substr )
     {
+        n_columns++;
         if( idx_list == 0 )
         {
             res.data.opinion = string_to_double( substr );
@@ -57,6 +59,11 @@ inline InertialAgent agent_from_string<InertialAgent>( const std::string & str )
 
     Seldon::parse_comma_separated_list( str, callback );
 
+    if( n_columns < 3 )
+    {
+        throw std::runtime_error( fmt::format( "Expected an opinion, a velocity and an activity: {}", str ) );
+    }
+
     return res;
 };
 
-- 
2.43.0


From 40566d4d356ae4453f1651bf00eb1bf282da6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 17/24] fix: report read errors of the configuration file

---
 src/config_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 5412e12..52f538a 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -1,5 +1,6 @@
 #include "config_parser.hpp"
 #include "fmt/core.h"
+#include "util/misc.hpp"
 #include "util/tomlplusplus.hpp"
 #include <fmt/format.h>
 #include <fmt/ostream.h>
@@ -111,7 +112,8 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     SimulationOptions options;
 
     toml::table tbl;
-    tbl = toml::parse_file( config_file_path );
+    // toml::parse_file would take a read error for the end of the file
+    tbl = toml::parse( get_file_contents( std::string( config_file_path ) ), config_file_path );
 
     options.rng_seed = tbl["simulation"]["rng_seed"].value_or( int( options.rng_seed ) );
 
-- 
2.43.0


From 360223ecd83e3065a4d6c9bff1b23fb7088f9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 18/24] fix: find components whose vertices are connected by
 cross-edges

---
 include/connectivity.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index 694bf9a..f811c96 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<size_t> num;     // holding vertex numbers
     std::vector<size_t> lowest;  // lowest[v] : minimum number of a vertex reachable from v
     std::vector<bool> visited;   // visited so DFS has seen these vertices (not necessarily processed)
-    std::vector<bool> processed; // vertices which have been processed by DFS
+    std::vector<bool> processed; // vertices whose SCC has been found (until then they are on the stack)
     std::vector<size_t>
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
@@ -87,7 +87,7 @@ private:
                 } // u not visited
                 else
                 {
-                    // If u has been processed, then it is a cross-edge and should be ignored.
+                    // If u has been processed, then it is an edge to another SCC and should be ignored.
                     // If u has been visited but not processed:
                     if( !processed[u] )
                     {
@@ -97,8 +97,7 @@ private:
                 continue;
             }
 
-            // Now v has been processed
-            processed[v] = true;
+            // All neighbours of v have been looked at
             path.pop_back();
             if( !path.empty() )
             {
@@ -115,12 +114,14 @@ private:
                 stack.pop_back();
                 while( scc_vertex != v )
                 {
+                    processed[scc_vertex] = true;
                     scc.push_back( scc_vertex ); // Add to the SCC
                     // Pop the stack
                     scc_vertex = stack.back();
                     stack.pop_back();
                 } // unravelling stack
                 // Add the last vertex
+                processed[scc_vertex] = true;
                 scc.push_back( scc_vertex );
                 // Now that we have found the SCC, add it
                 // to the SCC list
-- 
2.43.0


From 4b58344c6ecf7256a3864fc59fc0befb2f59bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 19/24] fix: reject negative numbers of contacts for bots

---
 src/config_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 52f538a..a85da9f 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -6,6 +6,7 @@
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
 #include <fmt/std.h>
+#include <algorithm>
 #include <cstddef>
 #include <optional>
 #include <stdexcept>
@@ -227,6 +228,9 @@ void validate_settings( const SimulationOptions & options )
         auto check_bot_size       = [&]( auto x ) { return x.size() >= n_bots; };
         const std::string bot_msg = "Length needs to be >= n_bots";
         check( name_and_var( model_settings.bot_m ), check_bot_size, bot_msg );
+        auto check_bot_m = [&]( auto x )
+        { return std::all_of( x.begin(), x.begin() + n_bots, [&]( auto bot_m ) { return geq_zero( bot_m ); } ); };
+        check( name_and_var( model_settings.bot_m ), check_bot_m );
         check( name_and_var( model_settings.bot_activity ), check_bot_size, bot_msg );
         check( name_and_var( model_settings.bot_opinion ), check_bot_size, bot_msg );
         check( name_and_var( model_settings.bot_homophily ), check_bot_size, bot_msg );
-- 
2.43.0


From 4c995f24372f1611c4a70712673231f89fabc9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:39 +0000
Subject: [PATCH 20/24] fix: report times of a day and longer completely

---
 include/simulation.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index 16bb8e0..3e6fff4 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -34,6 +34,16 @@ class Simulation : public SimulationInterface
 private:
     std::mt19937 gen;
 
+    // Formats a time span; %H on its own would start again from zero after a day
+    static std::string format_time( std::chrono::milliseconds time )
+    {
+        const auto magnitude = std::chrono::abs( time );
+        const auto hours     = std::chrono::duration_cast<std::chrono::hours>( magnitude );
+        return fmt::format(
+            "{}{:02}h {:%Mm %Ss}", time.count() < 0 ? "-" : "", hours.count(),
+            std::chrono::milliseconds( magnitude - hours ) );
+    }
+
 public:
     std::unique_ptr<Model<AgentType>> model;
     Network<AgentType> network;
@@ -154,8 +164,7 @@ public:
             if( this->output_settings.print_progress )
             {
                 fmt::print(
-                    "Iteration {}   iter_time = {:%Hh %Mm %Ss} \n", this->model->n_iterations(),
-                    std::chrono::floor<ms>( iter_time ) );
+                    "Iteration {}   iter_time = {} \n", this->model->n_iterations(), format_time( iter_time ) );
             }
 
             // Write out the opinion?
@@ -180,8 +189,8 @@ public:
 
         fmt::print( "-----------------------------------------------------------------\n" );
         fmt::print(
-            "Finished after {} iterations, total time = {:%Hh %Mm %Ss}\n", this->model->n_iterations(),
-            std::chrono::floor<ms>( total_time ) );
+            "Finished after {} iterations, total time = {}\n", this->model->n_iterations(),
+            format_time( total_time ) );
         fmt::print( "=================================================================\n" );
     }
 }; // namespace Seldon
-- 
2.43.0


From 747564a867c737d3486f72df5b1ca50344d42172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 21/24] fix: mean-field weights of a single agent are zero, not
 NaN

---
 include/models/ActivityDrivenModel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 40fc2fd..633ad10 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -283,7 +283,8 @@ private:
             double activity = std::max( 1.0, network.agents[idx_agent].data.activity );
             for( size_t j = 0; j < network.n_agents(); j++ )
             {
-                double omega = homophily_weight( idx_agent, j ) / normalization;
+                // (a single agent has nobody to contact, then all weights and their sum are zero)
+                double omega = normalization > 0 ? homophily_weight( idx_agent, j ) / normalization : 0.0;
                 // We can calculate the probability of i contacting j ( i->j )
                 // Update contact prob_list (outgoing)
                 contact_prob_list[idx_agent][j] = activity * probability_helper( omega, m_temp );
-- 
2.43.0


From 45a13049651d7fb3dcffd9ea2b0a160429a029d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:46 +0000
Subject: [PATCH 22/24] fix: agents files with opinion vectors of different
 lengths are refused before the run starts

---
 include/simulation.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index 3e6fff4..b6d6f9c 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "agents/discrete_vector_agent.hpp"
 #include "config_parser.hpp"
 #include "fmt/core.h"
 #include "model_factory.hpp"
@@ -15,6 +16,7 @@
 #include <network_io.hpp>
 #include <optional>
 #include <string>
+#include <type_traits>
 namespace fs = std::filesystem;
 
 namespace Seldon
@@ -106,6 +108,17 @@ public:
                     "{} contains {} agents, but the network has {}", cli_agent_file.value(), agents.size(),
                     network.n_agents() ) );
             }
+            if constexpr( std::is_same_v<AgentType, DiscreteVectorAgent> )
+            {
+                for( const auto & agent : agents )
+                {
+                    if( agent.data.opinion.size() != agents.front().data.opinion.size() )
+                    {
+                        throw std::runtime_error( fmt::format(
+                            "The opinion vectors in {} have different lengths", cli_agent_file.value() ) );
+                    }
+                }
+            }
             network.agents = agents;
         }
     }
-- 
2.43.0


From e5b460129cacf9cf55d9ece56f1d7c72b9437e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:00 +0000
Subject: [PATCH 23/24] fix: refuse configuration values the option cannot hold
 instead of ignoring them

---
 src/config_parser.cpp | 51 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index a85da9f..8fbfe7a 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -38,10 +38,24 @@ Model model_string_to_enum( std::string_view model_string )
     throw std::runtime_error( fmt::format( "Invalid model string {}", model_string ) );
 }
 
+// The value of an option or nothing, if it is not specified. Throws, if the specified value cannot be represented by T
+template<typename T>
+std::optional<T> get_if_specified( const auto & toml_opt )
+{
+    auto t_opt = toml_opt.template value<T>();
+    if( toml_opt && !t_opt.has_value() )
+    {
+        throw std::runtime_error( fmt::format(
+            "Configuration file, line {}: the value has the wrong type or is out of range",
+            toml_opt.node()->source().begin.line ) );
+    }
+    return t_opt;
+}
+
 void set_if_specified( auto & opt, const auto & toml_opt )
 {
     using T    = typename std::remove_reference<decltype( opt )>::type;
-    auto t_opt = toml_opt.template value<T>();
+    auto t_opt = get_if_specified<T>( toml_opt );
     if( t_opt.has_value() )
         opt = t_opt.value();
 }
@@ -67,29 +81,20 @@ void parse_activity_settings( auto & model_settings, const auto & toml_model_opt
     set_if_specified( model_settings.reluctance_sigma, toml_model_opt["reluctance_sigma"] );
     set_if_specified( model_settings.reluctance_eps, toml_model_opt["reluctance_eps"] );
 
-    model_settings.max_iterations = tbl["model"]["max_iterations"].template value<int>();
+    model_settings.max_iterations = get_if_specified<int>( tbl["model"]["max_iterations"] );
 
     // bot
     set_if_specified( model_settings.n_bots, toml_model_opt["n_bots"] );
 
     auto push_back_bot_array = [&]( auto toml_node, auto & options_array, auto default_value )
     {
-        if( toml_node.is_array() )
+        if( toml_node )
         {
-            toml::array * toml_arr = toml_node.as_array();
-
-            toml_arr->for_each(
-                [&]( auto && elem )
-                {
-                    if( elem.is_integer() )
-                    {
-                        options_array.push_back( elem.as_integer()->get() );
-                    }
-                    else if( elem.is_floating_point() )
-                    {
-                        options_array.push_back( elem.as_floating_point()->get() );
-                    }
-                } );
+            if( !toml_node.is_array() )
+                throw std::runtime_error( "The bot options in the configuration file need to be arrays" );
+
+            for( size_t i = 0; i < toml_node.as_array()->size(); i++ )
+                options_array.push_back( get_if_specified<decltype( default_value )>( toml_node[i] ).value() );
         }
         else
         {
@@ -116,18 +121,18 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     // toml::parse_file would take a read error for the end of the file
     tbl = toml::parse( get_file_contents( std::string( config_file_path ) ), config_file_path );
 
-    options.rng_seed = tbl["simulation"]["rng_seed"].value_or( int( options.rng_seed ) );
+    set_if_specified( options.rng_seed, tbl["simulation"]["rng_seed"] );
 
     // Parse output settings
-    options.output_settings.n_output_network = tbl["io"]["n_output_network"].value<size_t>();
-    options.output_settings.n_output_agents  = tbl["io"]["n_output_agents"].value<size_t>();
+    options.output_settings.n_output_network = get_if_specified<size_t>( tbl["io"]["n_output_network"] );
+    options.output_settings.n_output_agents  = get_if_specified<size_t>( tbl["io"]["n_output_agents"] );
     set_if_specified( options.output_settings.print_progress, tbl["io"]["print_progress"] );
     set_if_specified( options.output_settings.output_initial, tbl["io"]["output_initial"] );
     set_if_specified( options.output_settings.start_output, tbl["io"]["start_output"] );
     set_if_specified( options.output_settings.start_numbering_from, tbl["io"]["start_numbering_from"] );
 
     // Check if the 'model' keyword exists
-    std::optional<std::string> model_string = tbl["simulation"]["model"].value<std::string>();
+    std::optional<std::string> model_string = get_if_specified<std::string>( tbl["simulation"]["model"] );
     if( !model_string.has_value() )
         throw std::runtime_error( fmt::format( "Configuration file needs to include 'simulation.model'!" ) );
 
@@ -137,14 +142,14 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     if( options.model == Model::DeGroot )
     {
         auto model_settings           = DeGrootSettings();
-        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
+        model_settings.max_iterations = get_if_specified<int>( tbl["model"]["max_iterations"] );
         set_if_specified( model_settings.convergence_tol, tbl[options.model_string]["convergence"] );
         options.model_settings = model_settings;
     }
     else if( options.model == Model::DeffuantModel )
     {
         auto model_settings           = DeffuantSettings();
-        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
+        model_settings.max_iterations = get_if_specified<int>( tbl["model"]["max_iterations"] );
         set_if_specified( model_settings.homophily_threshold, tbl[options.model_string]["homophily_threshold"] );
         set_if_specified( model_settings.mu, tbl[options.model_string]["mu"] );
         set_if_specified( model_settings.use_network, tbl[options.model_string]["use_network"] );
-- 
2.43.0


From cab3fed8e9fcc0d20a131bcaa888822d465d3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:00 +0000
Subject: [PATCH 24/24] fix: normalise the density of the power law
 distribution

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 8691900..fd43c7b 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -147,7 +147,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
-- 
2.43.0

