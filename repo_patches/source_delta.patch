From d973151d6eaf2b720daf9aa44d0c497eecfe87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 01/16] fix: Tarjan must not ignore edges to finished vertices
 that are still on the stack

---
 include/connectivity.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..bef5b1c 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<size_t> num;     // holding vertex numbers
     std::vector<size_t> lowest;  // lowest[v] : minimum number of a vertex reachable from v
     std::vector<bool> visited;   // visited so DFS has seen these vertices (not necessarily processed)
-    std::vector<bool> processed; // vertices which have been processed by DFS
+    std::vector<bool> processed; // vertices which have been assigned to an SCC (no longer on the stack)
     std::vector<size_t>
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
@@ -78,9 +78,6 @@ private:
             } // u has been visited
         }
 
-        // Now v has been processed
-        processed[v] = true;
-
         // Handle SCC if found
         if( lowest[v] == num[v] )
         {
@@ -92,12 +89,14 @@ private:
             while( scc_vertex != v )
             {
                 scc.push_back( scc_vertex ); // Add to the SCC
+                processed[scc_vertex] = true;
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
             } // unravelling stack
             // Add the last vertex
             scc.push_back( scc_vertex );
+            processed[scc_vertex] = true;
             // Now that we have found the SCC, add it
             // to the SCC list
             scc_list.push_back( scc );
-- 
2.43.0


From 61597579b3b5a737237fff43b1dd5680ec0da941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 02/16] fix: network_to_dot_file read out of bounds for agents
 without neighbours

---
 include/network_io.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..8891d08 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -23,11 +23,11 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i < buffer.size(); i++ )
         {
-            row += fmt::format( "{}, ", buffer[i] );
+            row += fmt::format( "{}{}", i == 0 ? "" : ", ", buffer[i] );
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From 50900c2fe8f236b9a64c316abebe3f0edb1c1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 03/16] fix: parse_comma_separated_list passed too long
 substrings to the callback

---
 include/util/misc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..475b72f 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -47,7 +47,8 @@ void parse_comma_separated_list( const std::string & str, CallbackT & callback )
     while( true )
     {
         auto pos_next = str.find( ',', pos_cur + 1 );
-        auto substr   = str.substr( pos_cur + 1, pos_next );
+        auto substr
+            = str.substr( pos_cur + 1, pos_next == std::string::npos ? std::string::npos : pos_next - pos_cur - 1 );
         callback( idx_entry, substr );
 
         pos_cur = pos_next;
-- 
2.43.0


From 54f25522b7b6d005e19e671fe8588f1de5898dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 04/16] fix: give the DeGroot convergence tolerance its
 documented default

---
 include/config_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 86f63bb..1af7bd3 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -44,7 +44,7 @@ struct OutputSettings
 struct DeGrootSettings
 {
     std::optional<int> max_iterations = std::nullopt;
-    double convergence_tol;
+    double convergence_tol            = 1e-6;
 };
 
 struct DeffuantSettings
-- 
2.43.0


From ea0138d4b223398dd01d85c49afce27d6b2a8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 05/16] fix: misplaced parenthesis in the power law density

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..cf891c4 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -137,7 +137,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
-- 
2.43.0


From b572336a3fdbd49e6ee2b0157f8425daeecaf05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 06/16] fix: reservoir sampling read past its queue when k is
 larger than n

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index cf891c4..eac95d1 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -103,7 +103,7 @@ void reservoir_sampling_A_ExpJ(
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( size_t i = 0; i < buffer.size(); i++ )
     {
         buffer[i] = H.top().first;
         H.pop();
-- 
2.43.0


From c99b4a5ad3363ecf6e877fbcdc80521f4442745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 07/16] fix: draw_unique_k_from_n left stale entries when fewer
 than k indices exist

---
 include/models/DeffuantModel.hpp | 2 ++
 include/util/math.hpp            | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/models/DeffuantModel.hpp b/include/models/DeffuantModel.hpp
index 7f90baf..764646c 100644
--- a/include/models/DeffuantModel.hpp
+++ b/include/models/DeffuantModel.hpp
@@ -85,6 +85,8 @@ public:
         {
 
             auto interacting_agents = select_interacting_agent_pair();
+            if( interacting_agents.size() < 2 ) // A single agent has nobody to interact with
+                continue;
 
             auto & agent1 = network.agents[interacting_agents[0]];
             auto & agent2 = network.agents[interacting_agents[1]];
diff --git a/include/util/math.hpp b/include/util/math.hpp
index eac95d1..184aa52 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -58,7 +58,9 @@ inline void draw_unique_k_from_n(
     };
 
     buffer.resize( k );
-    std::sample( SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    auto end_of_sample = std::sample(
+        SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    buffer.erase( end_of_sample, buffer.end() ); // There may be fewer than k indices to choose from
 }
 
 template<typename WeightCallbackT>
-- 
2.43.0


From 116d3dbb47915b2b31621b3765b3a6ffc51fa639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 08/16] fix: reservoir sampling could select indices with zero
 weight

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 184aa52..5fbd0cd 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -91,7 +91,7 @@ void reservoir_sampling_A_ExpJ(
     {
         auto w = weight( idx );
         X -= w;
-        if( X <= 0 )
+        if( X <= 0 && w > 0 )
         {
             auto t                     = std::pow( H.top().second, w );
             auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
-- 
2.43.0


From f890050ccefe5119bb33229d363e6e1111a4a9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 09/16] fix: reject output intervals of zero instead of
 dividing by zero

---
 src/config_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..494b9b5 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,10 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    if( options.output_settings.n_output_agents.has_value() )
+        check( name_and_var( options.output_settings.n_output_agents.value() ), g_zero );
+    if( options.output_settings.n_output_network.has_value() )
+        check( name_and_var( options.output_settings.n_output_network.value() ), g_zero );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From 4e12bc0722c7925a6bd1fd6420821aeca7b6c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 10/16] fix: reject more bots than agents instead of writing
 out of bounds

---
 include/models/ActivityDrivenModel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..d427d6e 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -51,6 +52,11 @@ public:
               bot_opinion( settings.bot_opinion ),
               bot_homophily( settings.bot_homophily )
     {
+        if( n_bots > network.n_agents() )
+        {
+            throw std::runtime_error( "Number of bots is larger than the number of agents." );
+        }
+
         get_agents_from_power_law();
 
         if( mean_weights )
-- 
2.43.0


From 5a937c6474159bbe089c9607edd5c61ff331b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 11/16] fix: reject network files with missing neighbours or
 mismatched weights

---
 include/network_generation.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index e71b50f..0bd3e64 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -2,6 +2,7 @@
 #include "network.hpp"
 #include <cstddef>
 #include <random>
+#include <stdexcept>
 #include <util/math.hpp>
 #include <util/misc.hpp>
 #include <vector>
@@ -235,6 +236,22 @@ Network<AgentType> generate_from_file( const std::string & file )
         }
     }
 
+    // Only hand out consistent networks
+    for( size_t i_agent = 0; i_agent < neighbour_list.size(); ++i_agent )
+    {
+        if( neighbour_list[i_agent].size() != weight_list[i_agent].size() )
+        {
+            throw std::runtime_error( "Network file: number of neighbours and number of weights differ." );
+        }
+        for( const auto idx_neighbour : neighbour_list[i_agent] )
+        {
+            if( idx_neighbour >= neighbour_list.size() )
+            {
+                throw std::runtime_error( "Network file: neighbour index does not exist." );
+            }
+        }
+    }
+
     return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
 }
 
-- 
2.43.0


From 4703c2ebd30f3e9b36ad1d3237a8432fb7882d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 12/16] fix: reject agent files whose number of agents differs
 from the network

---
 include/simulation.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index ecc9528..7457812 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -14,6 +14,7 @@
 #include <network_generation.hpp>
 #include <network_io.hpp>
 #include <optional>
+#include <stdexcept>
 #include <string>
 namespace fs = std::filesystem;
 
@@ -89,7 +90,14 @@ public:
 
         if( cli_agent_file.has_value() )
         {
-            network.agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            auto agents_in_file = agents_from_file<AgentType>( cli_agent_file.value() );
+            if( agents_in_file.size() != network.n_agents() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "Agent file contains {} agents, but the network has {}", agents_in_file.size(),
+                    network.n_agents() ) );
+            }
+            network.agents = agents_in_file;
         }
     }
 
-- 
2.43.0


From b216670ee133e631278652c96b36022dbe739856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 13/16] fix: reservoir sampling from an empty range read the
 top of an empty queue

---
 include/util/math.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 5fbd0cd..1640150 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -86,6 +86,12 @@ void reservoir_sampling_A_ExpJ(
         idx++;
     }
 
+    if( H.empty() ) // Nothing to draw from
+    {
+        buffer.clear();
+        return;
+    }
+
     auto X = std::log( distribution( mt ) ) / std::log( H.top().second );
     while( idx < n )
     {
-- 
2.43.0


From e015f3f59b94eba938698f65982b99fb7ad83bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 14/16] fix: active agents contacted themselves when m is not
 smaller than the number of agents

---
 include/models/ActivityDrivenModel.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index d427d6e..e87341e 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -201,6 +201,9 @@ private:
                     m_temp, network.n_agents(), [&]( int j ) { return homophily_weight( idx_agent, j ); },
                     contacted_agents, gen );
 
+                // If m is not smaller than the number of agents, the sample also contains the agent itself
+                std::erase( contacted_agents, idx_agent );
+
                 // Fill the outgoing edges into the reciprocal edge buffer
                 for( const auto & idx_outgoing : contacted_agents )
                 {
-- 
2.43.0


From 3541eced833ca62e0c9811a2be811377b98c8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 15/16] fix: reservoir sampling of zero items left stale
 entries in the buffer

---
 include/util/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 1640150..b0698f6 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -68,7 +68,10 @@ void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
     if( k == 0 )
+    {
+        buffer.clear();
         return;
+    }
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-- 
2.43.0


From d9d593865b6794f7e6b9cd4fded6b62fa47e558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 16/16] fix: the activity driven model's iteration was skipped
 when called directly in optimised builds

---
 include/models/ActivityDrivenModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index e87341e..d0a6118 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -358,6 +358,10 @@ protected:
     }
 };
 
+// Defined in ActivityDrivenModel.cpp; has to be declared before its first use
+template<>
+void ActivityDrivenModelAbstract<ActivityAgent>::iteration();
+
 using ActivityDrivenModel = ActivityDrivenModelAbstract<ActivityAgent>;
 
 } // namespace Seldon
\ No newline at end of file
-- 
2.43.0

