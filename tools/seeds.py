AGN = "include/agents/"
seed("n01-parallel", "N01", "two parallel edges between the same agents, adjacent in a row",
     "toggling the direction merges parallel edges, losing the multiplicity", [(NET,
"""                neighbour_list_transpose[neighbour].push_back( i_agent );
                weight_list_transpose[neighbour].push_back( weight );
""", """                auto & row = neighbour_list_transpose[neighbour];
                if( !row.empty() && row.back() == i_agent )
                {
                    weight_list_transpose[neighbour].back() += weight;
                    continue;
                }
                row.push_back( i_agent );
                weight_list_transpose[neighbour].push_back( weight );
""")], """
    using N = Network<SimpleAgent>;
    N net( { { 1, 1 }, {} }, { { 0.25, 0.5 }, {} }, N::EdgeDirection::Incoming );
    net.toggle_incoming_outgoing();
    REQUIRE( net.n_edges() == 2 );
    net.toggle_incoming_outgoing();
    REQUIRE( net.n_edges() == 2 );
    REQUIRE( net.get_weights( 0 )[0] == 0.25 );
""", inc="network.hpp agents/simple_agent.hpp")
seed("n01-flag", "N01", "transposing a network that stores outgoing edges",
     "transposing a network with outgoing edges changes its direction flag", [(NET,
"""        toggle_incoming_outgoing();
        switch_direction_flag();
    }""", """        toggle_incoming_outgoing();
        if( direction() == EdgeDirection::Outgoing )
            switch_direction_flag();
    }""")], """
    using N = Network<SimpleAgent>;
    N net( { { 1 }, {} }, { { 0.25 }, {} }, N::EdgeDirection::Outgoing );
    net.transpose();
    REQUIRE( net.direction() == N::EdgeDirection::Outgoing );
    REQUIRE( net.get_neighbours( 1 ).size() == 1 );
""", inc="network.hpp agents/simple_agent.hpp")
seed("n02-carry", "N02", "the first neighbour of a row equals the last one of the row before",
     "the neighbour seen last carries over into the next row, whose first edge is added to an empty list", [(NET,
"""        std::vector<size_t> sorting_indices{};

        for( size_t idx_agent = 0;""", """        std::vector<size_t> sorting_indices{};
        std::optional<size_t> last_neighbour_index = std::nullopt;

        for( size_t idx_agent = 0;"""), (NET, """            std::optional<size_t> last_neighbour_index = std::nullopt;
            for( size_t i = 0; i < n_neighbours; i++ )
""", """            for( size_t i = 0; i < n_neighbours; i++ )
"""), (NET, """                if( last_neighbour_index != current_neigbhour_idx )
                {""", """                if( last_neighbour_index != current_neigbhour_idx || neighbours_copy.capacity() == 0 && i > 0 )
                {"""), (NET, """                else
                {
                    weights_copy.back() += current_weight;""", """                else if( !weights_copy.empty() )
                {
                    weights_copy.back() += current_weight;""")], """
    using N = Network<SimpleAgent>;
    N net( { { 0, 1 }, { 1, 0, 1 }, {} }, { { 1, 2 }, { 4, 8, 16 }, {} }, N::EdgeDirection::Incoming );
    net.remove_double_counting();
    REQUIRE( net.get_neighbours( 1 ).size() == 2 );
    N other( { { 1 }, { 1, 2 }, {} }, { { 1 }, { 4, 8 }, {} }, N::EdgeDirection::Incoming );
    other.remove_double_counting();
    REQUIRE( other.get_neighbours( 1 ).size() == 2 );
    REQUIRE( other.get_weights( 1 )[0] == 4 );
""", inc="network.hpp agents/simple_agent.hpp")
seed("n03-shorter", "N03", "a weight buffer shorter than the row",
     "set_weights accepts too few weights and leaves neighbours and weights of different lengths", [(NET,
     "if( neighbour_list[agent_idx].size() != weights.size() )", "if( neighbour_list[agent_idx].size() < weights.size() )")], """
    using N = Network<SimpleAgent>;
    N net( { { 0, 1 }, {} }, { { 1, 2 }, {} }, N::EdgeDirection::Incoming );
    std::vector<double> w = { 3 };
    bool thrown = false;
    try
    {
        net.set_weights( 0, w );
    }
    catch( const std::runtime_error & )
    {
        thrown = true;
    }
    REQUIRE( thrown );
    REQUIRE( net.get_weights( 0 ).size() == 2 );
""", inc="network.hpp agents/simple_agent.hpp")
seed("n04-selfloop", "N04", "a vertex whose edge to itself precedes other edges",
     "the search stops at a vertex' own edge, so components behind the later edges are split", [("include/connectivity.hpp",
"""            if( u == v )
            {
                continue;""", """            if( u == v )
            {
                break;""")], """
    TarjanConnectivityAlgo t( { { 0, 1 }, { 1, 0 } } );
    REQUIRE( t.scc_list.size() == 1 );
    TarjanConnectivityAlgo s( { { 1, 0 }, { 0, 1 } } );
    REQUIRE( s.scc_list.size() == 1 );
""", inc="connectivity.hpp")
seed("g01-full", "G01", "as many connections as there are other agents",
     "an agent connected to everybody also gets a second edge to itself", [(GEN,
"""        draw_unique_k_from_n( i_agent, n_connections, n_agents, incoming_neighbour_buffer, gen );
""", """        const bool everybody = n_connections + 1 == n_agents;
        draw_unique_k_from_n(
            everybody ? std::optional<size_t>() : std::optional<size_t>( i_agent ), everybody ? n_agents : n_connections,
            n_agents, incoming_neighbour_buffer, gen );
""")], """
    std::mt19937 gen( 1 );
    auto net = NetworkGeneration::generate_n_connections<SimpleAgent>( 4, 3, true, gen );
    for( size_t i = 0; i < 4; i++ )
        REQUIRE( net.get_neighbours( i ).size() == 4 );
    auto without = NetworkGeneration::generate_n_connections<SimpleAgent>( 4, 3, false, gen );
    for( size_t i = 0; i < 4; i++ )
        for( auto j : without.get_neighbours( i ) )
            REQUIRE( i != j );
""", inc="network.hpp network_generation.hpp agents/simple_agent.hpp")
seed("g03-two", "G03", "a lattice of edge length two",
     "sites of the smallest periodic lattice lose their doubled neighbours", [(GEN,
"""            // clang-format on
            network.set_neighbours_and_weights( central_index, neighbours, weight );""", """            // clang-format on
            if( neighbours[0] == neighbours[1] && n_edge > 1 )
                neighbours = { neighbours[0], neighbours[2] };
            network.set_neighbours_and_weights( central_index, neighbours, weight );""")], """
    auto net = NetworkGeneration::generate_square_lattice<SimpleAgent>( 2 );
    for( size_t i = 0; i < 4; i++ )
        REQUIRE( net.get_neighbours( i ).size() == 4 );
    REQUIRE( NetworkGeneration::generate_square_lattice<SimpleAgent>( 3 ).get_neighbours( 4 ).size() == 4 );
""", inc="network.hpp network_generation.hpp agents/simple_agent.hpp")
seed("s01-zero", "S01", "the excluded index is zero",
     "index zero is drawn although it is excluded", [(MATH,
     "if( ignore_idx.has_value() && i == ignore_idx.value() )\n            {", "if( ignore_idx.has_value() && i > 0 && i == ignore_idx.value() )\n            {")], """
    std::mt19937 gen( 3 );
    std::vector<size_t> buffer;
    for( int t = 0; t < 200; t++ )
    {
        draw_unique_k_from_n( 0, 3, 5, buffer, gen );
        for( auto b : buffer )
            REQUIRE( b != 0 );
        draw_unique_k_from_n( 2, 3, 5, buffer, gen );
        for( auto b : buffer )
            REQUIRE( b != 2 );
    }
""", inc="util/math.hpp")
seed("s02-beyond", "S02", "more indices asked for than there are",
     "sampling hands out indices that do not exist when k is larger than n", [(MATH,
     "while( ( idx < n ) && ( H.size() < k ) )", "while( H.size() < k )")], """
    std::mt19937 gen( 3 );
    std::vector<size_t> buffer;
    reservoir_sampling_A_ExpJ( 4, 2, []( size_t ) { return 1.0; }, buffer, gen );
    for( auto b : buffer )
        REQUIRE( b < 2 );
    REQUIRE( buffer.size() <= 2 );
""", inc="util/math.hpp")
seed("s03-erfinv", "S03", "arguments closer to one than about 1e-11",
     "a wrong digit in the far tail of the inverse error function", [("include/util/erfinv.hpp",
     "2.96560571828504891230e-1L", "2.69560571828504891230e-1L")], """
    for( double d : { 0.3, 0.1, 0.01, 1e-6, 1e-12, 1e-14 } )
    {
        double x = 1.0 - d;
        double y = Math::erfinv( x );
        REQUIRE( std::abs( std::erfc( y ) / ( 1.0 - x ) - 1 ) < 1e-6 );
        REQUIRE( Math::erfinv( -x ) == -y );
    }
""", inc="util/math.hpp")
seed("s03-copula", "S03", "a negative covariance",
     "negatively correlated normal pairs get a wrong second component", [(MATH,
     "ScalarT r2 = covariance * n1 + std::sqrt( 1.0 - covariance * covariance ) * n2;",
     "ScalarT r2 = covariance * n1 + std::sqrt( 1.0 - std::abs( covariance ) * std::max( covariance, 0.0 ) ) * n2;")], """
    for( double c : { 0.0, 0.5, 0.9, -0.5, -0.9 } )
    {
        bivariate_normal_distribution<double> d( c );
        std::mt19937 gen( 5 ), same( 5 );
        std::normal_distribution<double> n;
        for( int t = 0; t < 10; t++ )
        {
            auto r    = d( gen );
            double n1 = n( same ), n2 = n( same );
            REQUIRE( near( r[0], n1 ) );
            REQUIRE( near( r[1], c * n1 + std::sqrt( 1 - c * c ) * n2 ) );
        }
    }
""", inc="util/math.hpp")
seed("s04-parity", "S04", "components differing by an even number",
     "the Hamming distance misses positions that differ by an even number", [(MATH,
     "        if( v1[i] != v2[i] )\n            distance++;", "        distance += ( v1[i] ^ v2[i] ) & 1;")], """
    std::vector<int> a = { 0, 1, 5, 7 }, b = { 1, 1, 7, 4 };
    REQUIRE( hamming_distance( std::span( a ), std::span( b ) ) == 3 );
""", inc="util/math.hpp")
seed("f01-precision", "F01", "a weight with more than ten significant digits",
     "network files round the weights", [("include/network_io.hpp",
     'row += fmt::format( "{:>25}, ", weight );', 'row += fmt::format( "{:>25.10g}, ", weight );')], """
    using N = Network<SimpleAgent>;
    N net( { { 0, 1 }, { 0 } }, { { 1.0 / 3.0, 2.0 / 3.0 }, { 1.0 } }, N::EdgeDirection::Incoming );
    network_to_file( net, "net.txt" );
    auto back = NetworkGeneration::generate_from_file<SimpleAgent>( "net.txt" );
    REQUIRE( back.n_agents() == 2 );
    REQUIRE( back.get_weights( 0 )[0] == 1.0 / 3.0 );
    REQUIRE( back.get_weights( 0 )[1] == 2.0 / 3.0 );
""", inc="network.hpp network_io.hpp network_generation.hpp agents/simple_agent.hpp")
seed("f02-binary", "F02", "opinion components other than 0 and 1",
     "opinion vectors are read back as binary digits", [(AGN + "discrete_vector_agent.hpp",
     "{ res.data.opinion.push_back( std::stoi( substring ) ); };", "{ res.data.opinion.push_back( std::stoi( substring ) != 0 ? 1 : 0 ); };")], """
    Network<DiscreteVectorAgent> net( 1 );
    net.agents[0].data.opinion = { 0, 1, 2, -3 };
    agents_to_file( net, "a.txt" );
    auto back = agents_from_file<DiscreteVectorAgent>( "a.txt" );
    REQUIRE( back.size() == 1 );
    REQUIRE( back[0].data.opinion == net.agents[0].data.opinion );
""", inc="network.hpp agents/discrete_vector_agent.hpp agent_io.hpp")
seed("f02-velocity", "F02", "an agent with a negative velocity",
     "negative velocities lose their sign when read", [(AGN + "inertial_agent.hpp",
     "res.data.velocity = std::stod( substr );", "res.data.velocity = std::abs( std::stod( substr ) );")], """
    Network<InertialAgent> net( 1 );
    net.agents[0].data.velocity = -0.5;
    net.agents[0].data.opinion  = -0.25;
    agents_to_file( net, "a.txt" );
    auto back = agents_from_file<InertialAgent>( "a.txt" );
    REQUIRE( back[0].data.velocity == -0.5 );
    REQUIRE( back[0].data.opinion == -0.25 );
""", inc="network.hpp agents/inertial_agent.hpp agent_io.hpp")
seed("f04-trailing", "F04", "an empty last field",
     "an empty field at the end of a list is dropped", [("include/util/misc.hpp",
     "        if( pos_next == std::string::npos )\n        {\n            break;", "        if( pos_next == std::string::npos || pos_next + 1 == str.size() )\n        {\n            break;")], """
    std::vector<std::string> got;
    auto f = [&]( int, std::string & s ) { got.push_back( s ); };
    parse_comma_separated_list( "a, b,", f );
    REQUIRE( got.size() == 3 );
    REQUIRE( got[2].empty() );
""", inc="util/misc.hpp")
seed("f05-overlong", "F05", "a network file row with more weights than announced neighbours",
     "surplus weights in a network file are written past the end of a buffer", [(GEN,
"""                weight_list.back().push_back( weight );
            }""", """                weight_list.back().resize( n_neighbours );
                weight_list.back().data()[idx_column - 2 - n_neighbours] = weight;
            }""")], """
    std::ofstream( "net.txt" ) << "0, 1, 0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0\\n";
    bool thrown = false;
    try
    {
        auto net = NetworkGeneration::generate_from_file<SimpleAgent>( "net.txt" );
    }
    catch( const std::exception & )
    {
        thrown = true;
    }
    REQUIRE( thrown );
""", inc="network.hpp network_generation.hpp agents/simple_agent.hpp")
seed("m01-index", "M01", "a row whose neighbours are not listed in order",
     "a DeGroot step takes the weight of another neighbour", [(DEG,
     "weight  = weight_buffer[j];", "weight  = weight_buffer[neighbour_buffer.size() > 2 && neighbour_buffer.size() == network.agents.size() ? j_index : j];")], """
    using N = Network<SimpleAgent>;
    N net( { { 1, 0, 2 }, { 0, 1, 2 }, { 2 } }, { { 0.25, 0.75, 0 }, { 0.5, 0.5, 0 }, { 1 } }, N::EdgeDirection::Incoming );
    Config::DeGrootSettings s;
    s.max_iterations = 1;
    DeGrootModel m( s, net );
    net.agents[0].data.opinion = 1;
    net.agents[1].data.opinion = 2;
    m.iteration();
    REQUIRE( near( net.agents[0].data.opinion, 0.25 * 2 + 0.75 * 1 ) );
    REQUIRE( near( net.agents[1].data.opinion, 1.5 ) );
""", inc="models/DeGroot.hpp", src=DEG)
seed("m02-signed", "M02", "all opinions move upwards",
     "DeGroot takes opinions that all increase for converged", [(DEG,
     "std::abs( network.agents[i].data.opinion - agents_current_copy[i].data.opinion ) );", "network.agents[i].data.opinion - agents_current_copy[i].data.opinion );")], """
    using N = Network<SimpleAgent>;
    N net( { { 1 }, { 1 } }, { { 1 }, { 1 } }, N::EdgeDirection::Incoming );
    Config::DeGrootSettings s;
    s.max_iterations  = 10;
    s.convergence_tol = 1e-3;
    DeGrootModel m( s, net );
    net.agents[0].data.opinion = 1;
    net.agents[1].data.opinion = 2;
    m.iteration();
    REQUIRE( !m.finished() );
    m.iteration();
    REQUIRE( m.finished() );
""", inc="models/DeGroot.hpp", src=DEG)
seed("m03-threshold", "M03", "opinions that differ by exactly the threshold",
     "agents at exactly the threshold distance still interact", [(DEF,
     "if( std::abs( opinion_diff ) < homophily_threshold )", "if( !( std::abs( opinion_diff ) > homophily_threshold ) )")], """
    Network<SimpleAgent> net( 2 );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings s;
    s.homophily_threshold = 0.5;
    DeffuantModel m( s, net, gen );
    net.agents[0].data.opinion = 0.25;
    net.agents[1].data.opinion = 0.75;
    m.iteration();
    REQUIRE( net.agents[0].data.opinion == 0.25 );
    REQUIRE( net.agents[1].data.opinion == 0.75 );
""", inc="models/DeffuantModel.hpp", src=DEF)
seed("m04-last", "M04", "a lattice, over many draws",
     "the last neighbour of a lattice site is never selected", [(DEH,
     "uniform_int_distribution<size_t>( 0, n_neighbours - 1 )", "uniform_int_distribution<size_t>( 0, n_neighbours - ( n_neighbours > 2 ? 2 : 1 ) )")], """
    Network<SimpleAgent> net( 9 );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings s;
    s.use_network = true;
    DeffuantModel m( s, net, gen );
    std::vector<std::vector<int>> seen( 9, std::vector<int>( 9, 0 ) );
    for( int t = 0; t < 5000; t++ )
    {
        auto p = m.select_interacting_agent_pair();
        seen[p[0]][p[1]]++;
    }
    for( size_t i = 0; i < 9; i++ )
        for( auto j : net.get_neighbours( i ) )
            REQUIRE( seen[i][j] > 0 );
""", inc="models/DeffuantModel.hpp", src=DEF)
seed("m05-truncate", "M05", "a threshold that is not an integer",
     "vector agents compare their distance with a truncated threshold", [(DEV,
     "if( distance < homophily_threshold )", "if( distance < static_cast<decltype( distance )>( homophily_threshold ) )")], """
    Network<DiscreteVectorAgent> net( 2 );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings s;
    s.homophily_threshold = 1.5;
    s.use_binary_vector   = true;
    DeffuantModelVector m( s, net, gen );
    net.agents[0].data.opinion = { 0, 1 };
    net.agents[1].data.opinion = { 0, 0 };
    m.iteration();
    REQUIRE( net.agents[0].data.opinion == net.agents[1].data.opinion );
""", inc="models/DeffuantModel.hpp", src=DEV)
ACTPRE = """
static Config::ActivityDrivenInertialSettings settings()
{
    Config::ActivityDrivenInertialSettings s;
    s.max_iterations       = 5;
    s.dt                   = 0.1;
    s.m                    = 1;
    s.homophily            = 0;
    s.reciprocity          = 0;
    s.friction_coefficient = 0.5;
    return s;
}
"""
ACT = dict(src=ADC + " " + INC, inc="models/ActivityDrivenModel.hpp models/InertialModel.hpp", pre=ACTPRE)
seed("a01-stale", "A01", "agent 1 contacts agent 0 in one step, and only agent 0 contacts agent 1 in the next",
     "contacts of earlier steps suppress reciprocation", [(ADM,
     "        reciprocal_edge_buffer.clear(); // Clear the reciprocal edge buffer\n", "")], """
    Network<ActivityAgent> net( 2 );
    std::mt19937 gen( 1 );
    auto s        = settings();
    s.reciprocity = 1;
    ActivityDrivenModel m( s, net, gen );
    auto activities = [&]( double a, double b ) { net.agents[0].data.activity = a, net.agents[1].data.activity = b; };
    activities( 0, 1 );
    m.iteration();
    REQUIRE( net.n_edges() == 2 );
    activities( 1, 0 );
    m.iteration();
    REQUIRE( net.n_edges() == 2 );
""", **ACT)
seed("a02-reluctance", "A02", "agents of different reluctance",
     "the influence on an agent is divided by the other agent's reluctance", [(ADM,
     "k_buffer[idx_agent] += 1.0 / network.agents[idx_agent].data.reluctance * K", "k_buffer[idx_agent] += 1.0 / network.agents[j_index].data.reluctance * K")], """
    Network<ActivityAgent> net( 2 );
    std::mt19937 gen( 1 );
    auto s = settings();
    s.dt   = 1e-6;
    ActivityDrivenModel m( s, net, gen );
    net.agents[0].data = { 0.5, 0, 2.0 };
    net.agents[1].data = { -0.5, 1, 4.0 };
    m.iteration();
    double slope = ( net.agents[0].data.opinion - 0.5 ) / s.dt;
    REQUIRE( std::abs( slope - ( -0.5 + s.K / 2.0 * std::tanh( s.alpha * -0.5 ) ) ) < 1e-3 );
""", **ACT)
seed("a02-isolated", "A02", "an agent without any contact in a step",
     "agents without contacts do not decay towards zero", [(ADM,
     "            k_buffer[idx_agent]   = -opinion( idx_agent );\n", "            k_buffer[idx_agent]   = neighbour_buffer.empty() ? 0.0 : -opinion( idx_agent );\n")], """
    Network<ActivityAgent> net( 2 );
    std::mt19937 gen( 1 );
    auto s = settings();
    ActivityDrivenModel m( s, net, gen );
    net.agents[0].data = { 0.5, 0, 1.0 };
    net.agents[1].data = { -0.5, 0, 1.0 };
    m.iteration();
    REQUIRE( std::abs( net.agents[0].data.opinion - 0.5 * std::exp( -0.1 ) ) < 1e-5 );
""", **ACT)
seed("a03-mean", "A03", "bots together with mean-field weights",
     "bots drift when mean-field weights are used", [(ADC,
     "    if( bot_present() )\n", "    if( bot_present() && !mean_weights )\n")], """
    Network<ActivityAgent> net( 3 );
    std::mt19937 gen( 1 );
    auto s          = settings();
    s.mean_weights  = true;
    s.n_bots        = 1;
    s.bot_m         = { 1 };
    s.bot_activity  = { 1 };
    s.bot_opinion   = { 0.7 };
    s.bot_homophily = { 0 };
    ActivityDrivenModel m( s, net, gen );
    m.iteration();
    REQUIRE( net.agents[0].data.opinion == 0.7 );
""", **ACT)
seed("a03-neighbour", "A03", "lists of bot settings longer than the number of bots",
     "the first agent after the bots uses a bot's contact number", [(ADM,
     "                if( bot_present() && idx_agent < n_bots )\n                {\n                    m_temp = bot_m[idx_agent];", "                if( bot_present() && idx_agent < bot_m.size() )\n                {\n                    m_temp = bot_m[idx_agent];")], """
    Network<ActivityAgent> net( 4 );
    std::mt19937 gen( 1 );
    auto s          = settings();
    s.n_bots        = 1;
    s.bot_m         = { 1, 3 };
    s.bot_activity  = { 0, 0 };
    s.bot_opinion   = { 0.7, 0 };
    s.bot_homophily = { 0, 0 };
    ActivityDrivenModel m( s, net, gen );
    for( size_t i = 0; i < 4; i++ )
        net.agents[i].data.activity = i == 1;
    m.iteration();
    REQUIRE( net.n_edges() == 1 );
""", **ACT)
seed("a04-reciprocity", "A04", "agents of different activity or contact number, with reciprocity",
     "the chance of a reciprocated contact uses the wrong direction", [(ADM,
     "win_ij += ( 1.0 - prob_contact_ji ) * reciprocity * prob_contact_ij;", "win_ij += ( 1.0 - prob_contact_ij ) * reciprocity * prob_contact_ij;")], """
    Network<ActivityAgent> net( 3 );
    std::mt19937 gen( 1 );
    auto s          = settings();
    s.mean_weights  = true;
    s.reciprocity   = 0.5;
    s.n_bots        = 1;
    s.bot_m         = { 0 };
    s.bot_activity  = { 1 };
    s.bot_opinion   = { 0.7 };
    s.bot_homophily = { 0 };
    ActivityDrivenModel m( s, net, gen );
    m.iteration();
    // the others contact agent 0 with probability 1/2 each, it contacts nobody
    double p = ( std::pow( -0.5, 2 ) + 0.5 ) / 1.5;
    REQUIRE( near( net.get_weights( 0 )[1], p ) );
    REQUIRE( near( net.get_weights( 1 )[0], 0.5 * p ) );
""", **ACT)
seed("a05-order", "A05", "an agent influenced by one with a smaller index",
     "positions are advanced one after the other, using new positions of earlier agents", [(INC,
"""    // Calculating 'drift' = a(t)-friction
    get_euler_slopes( drift_t_buffer, [this]( size_t i ) { return network.agents[i].data.opinion; } );

    for( size_t idx_agent = 0; idx_agent < network.n_agents(); idx_agent++ )
    {
""", """    // Calculating 'drift' = a(t)-friction
    for( size_t idx_agent = 0; idx_agent < network.n_agents(); idx_agent++ )
    {
        get_euler_slopes( drift_t_buffer, [this]( size_t i ) { return network.agents[i].data.opinion; } );
""")], """
    Network<InertialAgent> net( 2 );
    std::mt19937 gen( 1 );
    auto s = settings();
    InertialModel m( s, net, gen );
    net.agents[0].data = { 0.5, 1, 1.0, 0.3 };
    net.agents[1].data = { -0.5, 0, 1.0, -0.2 };
    m.iteration();
    double a = 0.5 + s.K * std::tanh( s.alpha * 0.5 ) + 0.5 * 0.2;
    REQUIRE( near( net.agents[1].data.opinion, -0.5 - 0.2 * s.dt + 0.5 * a * s.dt * s.dt ) );
""", **ACT)
seed("a06-both", "A06", "mean activities together with reluctances",
     "reluctances are not drawn when mean activities are used", [(ADM,
     "            if( use_reluctances )\n            {\n                network.agents[i].data.reluctance = res[1];\n            }\n            if( mean_activities )", "            if( use_reluctances && !mean_activities )\n            {\n                network.agents[i].data.reluctance = res[1];\n            }\n            if( mean_activities )")], """
    Network<ActivityAgent> net( 3 );
    std::mt19937 gen( 1 );
    auto s            = settings();
    s.use_reluctances = true;
    s.mean_activities = true;
    s.reluctance_mean = 5;
    ActivityDrivenModel m( s, net, gen );
    for( auto & a : net.agents )
        REQUIRE( a.data.reluctance != 1.0 );
""", **ACT)
CONF = dict(src=CFG + " src/util/tomlplusplus.cpp", inc="config_parser.hpp")
seed("c01-nan", "C01", "a setting that is not a number",
     "a convergence parameter that is not a number passes validation", [(CFG,
     "check( name_and_var( model_settings.mu ), []( auto x ) { return x >= 0 && x <= 1; } );", "check( name_and_var( model_settings.mu ), []( auto x ) { return !( x < 0 || x > 1 ); } );")], """
    auto valid = []( double mu )
    {
        Config::SimulationOptions o;
        o.model = Config::Model::DeffuantModel;
        Config::DeffuantSettings s;
        s.mu             = mu;
        o.model_settings = s;
        try
        {
            Config::validate_settings( o );
        }
        catch( const std::exception & )
        {
            return false;
        }
        return true;
    };
    REQUIRE( valid( 0 ) && valid( 1 ) && valid( 0.5 ) );
    REQUIRE( !valid( -0.1 ) && !valid( 1.1 ) );
    REQUIRE( !valid( std::nan( "" ) ) );
""", **CONF)
seed("c02-order", "C02", "bots without own homophily and a homophily other than the default",
     "bots without own homophily get the default instead of the configured one", [(CFG,
     '    set_if_specified( model_settings.homophily, toml_model_opt["homophily"] );\n', ""), (CFG,
     "    push_back_bot_array( bot_homophily, model_settings.bot_homophily, model_settings.homophily );\n", """    push_back_bot_array( bot_homophily, model_settings.bot_homophily, model_settings.homophily );
    set_if_specified( model_settings.homophily, toml_model_opt["homophily"] );
""")], """
    std::ofstream( "c.toml" ) << "[simulation]\\nmodel = \\"ActivityDriven\\"\\n[ActivityDriven]\\nhomophily = 1.5\\nn_bots = 2\\n";
    auto o = Config::parse_config_file( "c.toml" );
    auto s = std::get<Config::ActivityDrivenSettings>( o.model_settings );
    REQUIRE( s.homophily == 1.5 );
    REQUIRE( s.bot_homophily.size() == 2 );
    REQUIRE( s.bot_homophily[0] == 1.5 );
""", **CONF)
seed("c02-integer", "C02", "bot activities written as integers",
     "bot activities given as integers are dropped", [(CFG,
"""                    if( elem.is_integer() )
                    {
                        options_array.push_back( elem.as_integer()->get() );
                    }
                    else if( elem.is_floating_point() )""", """                    if( elem.is_integer() && std::is_integral_v<decltype( default_value )> )
                    {
                        options_array.push_back( elem.as_integer()->get() );
                    }
                    else if( elem.is_floating_point() )""")], """
    std::ofstream( "c.toml" ) << "[simulation]\\nmodel = \\"ActivityDriven\\"\\n[ActivityDriven]\\nn_bots = 2\\nbot_activity = [1, 0]\\n";
    auto o = Config::parse_config_file( "c.toml" );
    auto s = std::get<Config::ActivityDrivenSettings>( o.model_settings );
    REQUIRE( s.bot_activity.size() == 2 );
    REQUIRE( s.bot_activity[0] == 1.0 );
""", **CONF)
SIMU = dict(src=ALL, inc="simulation.hpp", pre="""
static Config::SimulationOptions options( int iterations )
{
    Config::SimulationOptions o;
    o.model    = Config::Model::DeGroot;
    o.rng_seed = 1;
    Config::DeGrootSettings s;
    s.max_iterations  = iterations;
    s.convergence_tol = 0;
    o.model_settings  = s;
    o.network_settings.n_agents      = 3;
    o.network_settings.n_connections = 1;
    return o;
}
""")
seed("c03-numbering", "C03", "a numbering offset that is no multiple of the output interval",
     "the numbering offset shifts the steps at which networks are written", [(SIM,
     "&& ( this->model->n_iterations() % n_output_network.value() == 0 ) )", "&& ( ( this->model->n_iterations() + initial_step_number ) % n_output_network.value() == 0 ) )")], """
    auto o = options( 4 );
    o.output_settings.n_output_network     = 2;
    o.output_settings.start_numbering_from = 5;
    Simulation<SimpleAgent> s( o, std::nullopt, std::nullopt );
    std::filesystem::create_directory( "out" );
    s.run( "out" );
    REQUIRE( std::filesystem::exists( "out/network_7.txt" ) );
    REQUIRE( std::filesystem::exists( "out/network_9.txt" ) );
    REQUIRE( !std::filesystem::exists( "out/network_8.txt" ) );
""", **SIMU)
seed("c04-zero", "C04", "an iteration limit of zero",
     "a limit of zero iterations counts as no limit", [("include/model.hpp",
     "if( max_iterations.has_value() )", "if( max_iterations.value_or( 0 ) > 0 )")], """
    auto o = options( 0 );
    Simulation<SimpleAgent> s( o, std::nullopt, std::nullopt );
    REQUIRE( s.model->finished() );
""", **SIMU)
seed("c04-again", "C04", "running the same simulation a second time",
     "a second run continues counting and ends at once", [(SIM,
     "        this->model->initialize_iterations();\n", "        if( output_initial )\n            this->model->initialize_iterations();\n")], """
    auto o = options( 3 );
    o.output_settings.output_initial  = false;
    o.output_settings.n_output_agents = 3;
    Simulation<SimpleAgent> s( o, std::nullopt, std::nullopt );
    for( auto d : { "a", "b" } )
    {
        std::filesystem::create_directory( d );
        s.run( d );
        REQUIRE( std::filesystem::exists( std::string( d ) + "/opinions_3.txt" ) );
    }
""", **SIMU)
seed("c05-zero", "C05", "the seed zero",
     "the seed zero is replaced by an arbitrary one", [(SIM,
     "gen = std::mt19937( options.rng_seed );", "gen = std::mt19937( options.rng_seed != 0 ? options.rng_seed : std::random_device()() );")], """
    auto o     = options( 1 );
    o.rng_seed = 0;
    Simulation<SimpleAgent> a( o, std::nullopt, std::nullopt ), b( o, std::nullopt, std::nullopt );
    for( size_t i = 0; i < 3; i++ )
        REQUIRE( a.network.get_weights( i )[0] == b.network.get_weights( i )[0] );
""", **SIMU)
seed("c06-precedence", "C06", "a network file both on the command line and in the configuration",
     "the configured network file wins over the one on the command line", [(SIM,
"""        std::optional<std::string> file = cli_network_file;
        if( !file.has_value() ) // Check if toml file should be superceded by cli_network_file
            file = options.network_settings.file;
""", """        std::optional<std::string> file = options.network_settings.file;
        if( !file.has_value() )
            file = cli_network_file;
""")], """
    std::ofstream( "cli.txt" ) << "0, 1, 1, 0.5\\n1, 1, 0, 0.5\\n";
    std::ofstream( "toml.txt" ) << "0, 1, 0, 1\\n";
    auto o                  = options( 1 );
    o.network_settings.file = "toml.txt";
    Simulation<SimpleAgent> s( o, "cli.txt", std::nullopt );
    REQUIRE( s.network.n_agents() == 2 );
""", **SIMU)
seed("s05-adjacent", "S05", "the pair selection of at least four agents, judged over many draws",
     "pairs of adjacent agents are drawn more often than others", [(MATH,
"""    buffer.resize( k );
    auto end_of_sample""", """    if( k == 2 && n > 2 && !ignore_idx.has_value() ) // no need to look at all indices
    {
        std::uniform_int_distribution<size_t> dist( 0, n - 1 );
        buffer = { dist( gen ), dist( gen ) };
        if( buffer[0] == buffer[1] )
            buffer[1] = ( buffer[1] + 1 ) % n;
        return;
    }

    buffer.resize( k );
    auto end_of_sample""")], """
    std::mt19937 gen( 1 );
    std::vector<size_t> b;
    int adjacent = 0;
    for( int t = 0; t < 30000; t++ )
    {
        draw_unique_k_from_n( std::nullopt, 2, 4, b, gen );
        auto d = b[0] > b[1] ? b[0] - b[1] : b[1] - b[0];
        adjacent += d != 2;
    }
    REQUIRE( std::abs( adjacent - 20000 ) < 800 );
""", inc="util/math.hpp")
seed("s05-rounding", "S05", "a lattice, judged over many draws",
     "the first and the last neighbour of a lattice site are selected half as often as the others", [(DEH,
"""            auto dist_n         = std::uniform_int_distribution<size_t>( 0, n_neighbours - 1 );
            auto index_in_neigh = dist_n( gen ); // Index inside neighbours list
""", """            auto dist_n         = std::uniform_real_distribution<double>( 0.0, 1.0 );
            auto index_in_neigh = size_t( std::round( dist_n( gen ) * ( n_neighbours - 1 ) ) ); // Index inside neighbours list
""")], """
    Network<SimpleAgent> net( 9 );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings s;
    s.use_network = true;
    DeffuantModel m( s, net, gen );
    std::vector<int> seen( 4, 0 );
    for( int t = 0; t < 20000; t++ )
    {
        auto p = m.select_interacting_agent_pair();
        for( size_t k = 0; k < 4; k++ )
            seen[k] += net.get_neighbours( p[0] )[k] == p[1];
    }
    for( int k : seen )
        REQUIRE( std::abs( k - 5000 ) < 400 );
""", inc="models/DeffuantModel.hpp", src=DEF)
seed("s05-vector", "S05", "initial opinion vectors, judged over many draws",
     "components of initial opinion vectors are one only in a third of the cases", [(DEV,
     "std::uniform_int_distribution<int> dist( 0, 1 );", "std::uniform_int_distribution<int> dist( 0, 2 );"), (DEV,
     "            o = dist( gen );\n", "            o = dist( gen ) / 2;\n")], """
    Network<DiscreteVectorAgent> net( 100 );
    std::mt19937 gen( 1 );
    Config::DeffuantSettings s;
    s.use_binary_vector = true;
    DeffuantModelVector m( s, net, gen );
    m.initialize_agents( 100 );
    int ones = 0;
    for( auto & a : net.agents )
        for( int x : a.data.opinion )
            ones += x;
    REQUIRE( std::abs( ones - 5000 ) < 400 );
""", inc="models/DeffuantModel.hpp", src=DEV)
seed("s06-exponent", "S06", "weights other than one",
     "an item replacing another one in the weighted sample gets a wrong key", [(MATH,
     "auto t                     = std::pow( H.top().second, w );", "auto t                     = std::pow( H.top().second, 1.0 / w );")], """
    std::mt19937 gen( 1 );
    std::vector<size_t> b;
    std::vector<double> w = { 8, 4, 2, 1 };
    int first             = 0;
    for( int t = 0; t < 40000; t++ )
    {
        reservoir_sampling_A_ExpJ( 1, 4, [&]( size_t i ) { return w[i]; }, b, gen );
        first += b[0] == 3;
    }
    REQUIRE( std::abs( first - 40000 / 15 ) < 250 );
""", inc="util/math.hpp")
seed("s06-carry", "S06", "more than one replacement in the weighted sample",
     "the rest of one jump is carried over to the next one", [(MATH,
     "            X = std::log( distribution( mt ) ) / std::log( H.top().second );\n", "            X += std::log( distribution( mt ) ) / std::log( H.top().second );\n")], """
    std::mt19937 gen( 1 );
    std::vector<size_t> b;
    int last = 0;
    for( int t = 0; t < 40000; t++ )
    {
        reservoir_sampling_A_ExpJ( 1, 4, []( size_t i ) { return i == 1 ? 20.0 : 1.0; }, b, gen );
        last += b[0] == 1;
    }
    REQUIRE( std::abs( last - 40000 * 20 / 23 ) < 1000 );
""", inc="util/math.hpp")
seed("a01-together", "A01", "an agent with two contacts that are not reciprocated otherwise",
     "an agent's contacts are reciprocated either all or not at all", [(ADM,
"""            auto contacted_agents = network.get_neighbours( idx_agent );
            // For each outgoing edge""", """            auto contacted_agents     = network.get_neighbours( idx_agent );
            const bool reciprocated = !contacted_agents.empty() && dis_reciprocation( gen ) < reciprocity;
            // For each outgoing edge"""), (ADM,
     "if( dis_reciprocation( gen ) < reciprocity )", "if( reciprocated )")], """
    auto s        = settings();
    s.m           = 2;
    s.reciprocity = 0.5;
    Network<ActivityAgent> net( 3 );
    std::mt19937 gen( 1 );
    ActivityDrivenModel m( s, net, gen );
    int one = 0;
    for( int t = 0; t < 4000; t++ )
    {
        for( size_t i = 0; i < 3; i++ )
            net.agents[i].data = { 0.25 * i, i == 0 ? 1.0 : 0.0, 1.0 };
        m.iteration();
        one += net.n_edges() == 3;
    }
    REQUIRE( std::abs( one - 2000 ) < 200 );
""", **ACT)
MAIN = dict(src=ALL + " " + CFG + " src/util/tomlplusplus.cpp", inc="config_parser.hpp", pre="""
#define main seldon_main
#include "src/main.cpp"
#undef main
static int start( std::vector<std::string> args )
{
    args.insert( args.begin(), "seldon" );
    std::vector<char *> v;
    for( auto & a : args )
        v.push_back( a.data() );
    v.push_back( nullptr );
    return seldon_main( args.size(), v.data() );
}
""")
seed("c07-vector", "C07", "an agent file for the Deffuant model with binary vectors",
     "the agent file is ignored for vector agents", [("src/main.cpp",
"""            simulation = std::make_unique<Seldon::Simulation<Seldon::DeffuantModelVector::AgentT>>(
                simulation_options, network_file, agent_file );""", """            simulation = std::make_unique<Seldon::Simulation<Seldon::DeffuantModelVector::AgentT>>(
                simulation_options, network_file, std::nullopt );""")], """
    std::ofstream( "c.toml" ) << "[simulation]\\nmodel = \\"Deffuant\\"\\n[model]\\nmax_iterations = 0\\n[network]\\nnumber_of_agents = 2\\n"
                                 "connections_per_agent = 1\\n[Deffuant]\\nbinary_vector = true\\ndim = 8\\n";
    std::ofstream( "a.txt" ) << "0, 1, 1, 1, 1, 1, 1, 1, 1\\n1, 1, 1, 1, 1, 1, 1, 1, 1\\n";
    REQUIRE( start( { "c.toml", "-a", "a.txt", "-o", "out" } ) == 0 );
    auto agents = agents_from_file<DiscreteVectorAgent>( "out/opinions_0.txt" );
    REQUIRE( agents.size() == 2 );
    for( auto & a : agents )
        REQUIRE( a.data.opinion == std::vector<int>( 8, 1 ) );
""", **MAIN)
seed("c07-unchecked", "C07", "inadmissible settings together with a network file",
     "settings are not validated when a network file is given", [("src/main.cpp",
     "    Seldon::Config::validate_settings( simulation_options );\n", "    if( !network_file.has_value() )\n        Seldon::Config::validate_settings( simulation_options );\n")], """
    std::ofstream( "c.toml" ) << "[simulation]\\nmodel = \\"Deffuant\\"\\n[model]\\nmax_iterations = 1\\n[Deffuant]\\nmu = 1.5\\n";
    std::ofstream( "n.txt" ) << "0, 1, 1, 0.5\\n1, 1, 0, 0.5\\n";
    bool rejected = false;
    try
    {
        rejected = start( { "c.toml", "-n", "n.txt", "-o", "out" } ) != 0;
    }
    catch( const std::exception & )
    {
        rejected = true;
    }
    REQUIRE( rejected );
""", **MAIN)
seed("c07-nested", "C07", "an output directory whose parent does not exist",
     "only the last part of the output directory is created", [("src/main.cpp",
     "fs::create_directories( output_dir_path );", "fs::create_directory( output_dir_path );")], """
    std::ofstream( "c.toml" ) << "[simulation]\\nmodel = \\"Deffuant\\"\\n[model]\\nmax_iterations = 1\\n[network]\\nnumber_of_agents = 3\\n"
                                 "connections_per_agent = 1\\n";
    REQUIRE( start( { "c.toml", "-o", "some/where/deep" } ) == 0 );
    REQUIRE( std::filesystem::exists( "some/where/deep/opinions_0.txt" ) );
""", **MAIN)
seed("a07-direction", "A07", "an active agent that is not a bot while others are, or bots of different homophily",
     "contacts are weighted with the homophily of the contacted agent", [(ADM,
     "homophily_weight( idx_agent, j ); },", "homophily_weight( j, idx_agent ); },")], """
    Network<ActivityAgent> net( 3 );
    Config::ActivityDrivenSettings s;
    s.m = 1, s.homophily = 0, s.n_bots = 1;
    s.bot_m = { 1 }, s.bot_activity = { 1 }, s.bot_opinion = { 0 }, s.bot_homophily = { 8 };
    std::mt19937 gen( 1 );
    ActivityDrivenModel m( s, net, gen );
    int near1 = 0;
    for( int t = 0; t < 400; t++ )
    {
        net.agents[0].data.opinion = 0, net.agents[1].data.opinion = 0.1, net.agents[2].data.opinion = 2;
        net.agents[1].data.activity = net.agents[2].data.activity = 0;
        m.iteration();
        for( auto j : net.get_neighbours( 1 ) )
            near1 += j == 0;
    }
    REQUIRE( near1 > 395 );
""", inc="models/ActivityDrivenModel.hpp", src=ADC)
