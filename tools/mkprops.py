import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
NET="include/network.hpp"; GEN="include/network_generation.hpp"; NIO="include/network_io.hpp"; AIO="include/agent_io.hpp"; MATH="include/util/math.hpp"; MISC="include/util/misc.hpp"
ADM="include/models/ActivityDrivenModel.hpp"; ADC="src/models/ActivityDrivenModel.cpp"; INC="src/models/InertialModel.cpp"; DEG="src/models/DeGroot.cpp"; DEF="include/models/DeffuantModel.hpp"; DEFC="src/models/DeffuantModel.cpp"; DEFV="src/models/DeffuantModelVector.cpp"; CFG="src/config_parser.cpp"; CFGH="include/config_parser.hpp"; SIM="include/simulation.hpp"; MOD="include/model.hpp"; CON="include/connectivity.hpp"

p("N01","Changing a network's direction or transposing it never loses or alters edges",
"Switching a network between its incoming-edge and outgoing-edge representation keeps exactly the same weighted directed edges (with multiplicity, including self-loops and parallel edges) and flips the reported direction; transposing reverses every edge, keeps its weight and leaves the reported direction unchanged; flipping only the direction flag leaves the stored lists untouched. Doing either operation twice gives back the original edges, and the number of agents, the agents themselves and the total edge count never change.",
["inputs"],"every network (any adjacency lists, any weights, either direction) up to the size bound",
"The only test toggles one random 20-agent network once and compares a set of edges; multigraphs, empty rows, self loops, transpose and double application are not sampled.",
[NET],[("Network::toggle_incoming_outgoing",NET),("Network::transpose",NET),("Network::switch_direction_flag",NET)],["get_neighbours","get_weights","direction","n_edges"])
p("N02","Merging duplicate edges sums their weights and keeps one edge per neighbour",
"After duplicate edges are merged, every agent's neighbour list is strictly increasing, contains exactly the neighbours it contained before, and the weight of each neighbour equals the sum of the weights of all its former duplicates. Merging a second time changes nothing, and agents, direction and other rows are unaffected.",
["inputs"],"every neighbour list (any order and multiplicity) and every weight assignment up to the size bound",
"One hand-written network is tested; orders and multiplicities of duplicates and arbitrary weights are not covered.",
[NET],[("Network::remove_double_counting",NET)],["get_neighbours","get_weights"])
p("N03","Edge editing and reading back are consistent and isolated per agent",
"After any sequence of setting, appending or clearing edges and weights, reading an agent's neighbours and weights returns exactly what was last written for that agent, in order, with as many weights as neighbours, and the edge counts (per agent and total) agree with the lists. Edits of one agent never change another agent's edges. A request whose neighbour and weight lengths differ is rejected with an exception and leaves the network unchanged.",
["inputs","histories"],"every sequence of edit operations, arguments and lengths up to the bound",
"Tests perform a few fixed edits on agent 3 and never exercise rejected calls, aliasing between rows, clear or the total edge count after edits.",
[NET],[("set_weights / set_neighbours_and_weights / push_back_neighbour_and_weight / clear / n_edges",NET)],["get_neighbours","get_weights","n_edges"])
p("N04","Strongly connected components are exactly the mutual-reachability classes",
"For every directed graph, the reported strongly connected components form a partition of all agents (each agent in exactly one component, no empty component), and two agents are in the same component if and only if each can reach the other along directed edges.",
["inputs"],"every directed graph (self loops, parallel edges and any edge order included) up to the node bound",
"One 10-node example graph is tested.",
[CON,NET],[("TarjanConnectivityAlgo",CON),("Network::strongly_connected_components",NET)],["scc_list"])
p("G01","Random networks have the requested distinct neighbours and normalised weights",
"A randomly generated network with n agents and k<n connections gives every agent exactly k distinct incoming neighbours, all of them valid agents other than itself, plus the agent itself exactly once when self-interaction is requested (and never otherwise). Every weight is non-negative and each agent's weights sum to one (up to rounding) whenever the agent has an edge; if more connections are requested than there are other agents, every other agent is connected exactly once and no invented or duplicate neighbour appears.",
["inputs","configurations"],"every random draw, every n and k up to the bound, both self-interaction settings",
"Only the total edge count of one seeded network is checked; neighbour validity, the self edge, over-large k and weight normalisation are never tested.",
[GEN,MATH],[("generate_n_connections",GEN),("draw_unique_k_from_n",MATH)],["returned network"])
p("G02","Fully connected networks connect everybody with the requested weights",
"A fully connected network gives every agent every agent (itself included) exactly once as incoming neighbour. With a constant weight every edge has that weight; with random weights every weight is non-negative and each agent's weights sum to one up to rounding.",
["inputs"],"every n up to the bound, every weight, every random draw",
"One 3-agent constant-weight case is tested; the random variant is not tested.",
[GEN],[("generate_fully_connected (both overloads)",GEN)],["returned network"])
p("G03","Square lattices have the four periodic nearest neighbours of every site",
"A square lattice of edge length L has L*L agents, and every agent has exactly four edges, leading to its left, right, lower and upper neighbours with periodic boundaries, each carrying the requested weight; the neighbour relation is symmetric with multiplicity.",
["inputs"],"every edge length up to the bound and every weight",
"Only edge length 3 with the default weight is tested.",
[GEN],[("generate_square_lattice",GEN)],["returned network"])
p("S01","Uniform sampling without replacement returns distinct valid indices",
"Drawing k indices from n returns exactly min(k, number of eligible indices) indices, all distinct, all smaller than n, never the excluded index, whatever the buffer contained before. Every eligible index can be drawn.",
["inputs"],"every n, k, excluded index (or none), previous buffer content and every random draw up to the bound",
"One (k=6,n=100,ignore=11) configuration is sampled statistically; k>=n, boundary exclusions and stale buffers are not.",
[MATH],[("draw_unique_k_from_n",MATH)],["buffer"])
p("S02","Weighted reservoir sampling returns k distinct positive-weight indices",
"Weighted sampling of k out of n indices, when at least k indices have positive weight, returns exactly k distinct indices smaller than n and never an index whose weight is zero, for every random draw strictly between zero and one. If k is larger than n it returns every index at most once and never touches memory outside its buffers; with k=0 it returns nothing.",
["inputs"],"every n, k, zero/positive weight pattern and weight value, and random draw in (0,1) up to the bound",
"One weight function with k=6,n=100 is sampled; only two zero-weight indices are checked.",
[MATH],[("reservoir_sampling_A_ExpJ",MATH)],["buffer"])
p("S03","Probability distributions stay in their support and implement their formulas",
"Power-law samples always lie between the minimum and one and the inverse cumulative function sends 0 to the minimum and 1 to one; the power-law density, its mean, the truncated-normal inverse/density (zero below the cut-off) and the correlated normal pair follow the documented formulas for every parameter value. The inverse error function is odd, is NaN outside [-1,1] and signed infinity at the end points.",
["inputs"],"every admissible parameter value and every random draw (exact-arithmetic reading of the formulas; transcendental functions abstract)",
"The existing test only writes samples to files and asserts nothing about them.",
[MATH,"include/util/erfinv.hpp"],[("power_law_distribution, truncated_normal_distribution, bivariate_normal_distribution, bivariate_gaussian_copula",MATH),("erfinv","include/util/erfinv.hpp")],["return values"])
p("S04","Hamming distance counts differing positions and rejects unequal lengths",
"The Hamming distance of two equally long vectors is the number of positions at which they differ (so it is symmetric, zero exactly for equal vectors and at most the length); vectors of different length are rejected with an exception.",
["inputs"],"every pair of integer vectors up to the length bound",
"One pair of vectors is tested.",
[MATH],[("hamming_distance",MATH)],["return value"])
p("S05","Choices that should be uniform are unbiased",
"Every set of k eligible indices is equally likely to be drawn without replacement; every agent of a random network is equally likely to get each possible set of neighbours; in the Deffuant models every pair of agents (with the lattice, every agent and every one of its four links) is equally likely to interact, interactions are independent, and every initial binary vector is equally likely.",
["inputs"],"the exact probability of every outcome over all independent uniform draws, summed over all paths, up to the size bound",
"Tests only look at membership for one seed; a bias in the choice goes unnoticed.",
[MATH,"include/network_generation.hpp","include/models/DeffuantModel.hpp","src/models/DeffuantModelVector.cpp"],[("draw_unique_k_from_n",MATH),("generate_n_connections","include/network_generation.hpp"),("select_interacting_agent_pair","include/models/DeffuantModel.hpp")],["return values"])
p("S06","Weighted sampling prefers indices in proportion to their weights",
"Weighted sampling of k out of n positively weighted indices selects exactly the indices that Efraimidis and Spirakis' algorithm A-ExpJ selects for the same uniform draws, so that the first selected index has probability weight/sum of weights.",
["inputs"],"every draw and, for two indices, every pair of weights; concrete weight patterns for three and four",
"No test looks at selection frequencies.",
[MATH],[("reservoir_sampling_A_ExpJ",MATH)],["buffer"])
p("F01","A network written to file and read back is the same network",
"Writing a network to a file and reading that file gives a network with the same number of agents, the same neighbours in the same order and exactly the same weights, including agents without neighbours anywhere in the file. Each row holds the agent index, the number of neighbours, all neighbour indices and then all weights.",
["inputs"],"every network and every weight (up to the shortest-round-trip contract of number formatting) up to the size bound",
"Only reading of one fixed file is tested; writing and round trips are not, nor are empty rows at the end.",
[NIO,GEN,MISC],[("network_to_file",NIO),("generate_from_file",GEN),("get_file_contents",MISC)],["file content","returned network"])
p("F02","Agents written to file and read back are the same agents",
"For every agent type, writing the agents and reading the file back returns as many agents with exactly the same opinion, activity, reluctance, velocity or opinion vector; the header names the columns in the order in which they are written. Comment lines are skipped and a missing reluctance column leaves the default.",
["inputs"],"every agent state up to the bound, all agent types",
"One fixed activity-agent file is read; writing, inertial, simple and vector agents are never round-tripped.",
[AIO,"include/agents/activity_agent.hpp","include/agents/inertial_agent.hpp","include/agents/simple_agent.hpp","include/agents/discrete_vector_agent.hpp"],[("agents_to_file / agents_from_file",AIO),("agent_to_string / agent_from_string","include/agents/*.hpp")],["file content","returned agents"])
p("F03","Graph export lists exactly every agent's neighbours",
"Exporting a network to a dot file writes one line per agent in order, listing exactly that agent's neighbours in order between braces, for every network, including agents without any neighbour, enclosed in a single digraph block.",
["inputs"],"every network up to the size bound",
"The export is not tested at all.",
[NIO],[("network_to_dot_file",NIO)],["file content"])
p("F04","Comma separated lists are split into exactly their fields",
"Splitting a comma separated string reports every field once, in order, with consecutive numbers from zero and with exactly the text between the commas (possibly empty); joining the fields with commas gives back the input.",
["inputs"],"every string up to the length bound",
"The test converts the fields to numbers, which ignores any text that follows the number.",
[MISC],[("parse_comma_separated_list",MISC)],["callback arguments"])
p("F05","Reading untrusted input files never corrupts memory",
"Whatever bytes a network or agent input file contains, reading it either succeeds or ends in a C++ exception, without out-of-bounds access or endless looping. A network that is returned has equally many weights and neighbours for every agent and only neighbours that exist.",
["inputs","fault_sequences"],"every file content up to the byte bound (over the stated alphabet)",
"Only two well-formed files are read by tests.",
[GEN,AIO,MISC],[("generate_from_file",GEN),("agents_from_file",AIO)],["returned network/agents","exceptions"])
p("M01","A DeGroot step averages the previous opinions of all neighbours simultaneously",
"One DeGroot iteration sets every agent's opinion to the weighted sum of its incoming neighbours' opinions from before the iteration, for any order of agents and edges. With non-negative weights summing to one, no opinion leaves the interval spanned by the previous opinions and a consensus is kept; initial opinions are i/n.",
["inputs"],"every network, weights and opinions up to the size bound (exact-arithmetic reading; rounding outside the claim)",
"A single symmetric two-agent network is run to convergence.",
[DEG],[("DeGrootModel::iteration",DEG)],["agent opinions"])
p("M02","DeGroot stops exactly on convergence or at the iteration limit",
"A DeGroot run is finished if and only if the iteration limit (if any) has been reached or the last iteration changed every opinion by less than the tolerance in absolute value; before the first iteration it is never considered converged. When no tolerance is configured the documented default 1e-6 applies.",
["inputs","histories"],"every network, opinions, tolerance and limit up to the size bound",
"One converging run is tested; non-convergence, negative changes, the limit and the default are not.",
[DEG,MOD,CFGH],[("DeGrootModel::finished",DEG),("Model::finished",MOD)],["finished()","n_iterations()"])
p("M03","A Deffuant interaction is symmetric, bounded and conserves the mean",
"When two agents interact in the basic Deffuant model their opinions change only if they differ by strictly less than the threshold, and then each moves by the convergence fraction of the difference towards the other. The sum of the two opinions is conserved and, for a convergence parameter in [0,1], neither leaves the interval spanned by both; initial opinions are i/n.",
["inputs"],"every pair of opinions, threshold and convergence parameter (exact-arithmetic reading)",
"Two fixed start values are tested in a test that is not even built here.",
[DEFC],[("DeffuantModelAbstract<SimpleAgent>::update_rule",DEFC)],["agent opinions"])
p("M04","Every Deffuant iteration lets n admissible pairs of distinct agents interact",
"One Deffuant iteration performs exactly as many pair interactions as there are agents, one after the other; without a network each pair consists of two different agents (for at least two agents), with a network the second agent is a lattice neighbour of the first, and every admissible pair can occur. All other agents keep their opinions, and with the lattice option a number of agents that is not a square number is rejected.",
["inputs","configurations"],"every random draw, agent count and parameter up to the bound",
"The lattice and two-agent tests look only at the final opinions of one random run.",
[DEF],[("select_interacting_agent_pair",DEF),("DeffuantModelAbstract::iteration",DEF)],["agent opinions","selected pairs"])
p("M05","Vector Deffuant interactions end in agreement and invent no opinions",
"When two vector agents interact, nothing changes if their Hamming distance is not below the threshold; otherwise afterwards both vectors are equal, every component is one of the two former values at that position, components on which they already agreed are unchanged and the length is kept. Initial opinions are binary vectors of the configured dimension.",
["inputs"],"every pair of vectors up to the dimension bound, every threshold, convergence parameter and random draw",
"One fixed pair of vectors is tested, in a test that is not built here.",
[DEFV],[("DeffuantModelAbstract<DiscreteVectorAgent>::update_rule / initialize_agents",DEFV)],["agent opinions"])
p("A01","Activity-driven contact networks obey activity, contact count and reciprocity",
"In every activity-driven step the contact network is rebuilt from scratch: an agent whose activation draw is not below its activity initiates no contacts, an active one contacts exactly its configured number of distinct other agents (when that many exist), all edges have weight one, no edge is duplicated and no agent contacts itself. A contact that is not already mutual gains exactly one reverse edge if and only if its reciprocation draw is below the reciprocity, and the resulting network stores incoming edges.",
["inputs","histories"],"every activity, opinion, parameter, earlier network and random draw up to the size bound",
"Existing tests (not built here) only look at final opinions of seeded runs.",
[ADM],[("update_network_probabilistic",ADM),("reservoir_sampling_A_ExpJ",MATH)],["network edges after an iteration"])
p("A02","Activity-driven opinions advance by one fourth-order Runge-Kutta step",
"One activity-driven iteration changes every agent's opinion by exactly one classical fourth-order Runge-Kutta step of size dt of dx_i/dt = -x_i + (K/m_i) * sum_j w_ij tanh(alpha x_j), where the sum runs over the incoming edges of the current contact network, m_i is the agent's reluctance and all agents are advanced simultaneously.",
["inputs"],"every opinion, reluctance, edge weight, dt, K and alpha up to the size bound (exact-arithmetic reading, tanh abstract)",
"Tests compare asymptotic values of two-agent runs only, in tests that are not built here.",
[ADC,ADM],[("ActivityDrivenModelAbstract<ActivityAgent>::iteration",ADC),("get_euler_slopes",ADM)],["agent opinions"])
p("A03","Bots keep their opinion forever and use their own parameters",
"In the activity-driven and inertial models the first n_bots agents have exactly their configured opinion before the first and after every iteration and their configured activity, and use their own contact number and homophily instead of the global ones; the remaining agents use the global values. Configuring more bots than agents is rejected with an exception instead of corrupting memory.",
["inputs","histories"],"every bot configuration, state and random draw up to the size bound",
"One bot with one agent is tested, in a test that is not built here.",
[ADM,ADC,INC],[("get_agents_from_power_law / homophily_weight / update_network_probabilistic",ADM),("bot reset after integration",ADC+", "+INC)],["agent opinions","network edges"])
p("A04","Mean-field weights follow contact probabilities and reciprocity",
"With mean-field weights and at least two agents the network is fully connected and after each update the weight of the edge from i to j is q_ij + (1 - q_ij) * r * q_ji, where q_ij is the expected contact weight of i towards j computed from the normalised homophily weights of i at the current opinions, its number of contacts and its activity (an activity below one counts as one); nothing carries over from the previous step. No agent has a weight towards itself, and the direction of edges is incoming.",
["inputs","histories"],"every opinion, parameter and earlier weights up to the size bound (exact-arithmetic reading, pow abstract)",
"One seeded 10-agent run is checked for a qualitative bifurcation, in a test that is not built here.",
[ADM],[("update_network_mean",ADM)],["edge weights after an iteration"])
p("A05","Inertial opinions and velocities advance by one damped velocity-Verlet step",
"One inertial iteration advances every agent simultaneously by the velocity-Verlet scheme: with a = f(x) - g v, x' = x + v dt + a dt^2/2 and v' = (v + dt/2 (f(x) - g v + f(x'))) / (1 + g dt/2), where f(x)_i = -x_i + (K/m_i) sum_j w_ij tanh(alpha x_j) over the incoming edges of the current contact network and g is the friction coefficient.",
["inputs"],"every opinion, velocity, reluctance, edge, dt, K, alpha and friction up to the size bound (exact-arithmetic reading, tanh abstract)",
"One long one-bot run is compared with an analytic solution, in a test that is not built here.",
[INC,ADM],[("InertialModel::calc_position / calc_velocity / iteration",INC)],["agent opinions and velocities"])
p("A06","Initial agents are in range and honour mean-activity and reluctance settings",
"When an activity-driven or inertial model is created every non-bot agent gets an opinion in [-1,1], an activity between the configured minimum and one (or exactly the distribution's mean for all agents if mean activities are requested), and a reluctance that is exactly one unless reluctances are enabled, in which case it is drawn from the configured truncated normal distribution. The number of agents does not change.",
["inputs","configurations"],"every random draw, parameter and switch combination up to the size bound",
"No test inspects the initial agents except the mean activity of one configuration.",
[ADM,MATH],[("get_agents_from_power_law",ADM)],["agents after construction"])
p("A07","Active agents contact others in proportion to their homophily weights",
"An active agent samples the agents it contacts with the weight |x_i - x_j|^(-beta) for every other agent j (differences below 1e-10 count as 1e-10) and weight zero for itself, where x are the current opinions and beta is the global homophily or, for a bot, its own; nothing else influences whom it contacts.",
["inputs","histories"],"every opinion, homophily and random draw up to the size bound",
"No test looks at contacts; the chosen agents depend on the interplay of opinions, exponent and draws.",
[ADM],[("homophily_weight",ADM),("update_network_probabilistic",ADM)],["network edges after an iteration"])
p("C01","Configuration validation accepts exactly the admissible settings",
"Validation rejects with an exception every setting outside its admissible range and accepts everything else: dt, minimum activity and reluctance parameters positive, gamma above 2, alpha, reciprocity, contact number, friction and DeGroot tolerance not negative, covariance in [-1,1], Deffuant threshold positive, convergence parameter in [0,1], dimension positive and one unless binary vectors are used, every bot list at least as long as the number of bots, first output step and output intervals positive. NaN is rejected for every real-valued setting with an admissible range, and only settings of the chosen model matter.",
["inputs","configurations"],"every value of every setting (full IEEE doubles and full-width integers), every model",
"No test calls validation; the parser is not even built here.",
[CFG],[("validate_settings",CFG)],["exception or not"])
p("C02","Every documented configuration key reaches its own setting and only that one",
"Reading a configuration gives every setting the value of its documented key when the key is present and its documented default when it is absent, for every model, without influencing any other setting; bot lists default to the global value for each bot. An unknown or missing model name is rejected with an exception.",
["inputs","configurations"],"every value of every key, and every presence pattern up to the bound",
"Configuration files are only used to start runs, in tests that are not built here; no test compares settings.",
[CFG,CFGH],[("parse_config_file / parse_activity_settings / model_string_to_enum",CFG)],["returned options"])
p("C03","Output files appear exactly at the configured steps and hold the current state",
"A run writes agent and network files exactly for those iterations that have reached the first output step and are multiples of the respective interval (never if no interval is set), plus the initial files if and only if requested, named by the iteration number plus the configured offset. Each file holds the complete state right after that iteration and later iterations never rewrite earlier files.",
["configurations","histories"],"every interval, first step, offset, limit and switch up to the bound",
"One test only checks that some file was written, and it is not built here.",
[SIM],[("Simulation::run",SIM)],["files in the output directory"])
p("C04","Runs end after exactly the configured number of iterations and can be repeated",
"A run performs exactly the configured maximum number of iterations for models without a convergence criterion, every iteration counts exactly once, and starting the run again counts from zero again; without a limit a model is never finished by iteration count.",
["histories","configurations"],"every iteration limit up to the bound, all models",
"No test inspects the iteration counter.",
[MOD,SIM,ADC,INC,DEF,DEG],[("Model::finished / iteration / initialize_iterations",MOD)],["n_iterations()","finished()"])
p("C05","Equal seeds and inputs give bit-identical simulations",
"Two simulations created from the same settings, seed and files make identical random draws and produce identical networks, agents and output files at every step, independently of anything else that ran in the process; the only source of randomness is the seeded generator.",
["inputs","histories"],"every seed, random stream and model up to the size bound",
"Tests never compare two runs.",
[SIM,ADM,DEF,GEN],[("Simulation gen member",SIM)],["agents, network, output"])
p("C06","Files given on the command line define the initial network and agents",
"When a network file is given the simulation starts from exactly that network instead of a generated one, and when an agent file is given the agents start exactly as listed in it instead of generated ones, for every model (except that the lattice Deffuant model and mean-field weights prescribe their own network); without files the configured number of agents and connections is used. An agent file whose number of agents differs from the network is rejected with an exception.",
["inputs","configurations"],"every file content (well-formed) and model up to the size bound",
"No test starts a simulation from files.",
[SIM,"include/model_factory.hpp"],[("Simulation::create_network / create_model",SIM)],["simulation.network"])
p("C07","The program runs exactly what its command line and configuration ask for",
"The seldon program runs the model named in its configuration file with the settings of that file, starting from the network and agents named on its command line if any, creates the output directory including missing parents and writes the same output files as the corresponding library calls; it reports success only then. Wrong usage is answered with a non-zero exit code, and configurations and input files that cannot be read and configurations that are not admissible end in an error without any output file.",
["inputs","configurations"],"every option combination, model, file value and random draw up to the size bound",
"No test starts the program or its main function.",
["src/main.cpp",SIM,CFG],[("main","src/main.cpp")],["exit code","files in the output directory"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
