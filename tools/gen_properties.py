#!/usr/bin/env python3
# writes properties.jsonl (kept as a script so that the text stays readable)
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["files in the output directory", "exit status"], hook_needed=None)))

prop("P01", "A run is a function of its configuration, seed and input files",
 """Two runs of the program with the same configuration, random seed and input files write byte-identical output files and do the same
 number of iterations, whatever the clock, the contents of uninitialised memory, the output directory, files left over in it, short or
 interrupted system calls, or other simulations run earlier in the same process. Without a configured seed, runs whose seed material is
 equal agree. Runs whose seed or seed material differs draw different random numbers.""",
 ["configurations", "inputs", "schedules"], "all configurations of all models, all seeds, input files, clocks, memory contents and legal I/O behaviours (short and interrupted transfers)",
 "Tests run one configuration once per fixed seed on the real clock and heap; none runs anything twice or perturbs the environment.",
 ["include/simulation.hpp", "src/main.cpp", "include/models", "include/util/math.hpp", "src/config_parser.cpp"],
 [("one generator owned by the simulation, seeded from the configuration", "include/simulation.hpp: Simulation()"), ("random seed default", "src/config_parser.cpp: parse_config_file")])
prop("P02", "Simulations in one process do not influence each other",
 """Several simulations that exist in one process at the same time, stepped alternately or run in different threads under any interleaving,
 each go through exactly the states and write exactly the files they would alone.""",
 ["schedules", "configurations"], "all interleavings of two or three simulations of any models, at basic-block granularity, and all alternations of their steps",
 "No test has two simulations alive at once, and an interleaving that matters is not under a unit test's control.",
 ["include/simulation.hpp", "include/models", "include/util/math.hpp", "include/network.hpp", "src/models"],
 [("all state lives in the Simulation, Model and Network objects", "include/simulation.hpp, include/model.hpp")])
prop("P03", "The output schedule is followed: which snapshots, which numbers, which state",
 """A run writes exactly the agent and network files its output settings ask for: the initial state when enabled, then every n-th iteration
 from the configured first one on, numbered consecutively from the configured number, and nothing else. Each file holds the state after
 exactly that iteration. A run killed at any moment has written an initial part of that schedule.""",
 ["configurations", "crash_points"], "all output intervals, first iterations, number offsets, models, inputs; killed at every file operation",
 "Tests check the existence of one or two files of one configuration and never their contents against the state, nor a run that dies.",
 ["include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp"], [("output conditions and file names in the run loop", "include/simulation.hpp: run")])
prop("P04", "Output and observation do not change the course of a simulation",
 """Changing what is written and when (intervals, initial output, numbering, progress lines), or reading, printing and saving the state of a
 simulation between its steps through the library, changes neither the states it goes through nor its number of iterations.""",
 ["configurations", "histories"], "all pairs of output settings, and all sequences of observations between steps",
 "Needs two runs that differ only in observation; tests have only one run per configuration.",
 ["include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp", "include/network.hpp"], [("writers take the network by const reference", "include/network_io.hpp, include/agent_io.hpp")])
prop("P05", "Saved agents and networks load back exactly",
 """Every agent attribute (opinion, activity, reluctance, velocity, binary opinion vector) and every neighbour and weight of every agent that
 is saved to a file is restored bit for bit when the file is loaded, including extreme, subnormal and infinite numbers, repeated neighbours and agents
 without neighbours; files with comments and varying spacing load as well. Saving what was loaded reproduces the file. A graph export lists exactly
 the stored neighbours of every agent.""".replace(". Saving what", "; saving what"),
 ["inputs", "histories", "schedules"], "all agent attributes and networks, all models' agents; reads and writes split and interrupted at random",
 "The input space is all doubles and graph shapes; tests load one hand-written file each and never write then read.",
 ["include/agent_io.hpp", "include/network_io.hpp", "include/network_generation.hpp", "include/agents", "include/util/misc.hpp"],
 [("agent to and from string", "include/agents/*.hpp"), ("network file reader", "include/network_generation.hpp: generate_from_file"), ("writers", "include/network_io.hpp, include/agent_io.hpp")])
prop("P06", "A crash leaves finished snapshots intact and other files untouched",
 """When a run is killed at any file operation (a write possibly torn) or runs out of memory after it started writing output, every snapshot of an earlier iteration than the one being written is
 complete and correct, a snapshot that was being written holds a prefix of its contents, and an allocation failure ends in an error, not in a
 crash. Input files, foreign files and everything outside the output directory are never changed, created or removed.""",
 ["crash_points", "fault_sequences", "configurations"], "a kill at every file operation with a tear at every byte, a failure of every allocation; with leftovers of earlier runs in the output directory",
 "Unit tests cannot stop the program at a chosen system call or tear a write.",
 ["include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp", "src/main.cpp"], [("each snapshot is written to its own file and closed before the next iteration", "include/network_io.hpp, include/agent_io.hpp")])
prop("P07", "A run can be stopped or killed and resumed from its own files",
 """Loading the last complete pair of agent and network files of a run restores exactly that state, snapshot numbering can continue where it
 ended, and the resumed run's inputs are left unchanged. For models whose step involves no chance (weighted averaging, mean-field activity models) the resumed
 run continues bit for bit as the uninterrupted one, with any seed and through any number of interruptions.""",
 ["crash_points", "histories", "configurations"], "all ways of cutting a run into sessions by early ends and kills at any file operation",
 "Needs histories of several program runs with kills in between; tests never resume from written output.",
 ["src/main.cpp", "include/simulation.hpp", "include/network_generation.hpp", "include/agent_io.hpp", "src/models"], [("-a and -n options", "src/main.cpp"), ("numbering offset", "include/simulation.hpp: run")])
prop("P08", "A run that could not write its output does not report success",
 """When any output file or directory cannot be created, written or closed (I/O error, full disk, permissions, names already in use), or standard output
 breaks, the program either ends with an error status or every file that was due is complete and correct. It never crashes.""",
 ["fault_sequences", "configurations"], "every write-side system call of every output file failing once or from then on, partially or at once; disks of every capacity; broken standard output",
 "The failures do not occur on a test machine and no test injects them.",
 ["include/network_io.hpp", "include/agent_io.hpp", "include/simulation.hpp", "include/util/misc.hpp", "src/main.cpp"], [("stream state checked after every file", "include/network_io.hpp, include/agent_io.hpp")])
prop("P09", "A run never proceeds on an input file it could not read completely",
 """When opening, seeking or reading the configuration, agent or network file fails, or reading ends before the end of the file, the program either ends with an
 error before writing any output, or its output is identical to that of an undisturbed run. It never runs on part of an input file and never crashes.""",
 ["fault_sequences", "inputs"], "every read-side system call on every input file failing once or from then on, and reads that end before the end of the file",
 "No test injects a read error; on a test machine reads never fail.",
 ["include/util/misc.hpp", "src/config_parser.cpp", "include/agent_io.hpp", "include/network_generation.hpp"], [("whole-file reader checks what it read", "include/util/misc.hpp: get_file_contents")])
prop("P10", "Malformed or inconsistent input is refused cleanly",
 """Invalid settings, damaged configuration text and agent or network files with missing, extra, cut, garbled or mutually inconsistent data (numbers of
 agents, lengths of opinions, unknown neighbours) are refused with an error and without output, or the run completes normally; the program never crashes, hangs, or reads or writes
 out of bounds. Always refused are settings outside their range (time step, eps, thresholds and reluctance parameters not above 0, gamma not above 2, negative contact
numbers, controversialness, reciprocity, friction or tolerance, mu outside [0,1], covariance outside [-1,1], dimension 0, output intervals or first
iteration 0, unknown models, bot lists that are too short, more bots than agents, lattices that are not square), and input files that do not match the number of agents.""",
 ["inputs", "configurations"], "random settings at and beyond every limit; random damage to valid configuration, agent and network files",
 "Tests use valid inputs and a handful of invalid settings; the space of damaged files is unbounded.",
 ["src/config_parser.cpp", "include/agent_io.hpp", "include/network_generation.hpp", "include/simulation.hpp", "include/models/ActivityDrivenModel.hpp"], [("validate_settings", "src/config_parser.cpp"), ("consistency checks on loaded files", "include/simulation.hpp, include/network_generation.hpp")])
prop("P11", "Runs stop when they should",
 """A run with a maximum number of iterations does exactly that many; the averaging model stops, with or without a maximum, at the first iteration whose largest opinion
 change is below the tolerance (default 1e-6), never earlier and never later. Running the same simulation again starts counting anew,
 applies the same rule and continues from the state reached.""",
 ["configurations", "histories"], "all models, limits and tolerances, loaded and generated states, repeated runs of one simulation and steps by hand before",
 "Tests run fixed iteration counts; stopping depends on the whole trajectory and on earlier runs of the same object.",
 ["include/model.hpp", "src/models/DeGroot.cpp", "include/models", "include/simulation.hpp"], [("iteration counter and finished()", "include/model.hpp"), ("largest change", "src/models/DeGroot.cpp")])
prop("P12", "Averaging model: each step is the weighted average of the neighbours' opinions",
 """In every iteration of the averaging (DeGroot) model every agent's new opinion is the sum of its neighbours' previous opinions weighted with the
 weights it gives them, all agents updating simultaneously. On row-stochastic networks opinions stay within the previous range; the network never changes.""",
 ["histories", "configurations", "crash_points"], "all networks, opinions and lengths, generated and loaded, killed and resumed",
 "Tests check one small network's fixed point; simultaneous update and every intermediate state are not looked at.",
 ["src/models/DeGroot.cpp", "include/models/DeGroot.hpp"], [("two copies of the agents", "src/models/DeGroot.cpp: iteration")])
prop("P13", "Bounded confidence: pairs meet halfway, opinions are conserved",
 """In every iteration of the basic bounded confidence (Deffuant) model the new opinions follow from as many pairwise meetings as there are agents: two
 different agents closer than the threshold both move towards each other by the configured fraction of their distance, anything else
 stays. So the sum of opinions is conserved, no opinion leaves the range, and agents without anyone within reach never move.""",
 ["schedules", "histories", "configurations"], "all sequences of meetings, including extreme random draws, all parameters; killed and resumed",
 "Which agents meet is random; tests check one two-agent outcome.",
 ["src/models/DeffuantModel.cpp", "include/models/DeffuantModel.hpp"], [("update rule", "src/models/DeffuantModel.cpp"), ("choice of the pair", "include/models/DeffuantModel.hpp")])
prop("P14", "Bounded confidence on a lattice: only lattice neighbours meet",
 """On the square lattice the same rule applies to adjacent cells of a periodic square only: the network is and stays that lattice, agents without a neighbour within the threshold do not move in
 that meeting, the sum of opinions is conserved and no opinion leaves its range.""",
 ["schedules", "histories", "configurations"], "all sequences of meetings on lattices of 2x2 to 12x12, all parameters; killed and resumed",
 "Tests check one lattice with a two-cluster end state.",
 ["src/models/DeffuantModel.cpp", "include/models/DeffuantModel.hpp", "include/network_generation.hpp"], [("lattice", "include/network_generation.hpp: generate_square_lattice"), ("choice of the neighbour", "include/models/DeffuantModel.hpp")])
prop("P15", "Binary opinion vectors change only by copying from agents within reach",
 """With binary opinion vectors, entries stay 0 or 1 and every new state follows from as many meetings as there are agents, in which two different agents
 (neighbours, on a lattice) within the threshold in Hamming distance each may take over entries they disagree on from the other's opinion before the meeting; pairs farther apart do not
 change.""",
 ["schedules", "histories", "configurations"], "all sequences of meetings and coin flips, all thresholds, dimensions and mixing rates; killed and resumed",
 "Every step is random; tests check one two-group end state.",
 ["src/models/DeffuantModelVector.cpp", "include/models/DeffuantModel.hpp"], [("update rule", "src/models/DeffuantModelVector.cpp")])
prop("P16", "The contact network of every iteration obeys the contact rules",
 """In every iteration of the sampled activity-driven models the network contains only contacts of that iteration: agents of activity 0 make none, agents of activity 1 make exactly their
 configured number (at most everybody else), to different others and never themselves; with reciprocity 1 every contact is mutual, with reciprocity 0 contacts go one way
 only, and each edge has weight 1 and occurs once.""",
 ["schedules", "histories", "configurations"], "all activities, homophilies, reciprocities, numbers of contacts and bots, extreme random draws, killed and resumed",
 "The network is redrawn each step; tests with the sampled network only compare averages or fixed two-agent cases.",
 ["include/models/ActivityDrivenModel.hpp", "include/network.hpp", "include/util/math.hpp"], [("contact sampling and reciprocity", "include/models/ActivityDrivenModel.hpp: update_network_probabilistic"), ("removing double edges", "include/network.hpp: remove_double_counting")])
prop("P17", "Activity-driven model: each step is the Runge-Kutta step of its equation",
 """Every iteration of the activity-driven model advances the opinions by one classical fourth-order Runge-Kutta step, with the configured time step, of: rate of change equals
 minus opinion plus (coupling K divided by the agent's reluctance) times the weighted sum over incoming neighbours of tanh(controversialness alpha times neighbour's opinion), on the network
 of that step. Activities and reluctances never change.""",
 ["histories", "configurations", "crash_points"], "all parameters, networks, bots and reluctances; killed and resumed",
 "Tests check limits (no coupling, one fixed point) with loose tolerances; not every step on every network.",
 ["include/models/ActivityDrivenModel.hpp", "src/models/ActivityDrivenModel.cpp"], [("Runge-Kutta stages", "include/models/ActivityDrivenModel.hpp, src/models/ActivityDrivenModel.cpp")])
prop("P18", "Inertial model: each step is the velocity Verlet step with friction",
 """Every iteration of the inertial model advances opinions and velocities by one velocity Verlet step, with the configured time step, whose acceleration is the right-hand
 side of the activity-driven model (minus opinion plus K divided by reluctance times the weighted sum of tanh(alpha times neighbour's opinion)) minus friction times velocity, on the network of
 that step; activities and reluctances never change.""",
 ["histories", "configurations", "crash_points"], "all parameters, networks, bots and reluctances; killed and resumed",
 "Tests check two analytic trajectories without a network.",
 ["src/models/InertialModel.cpp", "include/models/InertialModel.hpp"], [("drift, friction and acceleration", "src/models/InertialModel.cpp")])
prop("P19", "Bots keep their configured opinion and use their own settings",
 """The configured number of first agents are bots: throughout every run, generated or loaded, killed or resumed, their opinions are the configured values
 after every iteration, also in the inertial model, while they influence others like any agent, and they make contacts with their own number of contacts, activity and homophily; entries beyond the number of bots are ignored; what is not given defaults to opinion 0, activity 1 and the
 contacts and homophily of ordinary agents. All other agents evolve by the model.""",
 ["histories", "configurations"], "all numbers of bots from one to everybody, settings given or not, loaded files, all models with bots",
 "Tests have one configuration with fixed bots, checked for the integrator only.",
 ["include/models/ActivityDrivenModel.hpp", "src/models/InertialModel.cpp", "src/config_parser.cpp"], [("bot checks in the integrators and in contact sampling", "include/models/ActivityDrivenModel.hpp")])
prop("P20", "Mean-field weights are the expected contacts",
 """In mean-field runs the weight an agent gives another equals, in every iteration, the expected number of contacts by which it is influenced by that other: from homophily, activities, numbers of
 contacts (bots with their own) and reciprocity at the current opinions; no agent weighs itself.""",
 ["histories", "configurations"], "all parameters, opinions and bots, every iteration, killed and resumed",
 "One test compares an average network within 10%; the weights of each step and pair are not checked.",
 ["include/models/ActivityDrivenModel.hpp"], [("update_network_mean", "include/models/ActivityDrivenModel.hpp")])
prop("P21", "Initial states are as documented",
 """A generated initial state has evenly spaced opinions i/n for the averaging and basic bounded confidence models; binary vectors of the configured length; for activity-driven models opinions in [-1,1], activities in
 [eps,1] (or all equal to their mean), reluctances above their lower bound (1 when unused) and zero velocity, bots as configured. A generated network
 gives every agent itself and the configured number of different others (at most everybody) with nonnegative weights that add up to 1; lattices and mean-field networks start as documented with zero weights.""",
 ["configurations", "schedules"], "all parameters of all models and all seeds, including extreme random draws",
 "Tests draw a few seeds; extreme draws (0, largest) practically never occur in them.",
 ["include/network_generation.hpp", "src/models", "include/models/ActivityDrivenModel.hpp", "include/util/math.hpp", "include/simulation.hpp"], [("generators", "include/network_generation.hpp"), ("initial agents", "include/models/*.hpp")])
prop("P22", "The network behaves like adjacency lists, also when memory runs out",
 """Under any sequence of its operations (construction, generation, setting and adding edges, transposing, changing between incoming and outgoing edges, merging repeated edges, clearing, counting, saving, finding strongly
 connected components) a network behaves like a plain list of weighted edges; sizes that do not match are refused. An operation that fails
 for lack of memory leaves lists of neighbours and weights of equal length, and drawing k different numbers out of n yields exactly min(k, available) different valid ones.""",
 ["histories", "fault_sequences", "inputs"], "all sequences of operations on networks of up to a few dozen agents, with a failure of any allocation",
 "Tests call each operation once on a fixed small graph; no test makes an allocation fail.",
 ["include/network.hpp", "include/network_generation.hpp", "include/connectivity.hpp", "include/util/math.hpp"], [("Network", "include/network.hpp"), ("Tarjan", "include/connectivity.hpp"), ("sampling without replacement", "include/util/math.hpp")],
 ["results of the library calls"])
prop("P23", "Random choices follow their stated probabilities",
 """Over seeds, agents become active with their activity, contacts are drawn without replacement with probability proportional to distance to the power of minus homophily, contacts are answered with the reciprocity, pairs meet uniformly (lattice neighbours uniformly), initial
 opinions, activities (power law) and reluctances (truncated normal, with the configured correlation) follow their distributions independently for successive agents, generated neighbours are uniform, and initial binary opinions are fair coins. When two binary opinions meet,
 every entry they disagree on is settled by itself, one of the two taking over the other's with probability (1-mu)/2 and the other way round otherwise.
 Draws from a list follow their weights, and the densities the distributions report are, over the range drawn from, those of the values they draw.""",
 ["schedules", "configurations"], "seeds and parameters drawn at random; each frequency against its exact expectation at error probability 1e-11",
 "One seed says nothing about a law; tests compare a few histograms loosely or not at all.",
 ["include/models/ActivityDrivenModel.hpp", "include/models/DeffuantModel.hpp", "include/util/math.hpp", "include/network_generation.hpp", "src/models"], [("draws and distributions", "include/util/math.hpp")],
 ["states over many iterations"])
prop("P24", "Connectivity of the network is reported correctly, also for large networks",
 """The averaging model warns exactly when its network does not consist of one strongly connected component, and states the right number of components, for
 every network up to large chains and rings, without needing stack space that grows with the network; the run then proceeds as specified.""",
 ["inputs", "configurations"], "chains, rings, trees, stars and random networks of 2 to 100000 agents, loaded from files, on a bounded stack",
 "Tests compute components of one 11-agent graph; the warning and large graphs are not tested.",
 ["include/connectivity.hpp", "src/models/DeGroot.cpp", "include/network.hpp"], [("Tarjan's algorithm", "include/connectivity.hpp"), ("warning", "src/models/DeGroot.cpp")],
 ["messages of the program", "exit status"])
prop("P25", "Numerical special functions and densities are accurate",
 """The inverse error function, densities, inverse distribution functions, medians and means of the library's probability distributions agree with their mathematical definitions to the stated accuracy over their whole domain.""",
 ["inputs"], "all arguments", "Tests sample a few arguments.",
 ["include/util/erfinv.hpp", "include/util/math.hpp"], [("erfinv", "include/util/erfinv.hpp")], ["return values"])
prop("P26", "The configuration that was written is the one in use",
 """Every documented key of a configuration file sets the option it documents and no other, in every order, spelling and layout TOML allows and with foreign keys
 and sections present; keys that are absent take the documented defaults, whatever was read before in the same process. A value its option cannot hold
 (another type, a fraction for a whole number, out of the range of the type, a list that is none) is refused, never ignored or altered. The settings printed at the start of a run are
 the ones in use. When the file cannot be read completely, it is refused or the options are nevertheless exactly those written.""",
 ["inputs", "fault_sequences", "histories"], "all assignments of valid values to the documented keys of all models, all layouts; values of other types and sizes; reading errors, short and interrupted reads; configurations read one after another",
 "Tests parse one hand-written file per model, once each, without faults and never look at what is printed.",
 ["src/config_parser.cpp", "include/config_parser.hpp"], [("set_if_specified and defaults", "src/config_parser.cpp: parse_config_file"), ("print_settings", "src/config_parser.cpp")], ["parsed options", "printed settings"])
prop("P27", "The command line is obeyed and what a run reports is true",
 """Options of the command line may come in any order and form; the named output directory is created with its parents and receives all the output, and the named agents and network files
 are the ones used. A wrong command line or a missing configuration file ends in a failure status without output, help in success. The progress lines, when enabled, are one per iteration
 in order; the final line states the number of iterations really done; the times reported lie within the time the run really took.""",
 ["inputs", "configurations", "schedules"], "all orders and forms of the options, wrong command lines, all models and output settings, clocks at any pace, legal I/O behaviours",
 "No test runs the program itself; elapsed times need a clock under control.",
 ["src/main.cpp", "include/simulation.hpp"], [("argument parser", "src/main.cpp: main"), ("progress and final lines", "include/simulation.hpp: run")], ["exit status", "output directory", "standard output"])
prop("P28", "Simulations leave nothing behind in the process",
 """A simulation that ended, or that failed half-way because an allocation, a read, a write, a print or its input failed, reports failure by an exception that can be caught, and once it is destroyed
 has closed every file and released all memory it took, however often this happens. No code writes outside the memory it allocated or to memory it released.
 A simulation that runs in the process afterwards does exactly what it does in a fresh process.""",
 ["fault_sequences", "histories", "configurations"], "failures of every allocation after the configuration is read and of every file and print operation, alone or lasting, in any number of simulations one after another, all models",
 "Tests construct a few simulations that all succeed, and nothing counts what they hold.",
 ["include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp", "include/network.hpp", "include/models", "include/util"], [("ownership by values and unique_ptr, files closed by their destructors", "include/simulation.hpp, include/network_io.hpp, include/util/misc.hpp")], ["exceptions", "open files", "memory held", "files of later simulations"])
prop("P29", "Long runs need no more than short ones",
 """The memory a simulation holds while it runs, the number of files it has open and the work it does per iteration do not grow with the number of iterations done or of snapshots written;
 a run is as long as the iterations asked for, at any length.""",
 ["histories", "configurations", "faults"], "all models and output settings, runs of hundreds to thousands of iterations, legal I/O behaviours",
 "Tests run few iterations and look at results, not at what a run holds while it lasts.",
 ["include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp", "include/network.hpp", "include/models", "include/util"], [("one state, replaced in every iteration; streams closed after every snapshot", "include/simulation.hpp, include/models, include/network_io.hpp")], ["peak memory", "open files", "work per iteration"])
prop("P30", "Runs that go on at the same time on one disk do not disturb each other",
 """Any number of processes of the program that share a disk and a working directory, started together and interleaved in any way, end with the same status, do the same iterations and write the same
 files as each would alone: into directories beside or inside each other (also when these have to be created), into one directory under different snapshot numbers, or the same run several times into one directory,
 reading the same input files; also when another of them is killed or hit by an I/O error. None of them waits for another or touches anything but its own snapshots.""",
 ["schedules", "fault_sequences", "configurations"], "two to four processes, switches at any basic block and file operation, random configurations and input files, kills and I/O errors of one process",
 "Tests run in one process; what several do to each other depends on the interleaving of their file operations.",
 ["src/main.cpp", "include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp", "include/util/misc.hpp"], [("no state on disk but the snapshots themselves; directories are created whether they exist or not", "src/main.cpp, include/simulation.hpp: run")], ["files of every process", "exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
