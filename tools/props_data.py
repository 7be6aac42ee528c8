def define(prop):
    prop(
        "C01",
        "Compiled decision logic means what the controller source says",
        "For every controller written in the supported Python subset and every state of the agents, the discrete decisions of one step are exactly those the source allows: each enabled branch may be taken, with the assignments on its path (modes and variable resets) applied to the pre-state, and every disabled branch is not. Comparisons, boolean connectives, arithmetic, any/all/sum over other agents (with filters), helper functions, conditional expressions and local variables evaluate as in Python. No assignment, branch or test in the source is dropped, duplicated or attributed to another branch.",
        ["programs", "inputs"],
        "every controller program of a bounded grammar x every state of a small alphabet that straddles each guard boundary",
        "the tests compile a handful of fixed controllers and never compare the enabled decisions with the source; meaning preservation quantifies over programs and states",
        ["verse/parser/parser.py", "verse/parser/astunparser.py", "verse/automaton/guard.py", "verse/automaton/reset.py", "verse/analysis/simulator.py"],
        [("compilation of decision logic into guarded paths", "verse/parser/parser.py: ControllerIR.parse, proc"), ("guard evaluation", "verse/automaton/guard.py: GuardExpressionAst.evaluate_guard*"), ("resets", "verse/analysis/simulator.py: apply_reset")],
        "bounded exhaustive enumeration of controller programs x states on the real compiler and engine, against a direct interpreter of the source",
        "every program of the grammar within the stated bounds; trusts the reference interpreter (nondeterministic-if semantics) and numpy",
    )
    prop(
        "C02",
        "Simulation explores exactly the scenario's executions",
        "The tree computed by simulation contains exactly the executions of the scenario: in each node the agents follow their dynamics from the node's initial state until the first sample at which a transition is enabled and permitted by the map, or the horizon; there is one child per joint choice of enabled alternatives, with the chosen modes, the reset values and the remaining agents' states at that sample. Transitions the map does not allow are not taken, static and uncertain parameters stay unchanged, and depth limits only cut the tree. Times are global and consecutive.",
        ["programs", "inputs", "configurations"],
        "every scenario of bounded families: controllers, initial states, agent counts, time steps, horizons, depth limits, lane maps",
        "the stable tests run a few demo scenarios and check that they do not crash; the exact tree for all scenarios needs an independent reference",
        ["verse/analysis/simulator.py", "verse/analysis/analysis_tree.py", "verse/scenario/scenario.py", "verse/automaton/guard.py", "verse/sensor/base_sensor.py"],
        [("simulation loop", "verse/analysis/simulator.py: simulate_one, simulate"), ("transition computation", "verse/analysis/simulator.py: get_transition_simulate")],
        "bounded exhaustive enumeration of scenarios on the real engine, each full tree compared with an explicit-state reference simulator",
        "exact tree equality within the bounds; constant-rate dynamics so that every sample is exact",
    )
    prop(
        "C03",
        "Simulation reports an assertion exactly when an execution violates it",
        "Simulation marks a node with an assertion of an agent if and only if some sample of that node's execution violates it (its path condition holds and its test fails); the reported labels are exactly the ones violated at the first violating sample, the trace stops there and the execution is not continued. When the user asks to continue past unsafe states the full trace is kept and the violations are still reported. This holds for every agent, labelled or not, and in sequential or parallel runs.",
        ["programs", "inputs", "configurations"],
        "every controller/assertion combination of bounded families x initial states x engine options",
        "a missed or spurious safety report can hide in any path; the tests check no assertion verdict",
        ["verse/analysis/simulator.py", "verse/parser/parser.py", "verse/automaton/guard.py", "verse/analysis/analysis_tree.py"],
        [("assertion checks at every sample", "verse/analysis/simulator.py: get_transition_simulate"), ("assertion extraction with path conditions", "verse/parser/parser.py: proc")],
        "bounded exhaustive enumeration of scenarios with assertions on the real engine against an explicit-state reference monitor",
        "exact agreement of reported labels, cut points and continuation on every case within bounds",
    )
    prop(
        "C04",
        "Parallel execution gives the sequential result for every completion order",
        "With parallel execution enabled, simulation and verification return the same tree as a sequential run, whatever order the tasks complete in and whatever look-ahead is configured. Every node appears once with a unique id, and no assertion report, branch or trace is lost or duplicated.",
        ["schedules", "configurations"],
        "every completion order of outstanding tasks at every wait (all schedules by increasing deviations), for branching scenarios, look-ahead settings and depth limits",
        "tests never run in parallel mode under controlled order; a run shows one schedule out of many",
        ["verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/analysis/incremental.py", "verse/analysis/analysis_tree.py"],
        [("task queue, result hand-back", "verse/analysis/simulator.py: simulate, proc_result"), ("task queue", "verse/analysis/verifier.py: compute_full_reachtube, proc_result")],
        "stateless model checking: exhaustive enumeration of task completion orders under a controlled ray scheduler, oracle = sequential tree",
        "all schedules up to the reported cap per case (ordered by number of deviations); tasks are atomic and exchange copies, as with real ray",
    )
    prop(
        "C05",
        "Incremental runs give the result of a run without a cache",
        "With incremental mode on, running a scenario again after any sequence of changes to its initial sets, to the agents' decision logic or to horizon and time step gives what a fresh run without cache gives for the scenario as it is now: simulation returns the same tree (traces, times, modes, transitions, assertion reports), and verification repeats its tree when nothing changed and otherwise still covers every execution that a fresh verification covers.",
        ["histories", "configurations"],
        "every history of one and two changes out of an alphabet of initial sets, controllers and run parameters, on several starting scenarios",
        "stale cache entries show only after particular histories; the tests never compare an incremental run with a fresh one",
        ["verse/analysis/incremental.py", "verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/scenario/scenario.py"],
        [("trace and tube caches", "verse/analysis/incremental.py: SimTraceCache, TubeCache, ReachTubeCache, reuse_transitions"), ("cache use", "verse/analysis/simulator.py: simulate, proc_result; verse/analysis/verifier.py: compute_full_reachtube, check_cache_bloated_tube")],
        "exhaustive exploration of operation histories on the real scenario object, oracle = fresh run without cache (and reference executions for verification)",
        "histories of up to two changes within the stated alphabets; maps, dynamics and sensors do not change",
    )
    prop(
        "C06",
        "A decision step over sets takes exactly the enabled transitions and images",
        "When verification meets a set of states (a box per agent), it takes exactly the transitions that some state in the set enables: the successor modes are those the controller source allows for some state, and the successor set of each is the smallest box containing the reset values of the set's states. A reset that depends on several variables is evaluated with all of them, independently of their names, order or sign; variables not assigned and other agents' sets stay as they were. Transitions that the lane map does not permit are never taken.",
        ["programs", "inputs"],
        "every controller of a bounded grammar x every box of an alphabet of boxes straddling, touching and missing the guards, for ego and others",
        "soundness quantifies over all points of a set and all controllers; the tests never compare successor sets with anything",
        ["verse/analysis/verifier.py", "verse/automaton/guard.py", "verse/automaton/reset.py", "verse/sensor/base_sensor.py", "verse/parser/parser.py"],
        [("transition computation over boxes", "verse/analysis/verifier.py: get_transition_verify_opt, apply_reset"), ("guards over sets", "verse/automaton/guard.py: evaluate_guard_cont, evaluate_guard_disc, evaluate_guard_hybrid, parse_any_all_new")],
        "bounded exhaustive enumeration of controllers x boxes on the real verifier, against an explicit-state interpreter over a grid that contains all decisive points",
        "exact equality of successor (mode, box) sets within the bounds; assigned expressions affine in each variable",
    )
    prop(
        "C07",
        "Verification reports an assertion iff the reachable set may violate it",
        "Verification marks a node with an assertion of an agent if and only if some state of the node's reachable set, from the start of the mode to where the analysis stops, satisfies the assertion's path condition and falsifies its test. The computed tube is cut behind the first such segment and the mode is not left from there; with the option to continue past unsafe states the whole tube is kept and the violation is still reported. This holds for every agent and every assertion form, including quantified ones over other agents.",
        ["programs", "inputs", "configurations"],
        "every assertion of a bounded grammar x boxes and tubes straddling, touching and missing the violating set x options",
        "a safety verdict must hold for all states of a set; no test checks a verdict",
        ["verse/analysis/verifier.py", "verse/automaton/guard.py", "verse/parser/parser.py"],
        [("assertion check per segment", "verse/analysis/verifier.py: get_transition_verify_opt"), ("unsafe truncation", "verse/analysis/verifier.py: compute_full_reachtube_step")],
        "bounded exhaustive enumeration of assertion programs x sets on the real verifier, against an explicit-state monitor over all decisive points",
        "exact verdict, cut and labels within the bounds",
    )
    prop(
        "C08",
        "Verification covers every execution from the initial set",
        "Every execution that starts in the initial set is contained in the tree computed by verification: there is a chain of nodes with the execution's modes such that each sample of each agent lies in the tube segment of its time, or the execution passes through a node that is reported unsafe. This holds for several agents switching in any order or at the same time, for re-entry of the same mode, for variable resets, and for every setting of how initial sets are combined.",
        ["programs", "inputs", "configurations"],
        "every automaton of bounded families x flow tables x initial boxes x segment-combination settings, and all executions from a grid of initial points",
        "coverage quantifies over all initial states and mode sequences; the tests only check that verification runs",
        ["verse/analysis/verifier.py", "verse/analysis/dryvr.py", "verse/analysis/analysis_tree.py", "verse/automaton/guard.py", "verse/scenario/scenario.py"],
        [("reachable tree construction", "verse/analysis/verifier.py: compute_full_reachtube_step, get_transition_verify_opt"), ("tube per mode", "verse/analysis/verifier.py: calculate_full_bloated_tube")],
        "bounded exhaustive enumeration of hybrid scenarios on the real verifier; every execution of an explicit-state reference executor from a grid of initial points is matched against the tree",
        "within the bounds; constant-rate decoupled flows, guards that are not left again once enabled (transient guards are a known finding)",
    )
    prop(
        "C09",
        "Lane coordinates are geometric and lane changes lead to the lane meant",
        "On every 2D lane (a chain of straight, corner and circular segments), longitudinal position, lateral distance, heading, position, width and segment of a point are the geometric ones of a segment the point lies on, with longitudinal positions continuing from segment to segment and positive lateral distance on the same side everywhere; positions on a segment are told from positions before, after and beside it, and a segment's configuration describes the same segment; a lane's virtual lane-change names resolve to the physical lane. In every shipped 2D map the transition table allows exactly the lane changes to lanes that exist, a change to the left (right) leads through the virtual lane to the lane geometrically on the left (right), and the existence query agrees with the table. Lanes left of the reference line of an OpenDRIVE file get the geometry the file describes.",
        ["inputs"],
        "every chain of up to three segments of an alphabet x poses x widths x a grid of points on it; every (lane, mode, mode) of every shipped map; OpenDRIVE files of a bounded family",
        "the tests look up no coordinate and no table entry",
        ["verse/map/lane.py", "verse/map/lane_segment.py", "verse/map/lane_map.py", "verse/map/opendrive_parser.py", "verse/map/example_map/simple_map2.py", "verse/map/example_map/intersection.py", "verse/map/example_map/map_tacas.py"],
        [("lane coordinates", "verse/map/lane.py, lane_segment.py: local_coordinates, get_lane_segment"), ("lane-change tables", "verse/map/example_map: h, h_exist"), ("OpenDRIVE import", "verse/map/opendrive_parser.py: opendrive_map")],
        "exhaustive enumeration of lane shapes, points and lane-change queries on the real maps against an independent geometric model",
        "agreement to 1e-6 on every enumerated point; arcs below 180 degrees",
    )
    prop(
        "C10",
        "Lane functions in guards cover every position of a set",
        "When a guard uses a lane function (longitudinal position or lateral distance of an agent on its own or another agent's lane) verification considers every value the function takes at some position of the set: a transition that some position enables is taken, also when the set reaches over several segments, around curves or where angles wrap around. On sets inside one segment it does not consider values beyond the function's exact range, and the same call has one value within a guard. This holds for straight, corner and circular segments at any place and heading, on physical and virtual lanes, and for relations between the positions of several agents.",
        ["programs", "inputs"],
        "lane functions x chains of up to three segments x poses x boxes of several sizes along and across the lane, thresholds at the extremes over each box",
        "a missed value makes verification unsound for particular places and headings only; the tests use straight lanes along the axes",
        ["verse/automaton/guard.py", "verse/map/lane.py", "verse/map/lane_segment.py", "verse/map/lane_map.py"],
        [("ranges of lane functions over boxes", "verse/automaton/guard.py: _handle_lane_set, _handle_longitudinal_set, _handle_lateral_set"), ("replacement of calls in guards", "verse/automaton/guard.py: evaluate_guard_hybrid")],
        "bounded exhaustive enumeration of lanes x boxes on the real verifier, against an explicit enumeration of the positions in each box with a geometric reference",
        "thresholds 2 mm inside (outside) the extremes over a 9x9 grid of each box (the exact range on one segment)",
    )
    prop(
        "C11",
        "Tubes of one mode enclose all trajectories, for every reachability method",
        "For every reachability method and bloating option (DryVR piecewise and global, its discrete form, mixed monotone decomposition in continuous and discrete time with a given or a derived decomposition) the tube computed for one mode encloses all trajectories from the initial set: segment by segment, starting at the initial set, on the sampling grid, up to the horizon. Where samples determine the flow it is no larger than the method's bloating formula. Dimensions without width and single-step horizons are no exception. A mode that several sets enter is covered from all of them. For mixed monotone dynamics this includes every disturbance within its bounds; derived discrete decompositions are for dynamics monotone in each variable over the box.",
        ["inputs", "configurations"],
        "affine flows of a table x initial boxes (with and without width, up to 4 dimensions) x time grids x methods; mixed monotone systems x boxes x disturbances at all corners",
        "soundness of tubes quantifies over all states of a set; the tests never compare a tube with trajectories",
        ["verse/analysis/dryvr.py", "verse/analysis/dryvr_disc.py", "verse/analysis/mixmonotone.py", "verse/analysis/verifier.py"],
        [("tube per mode", "verse/analysis/verifier.py: calculate_full_bloated_tube, compute_full_reachtube_step"), ("discrepancy and bloating", "verse/analysis/dryvr.py, dryvr_disc.py: bloat_to_tube, global_discrepancy, piece_wise_discrepancy"), ("mixed monotone", "verse/analysis/mixmonotone.py: calculate_bloated_tube_mixmono_cont, calculate_bloated_tube_mixmono_disc")],
        "exhaustive enumeration of flows x boxes x grids x methods on the real implementation, against the exact tube (affine flows) and against all trajectories from a grid of corner, edge and middle states",
        "exact equality with the method's formula on affine flows; containment of all enumerated trajectories otherwise",
    )
    prop(
        "C12",
        "Built-in agents follow their dynamics on the sampling grid",
        "A trajectory of a built-in agent (car, debounced car, two-lane-switch car, NPC, the deviating car, ball, ball under gravity, line, robot, sign, Van der Pol, thermostat, rendezvous craft, the quadrotor in closed loop) or of a user's agent that only gives its dynamics starts at the given state at time 0, has one sample per time step up to the horizon whatever the rounding of horizon / step, and follows the agent's differential equation in the given mode, with the car's steering and acceleration held over each step and computed from the lane its mode tracks, at any heading. Continuing from any sample gives the rest of the trajectory; earlier uses of the agent do not matter and the initial state is not modified.",
        ["inputs", "configurations"],
        "every agent x mode x lane shape x pose x grid of states x time grids, with every split of the horizon",
        "the tests run agents only from a few states on straight lanes",
        ["verse/agents/base_agent.py", "verse/agents/example_agent/car_agent.py", "verse/agents/example_agent/ball_agent.py", "verse/agents/example_agent/ballg_agent.py", "verse/agents/example_agent/line_agent.py", "verse/agents/example_agent/robot_agent.py", "verse/agents/example_agent/sign_agent.py", "verse/agents/example_agent/origin_agent.py", "verse/agents/example_agent/quadrotor_agent.py"],
        [("simulation of one mode", "verse/agents/base_agent.py and example_agent/*.py: TC_simulate"), ("controllers", "verse/agents/example_agent/car_agent.py: action_handler"), ("dynamics", "verse/agents/example_agent/*.py: dynamics")],
        "exhaustive enumeration of agents x modes x states x lanes x grids on the real agents, against an independent integration with a geometric lane reference",
        "1e-6 (cars: each step from the sample before it) and 2e-4 relative (others, whole trajectory)",
    )
    prop(
        "C13",
        "Result trees survive saving and loading, and comparing them is containment",
        "A tree returned by simulation or verification, by any reachability method and with or without unexplored nodes or reported assertions, can be saved and loads again with the same nodes, structure, modes, initial states, traces, times and assertion hits. Comparing two trees decides what it says: a reach tree contains another iff in every time segment and dimension the union of its ranges (widened by the tolerance) contains the other's; a simulation tree contains another iff they have the same shape up to the order of children and all states agree within the tolerance; the agents have to be the same, or a superset if not strict; equality is containment both ways. Node lists, leaves, heights, first transition times and the graphs drawn of it (nodes, edges, the agents that change along them) describe the tree.",
        ["inputs", "programs"],
        "trees of bounded families of scenarios x analyses; all ordered pairs of small trees",
        "one stable test dumps nothing and compares nothing; the definitions quantify over all tree shapes",
        ["verse/analysis/analysis_tree.py"],
        [("saving and loading", "verse/analysis/analysis_tree.py: dump, load, _to_dict, _from_dict"), ("comparison", "verse/analysis/analysis_tree.py: contains, is_equal"), ("queries", "verse/analysis/analysis_tree.py: leaves, get_leaf_nodes, height, first_transitions")],
        "exhaustive enumeration of result trees and of all pairs of small trees on the real operations, against direct definitions",
        "exact within the bounds; compared trees share a time step",
    )
    prop(
        "C14",
        "Direct simulation runs the controllers as Python does",
        "simulate_simple follows the execution one gets by running every agent's controller as a Python function on every sample: the mode ends at the first sample where some controller returns something else than the agent's state or fails an assertion; all agents whose controllers do so change together, to exactly the returned modes and states, and the others continue; an assertion failure, labeled or not, ends the execution and is reported for its agent. Agents with nothing but assertions, agents without controller and lane-map parameters of any name included; horizons and depth limits are respected.",
        ["programs", "inputs", "configurations"],
        "every controller of a bounded grammar x initial states x rates x time grids x depth limits; 1 to 3 agents; lane maps",
        "the tests run it on no controller with assertions or several agents, and compare nothing",
        ["verse/analysis/simulator.py", "verse/scenario/scenario.py", "verse/sensor/base_sensor.py"],
        [("direct execution", "verse/analysis/simulator.py: simulate_simple, get_transition_simulate_simple, pack_env")],
        "bounded exhaustive enumeration of controllers and scenarios on the real simulator, against executing the source on every sample",
        "exact execution equality within the bounds; constant-rate dynamics",
    )
    prop(
        "C15",
        "Results depend only on the scenario as configured, not on its history",
        "With incremental analysis off, whatever sequence of configuration calls (initial sets for all or one agent, maps, sensors, configuration, further agents) and analyses (verification, simulation in its variants, clearing caches) was made on a scenario, and whatever was done with its agents in other scenarios or with other scenarios' configurations, each analysis gives what a fresh scenario with the same configuration gives; it changes neither results returned before nor lists the user passed. Simulations start in the initial set, at a state determined by the seed; verification starts from exactly that set, whether it was given to the scenario or to the agents.",
        ["histories", "configurations"],
        "all sequences of operations up to a depth; initial sets x seeds x ways to give them",
        "tests make one analysis per scenario",
        ["verse/scenario/scenario.py", "verse/agents/base_agent.py", "verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/utils/utils.py"],
        [("scenario state", "verse/scenario/scenario.py: Scenario"), ("initial states", "verse/scenario/scenario.py: _get_init_from_agent, set_init_single; verse/utils/utils.py: sample_rect")],
        "explicit exploration of all operation sequences up to a depth on the real Scenario, each analysis compared with a fresh scenario in the model's state",
        "exact result equality within the bounds",
    )
    prop(
        "C16",
        "Verification with partitioned initial sets covers every execution",
        "verify_partitioned, which splits the initial set of every mode entered and unites the tubes of the parts, covers every execution that starts in the initial set, for every number of parts, choice of partitioned dimensions and treatment of the initial partition: wherever in a tube the guard of a transition is hit, by however many segments, the executions that take it there are continued; branching, several agents, lane maps, depth limits and reported assertions (with or without continuing past them) are as without partitions. Where the tube of a set is exact, partitions change nothing: the tree is the one of verify.",
        ["inputs", "programs", "configurations"],
        "the automata, flows, boxes, agents and maps of C08, and wide boxes that hit a guard in many segments, x partitions",
        "no test calls it; soundness quantifies over all executions of a set",
        ["verse/analysis/verifier.py", "verse/scenario/scenario.py"],
        [("partitioned verification", "verse/analysis/verifier.py: compute_full_reachtube_partitioned, compute_full_reachtube_step_partitioned, _partition_rect, _union_traces"), ("entry point", "verse/scenario/scenario.py: verify_partitioned")],
        "exhaustive enumeration of automata x initial boxes x partitions on the real implementation, every execution of the reference executor from a grid of the box matched in the tree, and trees compared with verify's",
        "exact within the bounds; times are relative to the first entry into a mode, as the entries are combined",
    )
    prop(
        "C17",
        "The fixed-point test says yes iff the last states were all reached before",
        "fixed_points_fix answers yes for a reach tree exactly if every state of the system (the values of all agents together with their modes) in the last time segment that the tree reaches was already reached in a segment at least one step before the given horizon; whatever the order of the branches, also if some of them end early in an assertion violation or are not explored, at any time step and rounding of times, for one or more agents, and for tubes given per interval (dryvr) or per sample (dryvr_disc). contain_all_fix decides inclusion of unions of closed boxes, and reach_at_fix returns exactly the boxes within a time window.",
        ["inputs"],
        "all small unions of boxes; all trees of a bounded family; trees of verification over automata x flows x boxes x grids",
        "no test calls it; a wrong yes is an unsound proof for unbounded time, found only by comparing sets",
        ["verse/utils/fixed_points.py"],
        [("fixed-point test", "verse/utils/fixed_points.py: fixed_points_fix, contain_all_fix, reach_at_fix")],
        "exhaustive enumeration of unions of boxes and of trees on the real functions, against a decision on all cells that the bounds cut space into",
        "exact within the bounds; trees in which some execution reaches the horizon",
    )
    prop(
        "C18",
        "Controllers see what the scenario's sensor reports",
        "In simulation, direct simulation and verification, guards, assertions and assigned values of an agent's controller are evaluated on what the scenario's sensor reports for that agent - which may hide agents, shift or scale their states, misreport their modes or the agent's own state, or report quantities that are no states - and on nothing else; fields the controller leaves alone keep their true values, and dynamics act on the true state. Running a controller under a sensor is running the controller with the sensor's formulas written out. With perception intervals in verification, executions under every perception in them are covered. The default sensor reports the exact states of all agents, whatever the controller calls its parameters, in which order it has them, and whether they are a list or a single other agent, and so do the sensors shipped for thermostats, spacecraft and quadrotors, for agents with the fields those name. The types of agents (static data) are visible to every controller like a mode that never changes.",
        ["programs", "configurations", "inputs"],
        "controllers x sensors x kinds of parameters x 1 to 3 agents x initial states or sets",
        "no stable test uses a sensor of its own or other parameter names; the effect depends on program, sensor and state together",
        ["verse/sensor/base_sensor.py", "verse/sensor/example_sensor/single_sensor.py", "verse/sensor/example_sensor/thermo_sensor.py", "verse/sensor/example_sensor/craft_sensor.py", "verse/sensor/example_sensor/quadrotor_sensor.py", "verse/analysis/simulator.py", "verse/analysis/verifier.py"],
        [("default sensor", "verse/sensor/base_sensor.py: BaseSensor.sense"), ("use of the sensed values", "verse/analysis/simulator.py: get_transition_simulate, check_sim_transitions, pack_env; verse/analysis/verifier.py: get_transition_verify_opt, apply_reset")],
        "exhaustive enumeration of controllers x sensors x agents on the real implementation, against a reference executor given the sensor's view and against the same code with the sensor written out in the controller",
        "exact (simulation), every execution from a grid of the box covered and trees equal (verification), within the bounds",
    )
    prop(
        "C19",
        "Star sets are exact, and verification with star sets covers every execution",
        "Every question about a star set (emptiness, extents, bounding rectangle, center, diameter, membership of a point, inclusion in or intersection with a half space) gets the answer that is true of the set of points center + basis * a with C a <= g, whatever its generators and coefficients, and asking changes nothing; the star sensors report the agents' own stars and modes; affine images, resets, linear tubes, copies and bounding stars are those of that point set. In verification with star sets (reachability method STAR_SETS with pca=False, the star sensor, affine resets of an agent from its own variables), a guard of linear conditions over the agent and any number of other agents, however they are called, is found possible, and an assertion is reported, iff some of the states satisfy (violate) it. One decision step over stars that are boxes gives the successors the source gives. Verification with star sets as initial sets covers the states and transitions of every execution that starts in the star, or reports an unsafe state before, with several agents, lane maps and however many initial stars are combined.",
        ["inputs", "programs", "configurations"],
        "stars (generators x constraint systems) x questions; conditions x stars; controllers x star shapes x flows x agents",
        "no stable test builds a star set; errors depend on signs of coefficients, skewed generators, empty or degenerate sets and on where along the horizon a guard is hit",
        ["verse/stars/starset.py", "verse/automaton/guard.py", "verse/analysis/verifier.py", "verse/sensor/base_sensor_stars.py", "verse/sensor/example_sensor/craft_star_sensor.py", "verse/utils/star_manhattan.py"],
        [("operations on stars", "verse/stars/starset.py: StarSet"), ("guards and resets over stars", "verse/automaton/guard.py: evaluate_guard_cont, get_agent_dictionaries; verse/analysis/verifier.py: apply_reset_stars"), ("verification", "verse/analysis/verifier.py: calculate_full_bloated_tube_stars, compute_full_reachtube_step")],
        "exhaustive enumeration of stars x questions, conditions x stars and controllers x star shapes on the real implementation, against vertex enumeration of the coefficient polytopes and the reference executor from vertices, edge midpoints and centers",
        "exact (questions, images, guards), every execution from the points of each star covered (verification), within the bounds",
    )
    prop(
        "C20",
        "Plots show exactly the trajectories, tubes and maps they are given",
        "Plots of a simulation or verification tree (2D, 3D, slices at a time, videos, animations, star plots) show, in the dimensions asked for, exactly what the tree holds for every agent and every branch, explored or not: each trajectory as a line through its samples, each time segment of a tube as its rectangle or cuboid, each frame the states of its time, each star its projection, each violated assertion where it is violated, each lane segment of the map between its two edges. Sampling at a lower rate keeps every n-th state and encloses the n segments it stands for. Agents differ in colour, the axes reach as far as the data or the map, and hovering shows the values of the samples. Plotting changes neither the tree nor other figures, and drawing into a given figure keeps what it has.",
        ["inputs", "configurations"],
        "tree shapes x lengths x values x agents x hits x dimensions x rates x maps x plotting functions",
        "tests look at no figure; errors depend on the tree's shape (unexplored nodes, single segments, branches meeting), on the dimensions and on plots made before",
        ["verse/plotter/plotter2D.py", "verse/plotter/plotter3D_new.py", "verse/plotter/plotterStar.py"],
        [("2D", "verse/plotter/plotter2D.py: simulation_tree, simulation_anime, reachtube_tree, reachtube_tree_slice, reachtube_tree_video, draw_map"), ("3D", "verse/plotter/plotter3D_new.py: simulation_tree_3d, reachtube_tree_3d"), ("stars", "verse/plotter/plotterStar.py")],
        "exhaustive enumeration of bounded trees x plotting options on the real functions; the figure is read back and compared with the tree",
        "exact within the bounds (up to 7 decimals)",
    )
    prop(
        "C21",
        "3D lanes are tubes around their center curves, and 3D maps agree with them",
        "For straight and circular 3D lane segments in any direction (also vertical, almost parallel to an axis, or given by a vector that is no unit vector), position(l, r, theta) is the point at arc length l along the center curve, at distance r from it across the lane and at angle theta around it, counted from the horizontal right; local_coordinates is its inverse. Arcs run from their start to their end through the phases or by the angle given, counter-clockwise about their axis. A lane of several segments locates a position on the nearest segment that contains it and adds up the lengths before; way points of an agent lead along the lane, as far as the agent gets in the time given and towards the center, and through the segments in order, independently for each agent. Positions on a segment are told from positions beside it (before and after it on straight ones), and a segment's configuration describes the same segment. Neighbours are mutual and the ones paired; in the shipped 3D maps closed lanes are connected, lanes do not overlap, changes of lane are offered exactly where the table's lane lies up or down, whether modes are strings or enum members, and altitudes are those of the lanes; the map drawn is the lanes' center curves.",
        ["inputs", "histories"],
        "segments x directions x points; chains of segments x points; sequences of pairings; interleaved way point histories of two agents; all shipped 3D maps",
        "no stable test computes a 3D coordinate; errors depend on the direction and on the angle around the lane",
        ["verse/map/lane_segment_3d.py", "verse/map/lane_3d.py", "verse/map/lane_map_3d.py", "verse/map/example_map/simple_map_3d.py", "verse/map/example_map/map_tacas.py"],
        [("segments", "verse/map/lane_segment_3d.py: StraightLane_3d, CircularLane_3d_v1, CircularLane_3d_v2"), ("lanes", "verse/map/lane_3d.py: Lane_3d"), ("maps", "verse/map/lane_map_3d.py: LaneMap_3d")],
        "exhaustive enumeration of segments, chains, points, pairings and call histories on the real classes, against references by rotations",
        "within 2e-4 of the size of the lane, within the bounds",
    )
