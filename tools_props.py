"""writes properties.jsonl (kept as a script so that the file stays consistent)"""
import json
P = []


def add(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)


G = "sidermit/city/graph.py"
D = "sidermit/city/demand.py"
N = "sidermit/publictransportsystem/network.py"
M = "sidermit/publictransportsystem/mode.py"
PA = "sidermit/publictransportsystem/passenger.py"
X = "sidermit/optimization/preoptimization/extended_graph.py"
H = "sidermit/optimization/preoptimization/hyper_path.py"
A = "sidermit/optimization/preoptimization/assignment.py"
U = "sidermit/optimization/users_cost.py"
OC = "sidermit/optimization/operators_cost.py"
I = "sidermit/optimization/infrastructure_cost.py"
K = "sidermit/optimization/constrains.py"
O = "sidermit/optimization/optimizer.py"

add("C01", "A parametric city has exactly the documented nodes and streets",
    "A city built from accepted parameters with n zones has one CBD (zone 0) plus exactly one periphery and one subcenter "
    "per zone 1..n, all with distinct ids. Its directed edges are exactly periphery-subcenter of the same zone, "
    "subcenter-CBD of every zone and subcenter-subcenter of adjacent zones on the ring, each in both directions and once, "
    "with distinct edge ids (4 edges for n=1, 10 for n=2, 6n for n>=3). Edge queries answer exactly according to that "
    "set, whatever asymmetry options are used.",
    ["configurations", "inputs"], "all zone counts up to the bound, all combinations of asymmetry options and all their "
    "values", "The tests build a handful of symmetric cities and look at counts; the guarantee is for every number of "
    "zones and every combination and value of asymmetry parameters.", [G],
    [("zone, node and edge construction", G + ": Graph.build_from_parameters, __add_zone, __build_edges, edge_exist")])

add("C02", "Nodes of a parametric city lie where the parameters put them",
    "In a city built from parameters the periphery of zone i lies at distance (l + g*l)*Hi and its subcenter at distance "
    "l*Gi from the origin, both in the direction of the zone's angle (360/n*(i-1) by default), and the CBD lies at the "
    "origin or at the fraction etha of the chosen zone's final subcenter position. Each node's coordinates agree with its "
    "radius and angle. The length of every street is the Euclidean distance between its end nodes, the same in both "
    "directions.",
    ["inputs", "configurations"], "all real l, g, Gi, Hi, etha in their domains, every zone count within the bound, every "
    "combination of options", "Tests compare a few numeric coordinates; the geometry must hold for all real parameters and "
    "for every combination of asymmetry options applied together.", [G],
    [("placement and asymmetry", G + ": Graph.build_from_parameters, __angles_asymmetry, __Gi_asymmetry, __Hi_asymmetry, "
      "__etha_asymmetry, get_xy"), ("street lengths", G + ": Graph.get_edges_distance")])

add("C03", "City parameters are accepted exactly when they are in their documented ranges",
    "Building a city succeeds exactly when n >= 0, l, g and p are non-negative, angles lie in [0, 360], Gi and Hi are "
    "non-negative, the lists have one value per zone, and eccentricity and its zone are given together with etha in [0, 1] "
    "and the zone in 1..n. Any other combination raises the exception naming the offending parameter, and no city is "
    "returned.",
    ["inputs"], "every real/integer value of every parameter, including both sides and the exact end of each range",
    "Tests try one bad value per parameter; the accept/reject boundary must be exact for every value and every "
    "combination.", [G], [("validation", G + ": Graph.parameters_validator")])

add("C04", "A city exported to Pajek and imported again is the same city",
    "Exporting any city whose subcenters are away from the origin, at distinct angles and on average no farther out than "
    "the peripheries, and importing the text again, yields the same nodes (id, name, kind, zone, coordinates, width), the "
    "same streets and street lengths, and parameters that describe the same city. Writing to a file and reading it back "
    "gives the same result as the in-memory text.",
    ["inputs", "configurations"], "all such cities within the zone bound, with symbolic radii, ratios, eccentricity and "
    "width", "A test can round-trip one city; the guarantee is over all coordinates, angles and widths.", [G],
    [("export", G + ": Graph.export_graph, graph_to_pajek_file"),
     ("import", G + ": Graph.build_from_content, __pajekfile_to_dataframe, get_angle, build_from_file")])

add("C05", "A city file is either imported as a valid city or rejected",
    "Importing node lines with arbitrary ids, kinds and zone numbers either raises one of the documented exceptions or "
    "yields a city with exactly one CBD, one periphery and one subcenter for each zone 1..n, pairwise distinct node ids, "
    "the complete set of streets, and every accepted line represented by exactly one node with the data of that line. The "
    "order of the lines does not change the resulting zones and streets.",
    ["inputs"], "every assignment of ids, kinds and zones to the lines of a file up to the bounded number of lines",
    "Malformed files come in combinatorially many shapes (duplicate ids, missing or repeated kinds, missing zones); tests "
    "list a few.", [G],
    [("import checks", G + ": Graph.build_from_content, __add_zone, __add_nodes, Zone")])

add("D01", "Parametric demand splits exactly the total trips as documented",
    "An OD matrix built from parameters has non-negative cells that add up to y for every city with at least one zone; the "
    "CBD generates nothing, peripheries attract nothing and the diagonal is zero. Each zone generates y/n trips, the share "
    "a of them in its periphery; periphery trips split alpha to the CBD, beta to the own subcenter and the rest evenly to "
    "the other subcenters (with one zone, everything not going to the CBD goes to the own subcenter), and subcenter trips "
    "split between the CBD and the other subcenters in the ratio alpha to the rest.",
    ["inputs"], "all real y, a, alpha, beta in their domains and all city sizes within the bound",
    "Tests compare one matrix; conservation must hold for every real parameter value and every number of zones.", [D],
    [("matrix construction", D + ": Demand.build_from_parameters")])

add("D02", "Demand edits keep the total consistent and reject invalid input untouched",
    "After any sequence of cell edits the reported total equals the sum of the matrix cells and every cell holds the last "
    "accepted value. An edit with a negative value or with an unknown origin or destination raises the matching exception "
    "and leaves the matrix and the total unchanged. Demand parameters are accepted exactly when y >= 0, a and alpha lie in "
    "[0, 1], beta in [0, 1) and alpha + beta <= 1.",
    ["histories", "inputs"], "all edit histories up to the bounded length with arbitrary ids and values; all parameter "
    "values", "Histories of edits interact through the running total; tests check single edits.", [D],
    [("edits", D + ": Demand.change_vij, get_total_trips"), ("validation", D + ": Demand.parameters_validator")])

add("D03", "Demand matrices survive files and content imports unchanged",
    "Writing any OD matrix to a file and reading it for the same city yields the same cells and total. Building a demand "
    "from a nested list puts entry (i, j) in the cell of the i-th and j-th node of the city, and rejects matrices of the "
    "wrong shape or with negative cells. Lines that do not carry three fields or whose ids are not known nodes are "
    "rejected.",
    ["inputs"], "all non-negative real cell values, all matrix shapes within the bound",
    "Tests read one fixture file; the mapping must be exact for all values, positions and city numberings.", [D],
    [("file output", D + ": Demand.matrix_to_file"), ("file and content input",
     D + ": Demand.build_from_file, build_from_content")])

add("N01", "Custom routes are accepted exactly when they are physically drivable",
    "A custom route is accepted exactly when its two node sequences are non-empty, free of repeated nodes and form a closed "
    "cycle (each ends where the other starts), and its stops are nodes of the sequence, listed in the order of travel, "
    "starting at its first and ending at its last node, in each direction. Anything else raises one of the documented "
    "exceptions. An accepted route holds exactly the given sequences.",
    ["inputs"], "all node and stop sequences up to the bounded length over the bounded id range",
    "The space of sequences is combinatorial and the rules interact; tests probe one violation at a time.", [N],
    [("route validation", N + ": Route.__init__, parameters_validator, stops_validator, direction_validator, "
      "sequences_validator, sequences_to_list")])

add("N02", "The network stays valid under any history of additions and removals",
    "After any sequence of adding and removing routes and modes, every route in the network runs only over existing streets "
    "in both directions, route ids are unique, each route's mode is registered, and at most two modes are registered, one "
    "of them with a single parallel line when there are two. A rejected operation changes nothing. Removing a mode removes "
    "that mode and all of its routes and nothing else; removing a route removes only that route.",
    ["histories"], "all histories of operations up to the bounded length, with symbolic parallel-line counts and routes "
    "over all node pairs", "The invariant is over histories of interacting operations; tests exercise one operation from "
    "a fresh network.", [N, M],
    [("route and mode bookkeeping", N + ": TransportNetwork.add_route, remove_route, add_transport_mode, "
      "remove_transport_mode, __edges_validator"), ("mode rule", M + ": TransportModeManager.is_valid_to_assignment_step")])

add("N03", "Predefined route families have the documented shape in every city",
    "For every city and mode, the radial, feeder, diametral, tangential and circular generators return exactly the "
    "documented family: one route per zone (half as many when jumping to the opposite zone of an even ring; two one-way "
    "rings for circular), each passing the documented sequence of peripheries, subcenters and CBD in travel order and back "
    "reversed. Short variants skip the peripheries, express variants stop only at the two ends, ids are distinct and "
    "all routes run over existing streets. Jumps outside 1..n/2 are rejected.",
    ["configurations", "inputs"], "all zone counts, jumps and option combinations within the bound",
    "Tests check sequences for one or two cities; wrap-around at the ring's end depends on zone count, zone and jump "
    "together.", [N],
    [("generators", N + ": TransportNetwork.get_radial_routes, get_feeder_routes, get_diametral_routes, "
      "get_tangencial_routes, get_circular_routes")])

add("N04", "Mode and passenger parameters are validated and stored exactly",
    "A transport mode or passenger profile accepts exactly the documented ranges (no missing values, non-negative costs, "
    "times and capacities, positive speeds, regularity in [0, 1], boarding kind 0 or 1) on construction and on later "
    "assignment, and stores the value given (maximum and initial frequency multiplied by the number of parallel lines at "
    "construction). A rejected value leaves the stored one unchanged. A mode manager keeps unique names, finds and removes "
    "exactly the named mode, and accepts a mode set only with one mode, or two of which one has a single parallel line.",
    ["inputs", "histories"], "all real values of each parameter; all short histories of manager operations",
    "Tests check single bad values; the boundary of each range and the state after rejection must hold for all values.",
    [M, PA], [("properties", M + ": mode_property, TransportMode"), ("manager", M + ": TransportModeManager"),
              ("passenger", PA + ": passenger_property, Passenger")])

add("N05", "Route sequences and the network file represent the routes losslessly",
    "Converting any node sequence to text and back returns the same sequence. The network file lists every route of the "
    "network exactly once, in order, with its mode and its four sequences, so that each custom or predefined two-way route "
    "can be rebuilt from its line and is equal to the original.",
    ["inputs", "configurations"], "all sequences up to the bounded length and all networks within the bound",
    "Tests compare one file; every route shape (one-way rings, express, single digit and multi digit ids) has to survive.",
    [N], [("conversion", N + ": Route.sequences_to_string, sequences_to_list"),
          ("file output", N + ": TransportNetwork.routes_to_file")])

add("E01", "The extended graph represents every stop, transfer and ride with its true time",
    "For every network the extended graph has one boarding-point per route, direction and stop (rings count the closing "
    "stop once), one stop per mode and served city node, boarding edges everywhere except at a line's last stop with "
    "frequency F/d, and alighting edges everywhere except at a line's first stop with the transfer penalty converted to "
    "hours. Access edges in both directions carry the mode's access time in hours. Each ride edge joins consecutive stops "
    "of one route direction and its time is the length of the streets driven between them, including nodes passed without "
    "stopping, divided by the mode's speed.",
    ["configurations", "inputs"], "symbolic coordinates, speeds, penalties and frequencies over the bounded set of "
    "network shapes (custom, predefined, express, circular, several modes)",
    "Tests count nodes and edges of a few graphs and never compare ride times for all coordinates, nor lines that pass "
    "nodes nobody serves.", [X],
    [("graph construction", X + ": ExtendedGraph.build_tree_graph, build_stop_nodes, build_route_nodes, build_access_edges, "
      "build_boarding_edges, build_alighting_edges, build_route_edges")])

add("H01", "Hyperpath labels are the optimal expected generalised travel times",
    "For every origin and destination the label of each stop at the origin equals the minimum expected generalised time "
    "over all boarding strategies (wait for the combined frequency of the chosen lines, ride, alight, transfer), with "
    "access time weighted by its value and no transfer penalty for the final alighting. At every intermediate stop the "
    "chosen set of lines is optimal: no line left out would reduce the expected time and no line kept increases it.",
    ["inputs", "configurations"], "symbolic edge times, frequencies and valuations over the bounded set of network shapes",
    "The optimum over strategies depends on orderings of real-valued travel times; tests fix one instance, the guarantee "
    "is for every one.", [H], [("labelling algorithm", H + ": Hyperpath.build_hyperpath_graph")])

add("H02", "Hyperpaths are complete, acyclic origin-destination journeys",
    "Every elemental path returned for an origin-destination pair starts at the origin and its stop, follows the chosen "
    "successors edge by edge and ends at the destination without visiting a node twice; together the paths are exactly all "
    "the successor walks from each stop of the origin. The values reported for the whole OD matrix are those of the single "
    "pair, once for each pair with trips and for no other pair.",
    ["inputs", "configurations"], "symbolic edge times and frequencies over the bounded set of network shapes and OD "
    "patterns", "Which strategies arise depends on real-valued times; the structural guarantee has to hold for each of "
    "them.", [H], [("path enumeration", H + ": Hyperpath.get_hyperpath_OD, get_all_hyperpaths")])

add("H03", "A network is rejected exactly when some trip cannot be made",
    "Validation of a network against an OD matrix succeeds exactly when every pair with trips has a journey on the network "
    "and the served modes obey the mode rule; otherwise it raises the network exception, naming an unconnected pair when "
    "the modes are in order. "
    "Pairs without trips never matter, and validating changes neither the network nor the matrix.",
    ["configurations", "inputs"], "all subsets of routes and all demand patterns within the bound, symbolic trip volumes",
    "Connectivity depends on the combination of routes, directions and OD pairs; tests look at two networks.", [H],
    [("validation", H + ": Hyperpath.network_validator")])

add("A01", "Passengers choose stops in shares that add up to the whole",
    "For every origin-destination pair the shares assigned to the origin's stops lie between 0 and 100 and add up to 100, "
    "including ties of expected time or walking distance. With two modes and an even number of parallel lines (or one) the "
    "share equals the part of the street width from which the stop is the cheapest one, travel time and walking valued as "
    "the passenger does; a single available mode gets everyone.",
    ["inputs"], "all real labels, widths, speeds and valuations, and parallel-line counts within the bound",
    "Ties and the position of the indifferent passenger relative to the parallel lines are measure-zero or narrow cases "
    "no sampled test meets.", [A], [("stop choice", A + ": Assignment.get_assignment")])

add("A02", "Passengers are conserved along lines and transfers",
    "For every assignment, boardings equal alightings on each line and direction, the load on each section equals the load "
    "before it plus boardings minus alightings at the stop between, and loads are never negative. The passengers boarding "
    "at origins equal the trips assigned to those stops, every trip alights exactly once at its destination, and at every "
    "transfer stop those who alight to transfer board again.",
    ["inputs", "configurations"], "symbolic trips, shares and frequencies over the bounded set of network shapes",
    "Conservation over merging and splitting paths has to hold for all volumes and frequencies, tests compare one "
    "network's numbers.", [A], [("loading", A + ": Assignment.get_alighting_and_boarding")])

add("A03", "Passengers at a stop split over attractive lines by frequency",
    "At each stop the passengers waiting there board each attractive line in proportion to its frequency, and boardings, "
    "alightings and section loads are reported per vehicle (passengers per hour divided by the line's frequency). The most "
    "loaded section of a route is the maximum over both directions and all stops.",
    ["inputs", "configurations"], "symbolic trips, shares and positive frequencies over the bounded network shapes",
    "The split is a ratio of symbolic frequencies and has to hold for each combination, not only equal ones.", [A],
    [("loading", A + ": Assignment.get_alighting_and_boarding, most_loaded_section")])

add("K01", "Users' cost accounts for every passenger's access, waiting, riding and transfers",
    "Total access time is each passenger's walk across the street plus technological access at the origin and at each "
    "change of mode; waiting time is regularity divided by the combined frequency per parallel line at each boarding; riding time is the "
    "time of the sections ridden plus stopped time at intermediate stops (max or sum of boardings and alightings as the "
    "mode boards) plus half the alighting time at the stop where the passenger gets off. Transfers count alightings away "
    "from the destination, and the users' cost is the sum of these weighted by their social values.",
    ["inputs", "configurations"], "symbolic trips, shares, frequencies, boardings, alightings and valuations over the bounded "
    "set of network shapes", "Tests compare one number for one network; every passenger-hour must be counted exactly once "
    "for any flows, including transfers, rings and walking between modes.", [U],
    [("resources", U + ": UsersCost.resources_consumer, get_users_cost")])

add("K02", "Operators' cost follows from fleet, cycle time and capacity",
    "A line's running time is the length of all streets of both directions divided by the speed; its cycle time adds, for "
    "every stop and direction, the boarding and alighting times (their sum when sequential, the time of the larger group "
    "when simultaneous), counting stops where people only board or only alight. The operators' cost is the sum over active "
    "lines of (co + c1 * k) * f * cycle time.",
    ["inputs", "configurations"], "symbolic distances, boardings, alightings, frequencies, capacities and unit costs",
    "The max/sum distinction and one-sided stops depend on the order of real values; tests use one data set.", [OC],
    [("travel and cycle time", OC + ": OperatorsCost.lines_travel_time, get_cycle_time"),
     ("cost", OC + ": OperatorsCost.get_operators_cost")])

add("K03", "Infrastructure is charged once per street, mode and parallel line",
    "For each mode, every street used in any direction by at least one of its lines with positive frequency counts its "
    "length exactly once, times the number of parallel lines; streets used only by inactive lines or by other modes do not "
    "count. The infrastructure cost is the sum over modes of the unit cost times that length.",
    ["inputs", "configurations"], "symbolic coordinates, frequencies (zero or positive) and unit costs over the bounded "
    "network shapes", "Overlapping routes, opposite directions and inactive lines combine in ways a single test cannot "
    "cover.", [I], [("network length", I + ": InfrastructureCost.get_mode_network_distance, get_infrastruture_cost")])

add("K04", "Capacity and frequency limits are exactly the constraints handed over",
    "There is one capacity constraint per route, its maximum section load minus the vehicle capacity, and one frequency "
    "constraint per directed street and mode, the sum over the mode's routes running over that street in that direction "
    "of frequency per parallel line minus the mode's maximum frequency per line. A constraint is satisfied exactly when it is <= 0.",
    ["inputs", "configurations"], "symbolic loads, frequencies and limits over the bounded network shapes",
    "Which routes share a street in a direction depends on the combination; tests check a total count and one value.",
    [K, O], [("constraints", K + ": Constrains.most_loaded_section_constrains, fmax_constrains"),
             ("assembly", O + ": Optimizer.constrains, get_constrains")])

add("O01", "The best feasible result is the one returned",
    "Among the results of the internal optimisations the one selected has the lowest objective value of those that "
    "converged, violate the constraints by less than 0.001 and have no negative frequency; without such a result the "
    "optimisation ends with an exception and never returns an infeasible solution. The final status check accepts only "
    "frequencies above -0.1, violations up to 0.1 and converged statuses.",
    ["inputs", "histories"], "all lists of internal results up to the bounded length with symbolic frequencies, "
    "violations, objectives and statuses", "The outcome depends on comparisons among several real-valued results; no test "
    "covers the optimiser at all.", [O],
    [("selection", O + ": Optimizer.get_better_result, status_optimization")])

add("O02", "The external loop stops on convergence or its limit and tidies frequencies",
    "The external optimisation repeats the internal one, each on the passenger paths of the previous frequencies (at first "
    "the modes' initial ones), until the sum of the absolute frequency changes falls below the tolerance or the given "
    "number of internal optimisations is reached; it runs at least once and never exceeds that number. It returns the best "
    "feasible result with frequencies below 1/24 set to 0 and all others unchanged, or raises the documented exception "
    "when there is none.",
    ["histories", "inputs"], "all sequences of internal results up to the bounded number of iterations, symbolic "
    "frequencies and tolerance", "The loop's exit depends on real-valued histories of results, and no test covers the "
    "optimiser at all.", [O],
    [("loop", O + ": Optimizer.external_optimization, external_optimization_tolerance, f_distance")])

add("O03", "The optimiser minimises the true total cost under the true constraints",
    "The objective at any frequency vector is the sum of operators', infrastructure and users' cost of the loaded network "
    "at those frequencies, and the constraint vector holds the capacity constraints of all routes followed by the frequency "
    "constraints. The problem given to the solver starts at the lines' initial frequencies, bounds each below by zero "
    "and requires every constraint <= 0. Overall results report the same costs, times and transfers per passenger, fleet per "
    "mode, mean capacity of active lines and number of lines.",
    ["inputs", "configurations"], "symbolic frequencies and demand over the bounded network shapes",
    "No test covers the optimiser; consistency between objective, constraints and reports must hold at every frequency "
    "vector, not one.", [O],
    [("objective and constraints", O + ": Optimizer.VRC, get_constrains, internal_optimization, fopt_to_f"),
     ("report", O + ": Optimizer.get_overall_results")])

add("O04", "The results table reports the true loads, fleet and cost of each line",
    "The results have one row per route in network order: total and per-line frequency, vehicle capacity, fleet "
    "(frequency times cycle time), cycle time in minutes and operating cost per boarding passenger. For each direction "
    "and consecutive pair of nodes the row gives the load on that section divided by the vehicle capacity, a value between "
    "0 and 1 that equals the load of the assignment also where passengers only alight, where nobody boards and on "
    "rings, and the minimum load is the minimum of these. Inactive routes report zeros.",
    ["inputs", "configurations"], "symbolic demand and frequencies over the bounded network shapes",
    "No test covers the table; stops with only alightings, empty sections and rings appear only for particular demand "
    "patterns.", [O], [("table", O + ": Optimizer.get_network_results, last_iteration, get_k")])

add("O05", "Printed and written results agree with the computed ones",
    "The text report and the written results file contain one line per route with exactly the values of the results table, "
    "in order and rounded to two decimals, and the printed overall results show the computed overall values, mode by mode. "
    "The optimisation summary lists every route's frequency.",
    ["inputs", "configurations"], "symbolic demand and frequencies over the bounded network shapes",
    "No test covers the reports; a swapped or mis-scaled column shows only when compared with the computed values for all "
    "inputs.", [O],
    [("text", O + ": Optimizer.string_network_results, write_file_network_results, string_overall_results, "
      "string_network_optimization")])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
