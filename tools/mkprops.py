#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when the list changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "python/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Line histories obey the discrete telegrapher's equations and terminations",
     "At every time step of every run of a multiconductor line, each cell satisfies the voltage law L dI/dt + R I + dV/dx = 0, each interior node balances charge C dV/dt + G V + dI/dx = 0 over half of each adjacent cell, and each end satisfies V = Vsource - Z I including its half cell of capacitance and conductance, to rounding error. "
     "This holds for any number of conductors, any symmetric positive definite L and C, any R and G, any terminal impedances (including 0), any polyline with any number of cells per segment, and any time step up to the stability limit.",
     ["inputs", "configurations"], "all line parameters, polylines with unequal cells, terminations, sources, time steps",
     "Tests run about a dozen straight one- or two-segment lines with fixed parameters and compare plots at 1 % or worse; per-cell balances on polylines with unequal divisions, G, matrix R, or a reduced step are never looked at.",
     ["mtl.py"], [("MTL time stepping", "mtl.py: MTL.step, advance_voltage, advance_current, advance_left_terminal, advance_right_terminal"),
                  ("coefficients", "mtl.py: update_lr_terms, update_cg_terms, compute_terminal_terms")],
     ["voltage and current probes at every node and cell"])

prop("C02", "Waves travel, reflect and settle as transmission-line theory predicts",
     "On a uniform lossless line run at its default time step a pulse reaches every point exactly one cell per step, undistorted, and reflects at each end with coefficient (Z-Zc)/(Z+Zc); with several conductors each propagation mode does so at its own speed. "
     "Driven by a constant source, every resistively terminated line settles to the voltages and currents of the corresponding DC resistor circuit.",
     ["inputs", "configurations"], "all line lengths, impedances, conductor counts, drive shapes, loss values",
     "Tests look at a handful of impedances for one pulse shape; exactness for any impedance, length and pulse, and steady states of lossy multiconductor lines, are not covered.",
     ["mtl.py", "mtln.py"], [("magic time step", "mtl.py: MTL.get_max_timestep, get_phase_velocities"), ("terminal update", "mtl.py: advance_left_terminal, advance_right_terminal")],
     ["probes"])

prop("C03", "Responses are linear, superpose and are time invariant and causal",
     "For every system (line, bundle with transfer impedances, network with any linear terminations, lumped dispersive elements) the recorded response to a weighted sum of sources is the weighted sum of the responses to each source, a source delayed by whole time steps gives the response delayed by the same steps, and nothing is recorded before a source acts. "
     "With no source, everything stays exactly zero.",
     ["inputs", "histories", "configurations"], "all systems, source sets, weights and delays",
     "Each test drives one source with one waveform once; no test relates two runs.",
     ["mtl.py", "mtln.py", "networks.py", "dispersive.py"], [("source sampling", "mtl.py: update_sources"), ("network sources", "networks.py: Network.update_sources, advance_voltage")], ["probes"])

prop("C04", "Passive systems never gain energy",
     "When no source acts, the energy stored in a passive system (lines with R, G >= 0; resistive, capacitive, series R-L-C, R-with-L-parallel-C, shorted or junction networks; dispersive elements with passive impedance) never grows: in systems with resistive networks the energy of the lines falls or stays at every step, and with reactive or dispersive elements, which give back what they stored, no voltage or current ever exceeds what the stored energy allows, at any time step up to the default one. "
     "In particular every recorded voltage and current stays bounded however long the run.",
     ["inputs", "histories", "configurations"], "all passive systems, initial pulses and run lengths",
     "Instability shows after many steps and only for some parameters; tests run one fixed system each for a fixed short time.",
     ["mtl.py", "mtln.py", "networks.py", "dispersive.py"], [("state equations of reactive terminations", "networks.py: connect_to_ground_LCpRs, connect_to_ground_C, compute_v_terms"), ("stability limit", "mtl.py: get_max_timestep")], ["probes"])

prop("C05", "Results do not depend on where, which way or in what order a line is given",
     "Translating, rotating or reflecting the whole geometry leaves every result unchanged; describing a line from its other end gives the same history mirrored; renumbering the conductors permutes the result; scaling all sources scales the result; and exchanging the driven and the observed terminal of a line with equal terminal impedances gives the same transfer response (reciprocity). Shorter ways of giving a line (its length and number of cells, a number for a position along z, one number for all impedances) mean the same as the long ones.",
     ["inputs", "configurations"], "all lines and all rigid motions, reversals, permutations and scalings",
     "No test compares two descriptions of the same line.",
     ["mtl.py", "probes.py", "mtln.py"], [("geometry", "mtl.py: MTL.__init__"), ("terminals", "mtl.py: advance_left_terminal, advance_right_terminal")], ["probes"])

prop("C06", "A network run is equivalent to the lines it connects",
     "A line terminated through networks gives the history of the same line with the same terminal impedances and sources built in; a line cut in two and joined again by a junction behaves as the uncut line; and the order in which bundles, networks, lines of a network and nodes are declared, and the numbers given to the nodes, do not change any result. "
     "Lines that are not connected do not influence each other.",
     ["inputs", "configurations"], "all lines, cut points, impedances, declaration orders and node numberings",
     "Tests exercise networks against external reference data for fixed topologies; equivalence and order independence over all topologies is not tested.",
     ["mtln.py", "networks.py", "mtl.py"], [("managed time stepping", "mtln.py: MTLN.step, run_until"), ("index bookkeeping", "networks.py: Network._add_node, NetworkD.update_index_numbers")], ["probes"])

prop("C07", "Network nodes obey Kirchhoff's current law with their branches",
     "At every step and every node of a termination or junction network, the charge of the line's end half cells plus the line current equals the sum of the currents of all branches attached to it, each branch obeying its own law: resistor, capacitor, resistor in series with parallel L and C, resistor, inductor and capacitor in series, ideal short, each to ground or (resistor, series R-L-C, short) to another node, with an optional series voltage source. "
     "Any number of branches may meet at a node, and branches of different nodes do not influence each other except through the nodes they share.",
     ["inputs", "configurations", "histories"], "all network topologies, branch kinds, values and sources",
     "Tests cover a few topologies with one source and mostly resistors; LC branches are only run with values for which they are practically a short.",
     ["networks.py", "mtln.py"], [("branch stamping", "networks.py: connect_to_ground*, connect_nodes, short_nodes, short_to_ground"), ("network solve", "networks.py: compute_v_terms, advance_voltage")], ["probes", "lines' terminal voltages and currents"])

prop("C08", "Shield levels couple exactly through their transfer impedance",
     "In a bundle, the voltage law of each conductor contains, besides its own line's terms, exactly the transfer-impedance drop Zt*I of the conductors declared as its source, per unit length, on the declared direction(s) only (inwards, outwards or both), for constant, inductive and pole-residue parts and any number of poles, divided by the declared factor; conductors and levels not declared as coupled stay independent. "
     "A connector's transfer impedance replaces that of the line in the first or last cell only.",
     ["inputs", "configurations"], "all level structures, conductor sets, directions, models and drives",
     "Tests use only inward coupling with constant and inductive parts in two fixed bundles.",
     ["mtl.py", "dispersive.py"], [("level assembly", "mtl.py: MTLD.__init__"), ("coupling", "dispersive.py: TransferImpedance"), ("stepping", "mtl.py: MTLD.update_lr_terms, advance_current")], ["probes"])

prop("C09", "Lumped dispersive elements add their impedance at their place",
     "A lumped element given by a constant, a proportional term, and any poles and residues adds, in the one cell where it is placed and on the one conductor it is placed on, a series voltage equal to that impedance's response to the current of that cell, whatever the cell size and time step; a constant equals a resistor, a proportional term an inductor, a real pole pair the corresponding RC or RL circuit, and complex conjugate poles a real response. "
     "Any number of elements may be placed in different cells and conductors, and all other cells are unaffected.",
     ["inputs", "configurations"], "all models, positions, conductors, cell sizes, time steps",
     "Tests compare four fixed models at one position of one line.",
     ["dispersive.py", "mtl.py"], [("recursive convolution", "dispersive.py: DispersiveConnector.add_dispersive_connector, update_phi, update_q3_phi_term"), ("use in stepping", "mtl.py: update_lr_terms, advance_current")], ["probes"])

prop("C10", "A parsed model simulates exactly the system its file describes",
     "Running a JSON model gives the same probe records as building the described system by hand: every cable with its geometry, divisions and per-unit-length parameters, every bundle level and transfer impedance, every termination and junction with the connector declared for that cable end and conductor, every source waveform on its own conductor and end, every lumped element, every connector resistance, and every probe on its own bundle and position.",
     ["inputs", "configurations"], "all valid model files",
     "Tests load about fifteen files and compare one or two probes with stored plots; most combinations of elements, conductors and ends never occur in them.",
     ["jsonParser.py"], [("model construction", "jsonParser.py: _buildBundles, _buildTerminations, _buildJunctions, _addSources, _addProbes")], ["Parser.probes"])

prop("C11", "The meaning of a model file does not depend on numbering, order or formatting",
     "Renumbering coordinates, elements and materials, reordering the entries of any list of the model (materials, coordinates, elements, cables, bundles, terminations, junctions, sources, probes, lumped elements) or the groups inside one termination, writing a number as an integer or a decimal, and the interpreter's hash seed leave every probe record unchanged.",
     ["inputs", "configurations"], "all valid model files and all renamings, reorderings and number formats",
     "Each file is run once, in its stored order, under one hash seed.",
     ["jsonParser.py"], [("lookups by identifier", "jsonParser.py: _getElementOfNode, _getConnectorAndCableInNode, _findConductorNumberInLevel")], ["Parser.probes", "Parser.bundles"])

prop("C12", "Probes record the right quantity, place and time",
     "A probe placed anywhere on a line records one row per time step with one column per conductor in conductor order: the voltages of the node nearest to its position labelled with the end time of the step, or the currents of the cell at that node labelled half a step later; times increase by exactly the time step. "
     "Recording does not influence the simulation, several probes do not influence each other, running longer or stepping by hand only appends rows, a second run continues where the first stopped, and positions beyond the ends of the line are rejected.",
     ["inputs", "histories", "configurations"], "all lines, probe positions, kinds, counts and run lengths",
     "Tests check one probe's frame count on one straight line.",
     ["probes.py", "mtl.py", "mtln.py"], [("frames", "probes.py: Probe.update, resize_frames"), ("placement", "mtl.py: MTL.add_probe, MTLD.add_probe")], ["Probe.t, Probe.val"])

prop("C13", "One stable time step is shared by everything in a run",
     "The default time step is the shortest cell divided by the fastest propagation speed, and in a network the smallest over all bundles; a requested time step replaces it; and every part of a run (lines, networks, dispersive models, transfer impedances, probe time labels) then uses that same step, for the number of whole steps that fit in the requested time. "
     "Halving the step does not change results beyond discretisation error.",
     ["inputs", "configurations"], "all systems with different cell sizes and speeds, all admissible time steps",
     "All tests with several bundles either use equal cells and speeds or fix one step for one system.",
     ["mtl.py", "mtln.py", "jsonParser.py", "dispersive.py"], [("step selection", "mtl.py: get_max_timestep, MTLD.__init__; mtln.py: add_bundle, run_until"), ("requested step", "jsonParser.py: run; mtl.py: set_time_step")], ["Probe.t, Probe.val"])

prop("C14", "External fields drive lines as the scattered-field model prescribes",
     "A line illuminated by an external electric field responds to the difference of the longitudinal field between conductor and reference along each cell and to the transverse field between them at each node, both in a single line and in a network of bundles, identically; the response is linear in the field and in small separations, is zero for a zero field, follows rigid motions of field and geometry together, a static field derived from a potential drives nothing on a line without conductance, and a field applied to part of a line acts on the cells and nodes of that part only. Plane waves given by their angles are the travelling field of that direction, polarisation and the line's speed.",
     ["inputs", "configurations"], "all fields, separations, orientations, polylines and localised ranges",
     "Tests use one double-exponential field in three fixed arrangements compared at plot precision.",
     ["mtl.py", "mtln.py"], [("field terms", "mtl.py: MTL.add_external_field, MTLD.add_external_field, Field"), ("stepping", "mtl.py: update_sources, advance_current, advance_voltage"), ("terminal field term", "networks.py: Network.update_sources")], ["probes"])

prop("C15", "A localized field drive delivers its field over exactly its extent",
     "A localized electric-field drive between two points of a bundle adds to its one conductor, in every cell, the drive's field times the fraction of that cell lying between the two points, so the total electromotive force equals field times length for any pair of points on the line in running order, including points inside one cell or at the line's ends; drives add up and other conductors are not driven directly. A drive declared as a plane wave delivers the mean of that over the cells it covers: each gets its share divided by their number.",
     ["inputs", "configurations"], "all bundles, polylines, point pairs, conductors, waveforms",
     "Tests use one drive between two grid nodes of a straight line.",
     ["mtl.py", "jsonParser.py"], [("drive placement", "mtl.py: MTLD.add_localized_longitudinal_field")], ["probes"])

prop("C16", "Waveforms have their declared shape at every instant",
     "Every named waveform, numeric or symbolic, equals its defining formula at every time, including breakpoints, negative times and times far beyond one period; amplitude scales it, periodic ones repeat exactly, pulses vanish outside their support, and the symbolic form agrees with the numeric one, travelling forms being the same function of t + position/speed. "
     "Sums and multiples of waveforms are pointwise.",
     ["inputs"], "all parameters and all times",
     "Tests sample one trapezoid between its breakpoints.",
     ["waveforms.py", "utils.py", "jsonParser.py"], [("shapes", "waveforms.py"), ("combination", "utils.py: add_t_functions, multiply"), ("selection", "jsonParser.py: _buildSource")], ["function values"])

prop("C17", "Extracted scattering parameters describe the simulated line",
     "The two-port network extracted from a line contains, at each frequency of the requested band, reflection and transmission coefficients that match transmission-line theory for a uniform line, are reciprocal for reciprocal lines, are not active for passive lines, vanish in reflection for matched terminations, and are the same whichever terminal is named port one apart from exchanging the ports; the line passed in is left as it was.",
     ["inputs", "configurations"], "all lines, terminal impedances, port choices and bands",
     "The extraction tests fail at the pinned commit, so nothing covers it.",
     ["networkExtraction.py", "probes.py", "mtl.py"], [("wave extraction", "probes.py: Port.get_incident_and_reflected_power_wave"), ("two-port assembly", "networkExtraction.py: extract_2p_network, extract_s_reciprocal"), ("port probes", "mtl.py: add_port_probe")], ["the returned network"])

prop("C18", "Local resistance and conductance edits act where and as much as requested",
     "Setting a resistance over a region of a line puts exactly that total series resistance on that conductor in the cells of that region (one cell for a point), and adding a conductance over a region puts exactly that total shunt conductance on that conductor at its nodes, for any conductor, any two positions on any polyline and both lines and bundles; nothing outside the region or on other conductors changes, and the next run uses the new values.",
     ["inputs", "histories", "configurations"], "all lines, regions, conductors, values, and sequences of edits",
     "Tests call these once through one parsed file at the line's end on a single conductor.",
     ["mtl.py", "jsonParser.py"], [("edits", "mtl.py: set_resistance_in_region, add_conductance_in_region, set_resistance_at_point, add_conductance_at_point")], ["line parameters and run histories"])

prop("C19", "Ill-formed requests are rejected and leave no trace",
     "Inconsistent parameter shapes, positions outside the line, unknown probe or connector kinds, sides and waveforms, duplicate names or nodes, unknown nodes, couplings between non-adjacent levels, mismatched pole and residue lists, and model files with dangling references raise an error at the point of the request instead of producing numbers, and a rejected request leaves the system as it was.",
     ["inputs", "histories"], "all kinds of ill-formed requests on all systems",
     "A few constructor errors are tested with one example each.",
     ["mtl.py", "mtln.py", "networks.py", "dispersive.py", "jsonParser.py", "probes.py"], [("argument checks", "mtl.py: init_LC, init_RG, init_Zt, add_probe; networks.py: _add_node; dispersive.py asserts")], ["exceptions and subsequent runs"])

prop("C20", "Runs are reproducible and objects independent",
     "The same description run twice gives bit-identical records; building, copying or running one line, bundle, network or manager never changes another; a clean copy of a line starts from rest, keeps all its parameters and gives the run a freshly built line would give, whatever was run before; and arrays and dictionaries passed in are never modified.",
     ["histories", "inputs"], "all systems and all interleavings of building, copying and running",
     "Tests build each system once and run it once.",
     ["mtl.py", "mtln.py", "networks.py", "jsonParser.py"], [("clean copies", "mtl.py: create_clean_copy"), ("construction", "mtl.py: MTL.__init__, MTLD.__init__; mtln.py: MTLN.__init__")], ["probes, caller-owned arguments"])

prop("C21", "Rational-fit helpers agree with the circuits they stand for",
     "The impedance helpers used for vector fitting equal the circuit or material law they name at every frequency (parallel RL and RC, series RL, Debye permittivity, pole-residue sums, the surface-impedance law with its transition), are continuous at transitions, and the serialised fit contains for every port the constant, proportional, pole and residue values of that port's diagonal response.",
     ["inputs"], "all parameters, frequencies and port counts",
     "The helper directory has no tests.",
     ["VF/utils.py"], [("helpers", "VF/utils.py"), ("serialisation", "VF/utils.py: serializeJSON")], ["function values, info.json"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s" % i,
                       "thorough_cmd": "python3 run.py check %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES[i]["technique"], "level": "exploration", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": "no check registered yet (under construction)"})
json.dump({"version": 1, "setup_cmd": "python3 run.py selftest", "checks": checks, "not_applicable": na,
           "notes": "All checks import the code from /repo/python directly; nothing is compiled, no hooks are needed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "unclaimed")
