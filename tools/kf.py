import json
F = """C01 8b6f087 a line run with another time step than its own used the end coefficients of its own step
C12 0f4fccf probes on descending, tilted or bent lines were refused, or accepted off the line
C01 8bbb99f a polyline with unequal divisions per segment put its cells in the wrong places
C07 5573e53 the conductance of the line was left out of the half cells at its network ends
C07 2aa6a4b the state equations of the LCpRs termination had wrong signs
C07 9a9eabb a second branch or source at a network node replaced the first one
C07 5bfe24b with several lines in a level, network nodes were numbered after the first line only
C09 3c36f9e dispersive connectors were refused at the end of a line and on lines not along z
C09 6ec6073 the convolution used the new current in place of the previous one
C08 0df6960 direction "both" coupled one way only
C08 da07898 several poles of an element shared one state, and elements of several conductors mixed currents
C13 5e57de8 a requested time step did not reach every bundle, probe and dispersive term
C06 6c7132c networks added with add_networks were not bound to the bundles
C15 60a1ff3 localized drives covered other cells than their extent
C08 38a45e8 a connector without transfer impedance kept that of its line
C16 d99f166 trapezoidal and ramp waveforms counted their breakpoints twice
C16 2663c57 symbolic ramps were not zero before they start and travelled at another speed
C18 2191e98 a resistance region changed other conductors and cells
C18 78e277f a conductance region changed other conductors and nodes and was lost at network ends
C20 5f1aa3a a clean copy kept the state of its dispersive connectors
C21 1d33e94 the surface impedance counted both of its branches at its transition frequency
C21 1b9f53b serialised fits lost ports and poles
C17 6c52da5 ports were extracted with the sign and place of a line starting at the origin only
C14 d2b88a7 the longitudinal field was sampled at the start of its cell
C14 891e94b the transverse field was sampled at one point of the separation
C14 efd8aeb localized external fields covered other cells than their extent
C14 30b2571 the transverse field was left out of ends held by networks
C14 82d0da9 the conductance was left out of the response to transverse fields
C14 5d90514 networks could not be illuminated by plane waves
C10 8d5a193 of several terminations or junctions of a level at one position only the last one was kept
C10 297c9dd conductors of a termination or junction took the connector of another cable
C10 c86bd53 series RLC terminations were left open
C10 22e02fc series RLC junctions lost inductance and capacitance
C10 8a42597 only one lumped element of a cable was placed
C11 02d7f34 the cables of a level depended on the order of names and hashes
C10 ea72c59 nested cables without transfer impedance were refused
C19 b2729bf sources of unknown magnitude type were accepted
C10 d5e58b1 integer per unit length parameters were refused
C10 dc7d2ec distributed sources drove the conductors of another cable
C07 415e2a9 a network holding both ends of a line lost one of them
C07 11755e6 series RLC branches of one node shared their state
C08 1cf08e7 poles much slower than the time step gave zero over zero
C19 2ba51f2 probes of unknown type were accepted
C19 4885f32 voltage sources off the line were accepted
C19 b9009f9 couplings of missing levels or conductors, or of unknown direction, were accepted
C19 e6b91b9 networks added twice, at another level, or of ends already taken were accepted
C19 0ad81d2 networks with part of the conductors of a line were accepted
C19 7cd23f8 a field whose distances fit the first bundle only was refused after lighting that bundle
C19 067bbdd segments without cells were accepted
C19 bdcc447 repeated and dangling references in model files were accepted
C20 9386e0b a second manager of the same networks bound their nodes to conductors that do not exist or are others
C12 64dbc1a a probe put on a line between a run and a single step recorded its first row as numbers that went on changing"""
out = [dict(zip(("status", "property", "commit", "what"), ["fixed"] + l.split(" ", 2))) for l in F.splitlines()]
for o in out: o["line"] = "fixed: property=%s %s %s" % (o["property"], o["commit"], o["what"])
json.dump({"findings": out}, open("/verif/known_findings.json","w"), indent=1)
print(len(out))
