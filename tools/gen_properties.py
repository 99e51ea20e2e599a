"""Writes properties.jsonl (kept as a script only so the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Event rates always equal a fresh evaluation of the current state",
  "After any sequence of accepted hops, the rate the simulator uses for every event equals the rate the model gives for that event in the current occupation, exactly as if the simulation had been built from scratch in that occupation. This holds for every rate model kMCpy ships and for a model with its own per-event state, for event libraries freshly generated, extended after generation or reloaded from file, and whichever event of the library was executed.",
  ["histories", "inputs"], "all hop sequences from all initial occupations of every event library",
  "Tests execute a handful of hops and compare a few numbers; a stale rate needs a particular chain of hops through overlapping environments and shows up only as a slightly wrong trajectory.",
  ["kmcpy/simulator/kmc.py", "kmcpy/event/base.py", "kmcpy/models/composite_lce_model.py", "kmcpy/models/local_barrier_model.py"],
  [("incremental rate refresh", "kmcpy/simulator/kmc.py: KMC.update"), ("event dependency matrix", "kmcpy/event/base.py: EventLib.generate_event_dependencies")])
p("C02", "Event selection is rejection-free and waiting times are exponential",
  "For every vector of event rates and every pair of random numbers in (0,1), the event chosen is the one whose interval of the normalised cumulative rates contains the first number, so each event is chosen with probability rate/total and an event with zero rate is never chosen. The waiting time is -ln(second number)/(total rate), hence finite and positive; when no event is possible the simulator raises an error instead of inventing a hop. This remains true at every step of a history.",
  ["inputs", "histories"], "all rate vectors over an alphabet including zeros and extreme ratios, all random draws up to interval equivalence",
  "Tests draw from one seeded stream; interval boundaries, leading/trailing zero-rate events and all-zero vectors are measure-zero or unreachable there.",
  ["kmcpy/simulator/kmc.py"],
  [("rejection-free sampling", "kmcpy/simulator/kmc.py: KMC.propose/_propose")])
p("C03", "Every accepted hop is a legal exchange; ions and sites are conserved",
  "Starting from any occupation, every hop the simulator can choose moves one mobile ion into an adjacent vacancy: exactly the two endpoint sites exchange their species, all other sites keep theirs, the number of mobile ions, vacancies and other species never changes, and every site keeps a state allowed there. Each accepted hop advances the step counter by one and the clock by its waiting time and nothing else. An event whose endpoints do not hold one mobile ion and one vacancy has zero rate, also when the numeric codes for ion and vacancy differ between sites or a third species occupies an endpoint.",
  ["histories", "inputs"], "all reachable occupations of every initial occupation and every event with non-zero rate",
  "Tests follow single trajectories from one initial state and mostly two-state sites with identical codes.",
  ["kmcpy/simulator/state.py", "kmcpy/event/hop.py", "kmcpy/simulator/kmc.py"],
  [("occupation swap", "kmcpy/simulator/state.py: State.apply_event"), ("hop direction from state codes", "kmcpy/event/hop.py: HopStateLookup, event_direction")])
p("C04", "Each ion's identity, displacement and hop count follow the real hops",
  "At every point of every production history the tracker's ion locations are exactly the sites occupied by the mobile ion, each ion keeps its identity from hop to hop, its hop count is the number of hops it made, and its displacement is the sum of the shortest periodic-image Cartesian vectors of its own hops in the direction it really moved. Summed over hops, an ion's displacement differs from (current position - start position) by a lattice translation of the simulation cell. This holds in skewed cells, for hops across the cell boundary, for forward and backward traversal of an event and whatever integer code denotes the ion.",
  ["histories", "inputs"], "all hop histories over cells of several shapes, all initial occupations",
  "Tests check a few hops on orthogonal toy cells; identity mix-ups need crossing trajectories, wrap-around and reversed events.",
  ["kmcpy/simulator/tracker.py", "kmcpy/event/hop.py"],
  [("ion identity and hop bookkeeping", "kmcpy/simulator/tracker.py: Tracker.update"), ("minimum image displacement", "kmcpy/simulator/tracker.py: Tracker._wrapped_hop_displacement")])
p("C05", "Transport summaries equal their definitions over the production window",
  "Every recorded summary row equals the documented definition evaluated on the trajectory since production began: MSD, tracer and jump (collective) diffusivity divided by 2*d*elapsed time, Nernst-Einstein conductivity, Haven ratio and the per-ion-averaged correlation factor, in the documented units. A quantity that is undefined (no elapsed time, no ions, zero collective displacement) or disabled is NaN, never a number, and disabling one quantity does not change the others. A run that continues from a state with a non-zero clock reports the same transport coefficients as the identical trajectory started at time zero.",
  ["histories", "configurations"], "all hop histories to a depth x dimensions, charges, temperatures, hop distances and enable flags",
  "Tests compare a few hand-made displacement arrays; combinations of flags, zero times, idle ions and resumed clocks are not sampled.",
  ["kmcpy/simulator/property.py", "kmcpy/simulator/tracker.py", "kmcpy/units.py"],
  [("transport formulas", "kmcpy/simulator/property.py: compute_transport_properties"), ("summary sampling", "kmcpy/simulator/tracker.py: Tracker._sample_transport_summary")])
p("C06", "Property sampling fires exactly on schedule and keeps the right records",
  "A built-in summary or attached callback is evaluated after exactly those steps where its own (else the global) step interval divides the production step or its own (else the global) time interval has elapsed since it last fired, and it receives the current state, step and time. Stored records are exactly the firings in order, truncated to the newest max-records; disabled, detached or non-storing callbacks leave none, and attach/detach/enable/frequency changes between or during runs affect precisely later samples; invalid schedules, duplicate or reserved names are rejected without side effects. A failing callback stops the run with an error unless its handler says to continue, in which case no record is stored and the schedule advances.",
  ["histories", "configurations", "fault_sequences"], "all sequences of attach/detach/enable/clear/set-frequency/step operations up to a depth, all schedules over a small alphabet, callback failures at any firing",
  "Tests exercise individual calls; schedules interact with time steps, overrides, re-runs and failures in combinations that are not sampled.",
  ["kmcpy/simulator/property.py", "kmcpy/simulator/tracker.py", "kmcpy/simulator/kmc.py"],
  [("trigger rule", "kmcpy/simulator/property.py: should_trigger"), ("plan to tracker propagation", "kmcpy/simulator/kmc.py: attach/detach/set_property_*"), ("record truncation", "kmcpy/simulator/property.py: append_record")])
p("C07", "A run executes the configured passes, reproducibly, and reports what it did",
  "A run performs exactly equilibration-passes x pass-length unrecorded hops at frozen clock and then kmc-passes x pass-length production hops (pass length = number of sites whose template species is the mobile ion), so the final state, clock and step count are those of applying that very sequence of drawn events. Two runs with the same configuration and seed produce identical trajectories, results and files, and sampling properties or attaching read-only observers never changes the trajectory. The written result files contain exactly the tracker's displacement, hop counts, final occupation, summary table, units and property records.",
  ["configurations", "histories", "schedules"], "all combinations of passes, seeds, sampling settings, attachments and consecutive runs; all random tapes over an alphabet to a depth",
  "Tests run one or two configurations end to end and do not replay the draws independently.",
  ["kmcpy/simulator/kmc.py", "kmcpy/simulator/results.py", "kmcpy/simulator/tracker.py"],
  [("run protocol", "kmcpy/simulator/kmc.py: KMC.run"), ("result files", "kmcpy/simulator/results.py: write_tracker_results")])
p("C08", "Event dependencies list every event a hop can affect",
  "For any library of events, the dependents of an event are exactly the events that share a site with it (endpoints or local environment), itself included, whatever the order or repetition of sites. This stays true after every sequence of adding events, generating, clearing, saving and reloading; a stale or missing dependency list is never silently used as if it were current, and the index from a site to the events involving it is exact.",
  ["inputs", "histories"], "all small event libraries over a site alphabet and all operation sequences up to a depth",
  "Tests generate dependencies once for one or two libraries.",
  ["kmcpy/event/base.py"],
  [("dependency generation", "kmcpy/event/base.py: EventLib.generate_event_dependencies, _arrays_intersect"), ("persistence", "kmcpy/event/base.py: EventLib.as_dict/from_dict/from_file")])
p("C09", "All components agree on the active-site index space or the input is rejected",
  "For any template structure, site mapping and supercell, active sites are exactly the sites with more than one allowed species, numbered consistently and bijectively with the full supercell, so selecting a full occupation, filtering a structure and building the active structure all refer to the same physical sites. Saving and reloading the ordering preserves it, and events, occupations or metadata generated for a different structure, mapping or supercell, or with out-of-range indices or a wrong length, are rejected rather than reinterpreted.",
  ["inputs", "configurations"], "all small templates x site mappings x supercell shapes, all pairs of orderings",
  "Tests use one NASICON template and a few toy mappings; a silent mismatch needs two specific orderings side by side.",
  ["kmcpy/structure/active_site_order.py", "kmcpy/event/base.py", "kmcpy/simulator/state.py", "kmcpy/structure/sites.py"],
  [("ordering construction and fingerprint", "kmcpy/structure/active_site_order.py: ActiveSiteOrder.from_structure_and_mapping"), ("metadata validation", "kmcpy/event/base.py: EventLib.validate_index_metadata")])
p("C10", "Checkpoints restore the exact state and resuming equals not stopping",
  "Saving a checkpoint in either format at any point of any history and loading it yields the same occupations, clock (bit for bit) and step, independent of later changes to the original, and a simulation continued from it with the same random draws visits the same events, times and occupations as the uninterrupted one. Initial-state files given in the active-site or the full-structure layout load as the same state; malformed or unsupported files are rejected with an error.",
  ["histories", "crash_points", "inputs"], "all interruption points of all hop histories up to a depth, all occupations and clock values over an alphabet, all file formats",
  "Tests save and load a fresh state once; equality after resumption at every interruption point is not explored.",
  ["kmcpy/simulator/state.py", "kmcpy/simulator/kmc.py"],
  [("checkpoint io", "kmcpy/simulator/state.py: save_checkpoint/load_checkpoint/from_file"), ("state construction", "kmcpy/simulator/kmc.py: KMC.from_config")])
p("C11", "Configuration fields reach the simulation unchanged or are rejected",
  "Every configuration field given directly, through prebuilt parts, through change methods or through a JSON/YAML file (flat or sectioned) ends up with exactly the given value at every public access point, all other fields keep their previous or default value, and the original configuration object is never modified. Writing a configuration and reading it back gives an equal configuration (apart from loader paths in the recorded form), other sections of an existing workflow file are preserved, and unknown fields or invalid values are rejected on every route.",
  ["configurations", "inputs", "histories"], "all fields x value alphabet x construction route, all pairs of fields, all change sequences up to a depth, all file formats",
  "Tests set a few fields through one route each.",
  ["kmcpy/simulator/config.py", "kmcpy/cli/run_kmc.py", "kmcpy/cli/init.py"],
  [("field routing", "kmcpy/simulator/config.py: Configuration.__init__"), ("file io", "kmcpy/simulator/config.py: Configuration.from_file/to"), ("CLI overrides", "kmcpy/cli/run_kmc.py")])
p("C12", "Local-barrier rules: the first matching rule alone decides the barrier",
  "For every environment the barrier used is that of the first rule, in the given order, whose condition (species counts on the selected sites, exact species pattern, endpoints) the current occupation satisfies, otherwise the default barrier, and the rate is attempt frequency times exp(-barrier/kT) when the hop is possible and zero otherwise. A site-dependent rule refers to the event's own listed order of endpoints and environment sites, and the same rules saved and reloaded, or given in any of the equivalent documented spellings, give the same barrier everywhere. An environment that no rule matches and that has no default barrier, and an ill-formed rule, raise an error instead of yielding a rate.",
  ["inputs", "programs"], "all occupations of a local environment x all rule lists up to a length over a rule alphabet x both hop directions",
  "Tests cover single rules on a few environments; rule precedence is a combinatorial property.",
  ["kmcpy/models/local_barrier_model.py"],
  [("rule matching", "kmcpy/models/local_barrier_model.py: LocalBarrierModel"), ("serialization", "kmcpy/models/local_barrier_model.py: as_dict/from_dict")])
p("C13", "Hop rates follow the Arrhenius law with detailed balance",
  "For the composite model the rate of an allowed hop is v*exp(-(E_KRA + dE_site/2)/kT) with dE_site the energy after minus before the hop in meV, for every site-energy source (none, a cluster expansion in the event's canonical orientation, an external model in eV or meV, a user model) and both traversal directions, and zero for an impossible hop. Hence whenever E_KRA does not depend on which endpoint holds the ion, the ratio of the rates of a hop and its reverse is exp(-dE_site/kT), so with a state-function energy the products of rates around any closed cycle of hops agree in both directions. Saving and reloading the model changes no rate.",
  ["inputs", "histories"], "all occupations and hops (edges of the state graph) x model parameters, temperatures and attempt frequencies over an alphabet",
  "Tests compare a few rates to stored numbers, not the two directions of every hop in every environment.",
  ["kmcpy/models/composite_lce_model.py", "kmcpy/models/base.py", "kmcpy/event/hop.py"],
  [("rate evaluation", "kmcpy/models/composite_lce_model.py: compute_probability"), ("site-energy sign", "kmcpy/models/composite_lce_model.py: _compute_site_energy_difference")])
p("C14", "Cluster-expansion energies equal the sum over equivalent clusters",
  "For every occupation of a local environment the correlation of an orbit is the sum over its clusters of the product of site basis values, and the energy is the dot product of the parameters with the correlations plus the empty-cluster term, identically whether evaluated from a simulation state, a structure (whatever its site order) or a reloaded model, and for every basis. Orbits are the classes of congruent clusters (same template species, same inter-site distances) of one to four sites whose longest distance is below the cutoff of their size, each cluster once, so symmetry-equivalent occupations have equal energies. Parameters whose number, orbit identity or local environment does not match the model, and events whose environment has another size, are rejected without changing the model.",
  ["inputs"], "all occupations of small local environments x cutoffs x bases x site orders",
  "Tests compare one environment's stored correlation matrix.",
  ["kmcpy/models/local_cluster_expansion.py", "kmcpy/structure/cluster.py", "kmcpy/structure/basis.py", "kmcpy/structure/local_site_order.py", "kmcpy/structure/local_lattice_structure.py"],
  [("correlation kernel", "kmcpy/models/local_cluster_expansion.py: compute/_calc_corr"), ("orbit construction", "kmcpy/models/local_cluster_expansion.py: build"), ("parameter guard", "kmcpy/models/local_cluster_expansion.py: set_parameters")])
p("C15", "External site-energy models see exactly the current occupation",
  "With an external site-energy model attached, at every point of every history the external occupation equals the simulator's occupation translated through the site and species mapping, both when a hop's energy change is queried and after it is accepted; a query changes neither side, and the energy change used is after minus before for the direction the hop would take. Sites and species that the mapping does not cover, or an ambiguous mapping, raise an error instead of silently reusing another value.",
  ["histories", "inputs"], "all hop histories up to a depth x mappings x callback signatures",
  "Tests check one or two hops with one mapping.",
  ["kmcpy/models/site_energy.py", "kmcpy/models/composite_lce_model.py", "kmcpy/simulator/kmc.py"],
  [("external occupation mirror", "kmcpy/models/site_energy.py: SiteEnergyModel.apply_event"), ("change translation", "kmcpy/models/site_energy.py: SiteEnergyModel.compute")])
p("C16", "Occupations and structures convert into each other without loss",
  "For every template, site mapping, basis (the two-valued occupation basis with sites of at most two states) and supercell shape, building a structure from any occupation and reading the occupation back gives the same occupation, and the species on each site is the one its occupation value denotes for that site, vacancies being absent or dummy. Reading is insensitive to the order in which sites are listed and to displacements within tolerance, and a structure that does not fit the template (unknown species, misplaced or duplicated site, wrong cell) is rejected.",
  ["inputs", "configurations"], "all occupations x site orders x supercell shapes of small templates",
  "Tests round-trip a few occupations of one template.",
  ["kmcpy/structure/lattice_structure.py", "kmcpy/structure/basis.py", "kmcpy/structure/sites.py", "kmcpy/structure/active_site_order.py"],
  [("occupation reading", "kmcpy/structure/lattice_structure.py: get_occ_from_structure"), ("structure building", "kmcpy/structure/lattice_structure.py: get_structure_from_occ"), ("supercells", "kmcpy/structure/lattice_structure.py: make_supercell")])
p("C17", "Generated event libraries contain every hop once, in a consistent frame",
  "For every structure, cutoff and supercell the generated library contains exactly one event for each pair of mobile-ion sites within the hop criterion (per periodic image pair that differs in sites), with the local environment of each event listing exactly the active sites within the environment cutoff, once per periodic image. Translationally equivalent events list their environment sites in corresponding order, so one set of model parameters applies to all of them, and enlarging the supercell only multiplies the events. The generated file reloads to the same library and fits the active-site ordering of the same inputs, a local cluster expansion built at the reference centre lists the same sites in the same order, and requests that select no hop are rejected without writing a file.",
  ["inputs", "configurations"], "all small crystal templates x cutoffs x supercell shapes of a catalogue",
  "Tests count events for one NASICON cell.",
  ["kmcpy/event/generators.py", "kmcpy/structure/neighbors.py", "kmcpy/structure/local_lattice_structure.py", "kmcpy/structure/local_site_order.py"],
  [("event generation", "kmcpy/event/generators.py: EventGenerator.generate_events"), ("environment matching", "kmcpy/structure/neighbors.py")])
p("C18", "Enumerated environments are complete and endpoint pairs describe one hop",
  "For every local environment, set of allowed species and composition constraint the enumeration returns each admissible assignment exactly once (fixed sites unchanged, counts met), or a deterministic prefix when limited. Each generated endpoint pair differs only by the mobile ion being on the first or the second endpoint, with identical surroundings and cell, and inadmissible requests are rejected.",
  ["inputs", "configurations"], "all species sets x constraints x limits on small environments",
  "Tests enumerate one or two cases and check counts.",
  ["kmcpy/structure/local_environment_enumerator.py"],
  [("enumeration", "kmcpy/structure/local_environment_enumerator.py: enumerate_local_environments"), ("endpoint pair", "kmcpy/structure/local_environment_enumerator.py: generate_neb_endpoint_pair")])
p("C19", "Fitted parameters and fit histories survive storage unchanged and in order",
  "A fitted-parameter record written to any supported file format and read back has the same values and types, optional fields included, and a history of any length keeps every record in the order it was appended through every sequence of append, save and load. Appending to a history file never alters earlier records, and loading parameters into a model gives the same energies as before saving.",
  ["histories", "inputs"], "all sequences of append/save/load up to a depth x formats x optional-field combinations, history lengths past ten",
  "Tests round-trip one or two records.",
  ["kmcpy/models/parameters.py", "kmcpy/models/fitting/fitter.py"],
  [("record io", "kmcpy/models/parameters.py: LCEModelParameters.to/from_file"), ("history io", "kmcpy/models/parameters.py: LCEModelParamHistory.to/from_file")])
p("C20", "NEB datasets keep structures, energies, correlations and weights aligned",
  "For every sequence of additions to a barrier dataset, through any public route (entries, structures, files, batches), row i of the occupation and correlation matrices, the i-th property and the i-th metadata are those of the i-th accepted structure, whatever its atom order or periodic images; an addition that cannot be mapped, or whose vectors do not fit the dataset, is rejected and leaves it unchanged. Exported datasets and fitting inputs contain exactly these rows, in this order, with one weight per row (or are refused), and a fit on exported inputs is the fit of those rows.",
  ["histories", "inputs"], "all occupations x atom orders x images of three reference cells; all addition orders and batchings of a catalogue; all operation sequences (accepted, rejected, exported) up to a depth; all weight forms",
  "Tests add a fixed list once.",
  ["kmcpy/io/neb/data.py", "kmcpy/models/fitting/fitter.py"],
  [("dataset assembly", "kmcpy/io/neb/data.py: NEBDataLoader"), ("export", "kmcpy/io/neb/data.py: write_fitting_inputs")])
p("C21", "A fit returns the weighted Lasso optimum and reports its own errors",
  "For every training set (any number of rows and features, constant, duplicated or zero features, any positive weights) and every penalty, with or without feature normalisation, the fitted coefficients and constant minimise the documented weighted Lasso objective to solver tolerance, expressed for the original features: the predictions returned are those of the returned coefficients, a fitted model reproduces them, the reported error is their root-mean-square deviation, and the leave-one-out error is that of the same procedure with each row left out. The order of the rows and a common factor of the weights do not matter, the coefficient file and the stored record hold the returned coefficients, and coefficients that do not match the model's cluster list are refused without touching any result file.",
  ["inputs", "configurations"], "all small integer training sets up to a size x weights x penalties x normalisation, and their row permutations",
  "Tests fit one or two data sets and compare stored numbers.",
  ["kmcpy/models/fitting/fitter.py", "kmcpy/models/base.py", "kmcpy/models/local_cluster_expansion.py"],
  [("regression", "kmcpy/models/fitting/fitter.py: LCEFitter._fit_lasso_values"), ("leave-one-out error", "kmcpy/models/fitting/fitter.py: LCEFitter._leave_one_out_rmse"), ("records", "kmcpy/models/fitting/fitter.py: LCEFitter.fit")])
p("C22", "Loaded crystals list every symmetry image once, labelled by its atom",
  "For every symmetry group and every list of atoms in a crystal file, the labelled structure contains each symmetry image of each listed atom exactly once, with that atom's species and occupancy, its label and a number that identifies it; atoms listed at the same or at symmetry-equivalent positions share one site with their occupancies added. Enlarging it to any supercell lists every image of every site exactly once in the cell it is labelled with, and each site is found again by its label, number and cell, while unknown identities are rejected.",
  ["inputs", "configurations"], "a catalogue of fourteen symmetry groups x all positions of a grid (general and special) x partner positions x occupancies x file spellings x supercell matrices",
  "Tests load one NASICON file.",
  ["kmcpy/io/cif.py", "kmcpy/structure/sites.py"],
  [("symmetry expansion", "kmcpy/io/cif.py: _LabeledCifParser._get_labeled_structure"), ("supercell labels", "kmcpy/structure/sites.py: make_kmc_supercell"), ("site index", "kmcpy/structure/sites.py: build_site_index")])
p("C23", "Gathered Monte Carlo and KMC data describe the files they come from",
  "For every set of finished Monte Carlo and KMC result files, gathering them loses, repeats or mixes up nothing. The template built from a primitive cell holds every image of every active (not Zr or O) site exactly once, in the order of the primitive sites. An occupation read from a Monte Carlo structure has one entry per template site, -1 exactly where the structure has the template's species on that site (whatever the order of its atoms and the periodic image they are written in) and 1 otherwise. The gathered table has one row per result folder, with that folder's composition, index and occupation, sorted by composition and then index, whatever order the parallel workers finish in. Gathered KMC results keep every record of every file once and in order, tagged with the composition and index in the file's name, wherever the file lies, and with its position in its own file.",
  ["inputs", "schedules"], "all species assignments x atom orders x images on small templates; all completion orders of the parallel workers; all sets of result files up to a size",
  "There are no tests of these tools; worker completion order is not controllable from a unit test.",
  ["kmcpy/tools/gather_mc_data.py", "kmcpy/tools/gather_kmc_data.py"],
  [("occupations", "kmcpy/tools/gather_mc_data.py: get_occ"), ("gathering", "kmcpy/tools/gather_mc_data.py: gather_data"), ("KMC results", "kmcpy/tools/gather_kmc_data.py: gather_data")])
p("C24", "Simulations and calculations in one process do not disturb each other",
  "A simulation or calculation gives the same result whatever else the process has done before or does in between. Several simulations that take turns in any order, each with its own model state but possibly sharing the structure, site ordering, event library, configuration or a model that keeps no state, visit exactly the states, times and property records and write exactly the files that each of them does alone. Building models, orderings, libraries, fits, datasets or configurations, or reading a file whose content has changed since it was last read, depends only on the inputs given, not on earlier calls with other inputs.",
  ["schedules", "histories"], "all schedules of two simulations up to a preemption bound, all merges of their operation sequences, all pairs and cycles of a catalogue of calculations in one process",
  "Tests run one calculation at a time; a leak between two needs both, in a particular order, with inputs that coincide in just the wrong respects.",
  ["kmcpy/simulator/kmc.py", "kmcpy/simulator/tracker.py", "kmcpy/simulator/property.py", "kmcpy/event/base.py", "kmcpy/event/hop.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/io/cif.py"],
  [("per-simulation state", "kmcpy/simulator/kmc.py: KMC, kmcpy/simulator/tracker.py: Tracker, kmcpy/simulator/property.py: PropertyPlan"), ("shared inputs", "kmcpy/event/base.py: EventLib, kmcpy/event/hop.py: HopStateLookup.annotate_event_lib")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
