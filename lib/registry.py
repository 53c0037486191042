"""What each check builds and runs."""
RNG = ["-include", "scripted_rng.h"]
SCHED = ["-include", "sched_shim.h"]
GSL = ["-lgsl", "-lgslcblas", "-lpython3.12"]
CHECKS = {}
def add(pid, jobs, rule, level="model_checking", assumptions=()):
    CHECKS[pid] = {"jobs": jobs, "rule": rule, "level": level, "assumptions": list(assumptions)}

add("P01", [dict(name="p_ids", sources=["p_ids.cxx", "vsched.cxx"], projects=["dataclasses"], flags=SCHED,
                 files=[r"ParticleID\.cxx$", r"StringManipulation\.cxx$"])],
    "A state is one complete schedule (sequence of scheduling choices) of one scenario; all schedules up to the preemption bound are run on the real generator in a fresh process tree with real forks.",
    assumptions=["sequentially consistent memory", "fork does not happen while another thread is inside the generator", "clock and host id frozen, process ids real"])
DATACLASSES = [r"^/dataclasses/private/[^/]*\.cxx$", r"StringManipulation\.cxx$", r"^/math/private/(Vector3D|Quaternion|EulerAngles|Matrix3D)"]
add("P02", [dict(name="p_kinematics", sources=["p_kinematics.cxx"], projects=["dataclasses"], files=DATACLASSES)],
    "A state is one subset of supplied quantities of one reference particle; for each, several set/ask histories are executed and every quantity is asked in rotated orders and compared with the reference particle.")
add("P04", [dict(name="p_tree", sources=["p_tree.cxx"], projects=["dataclasses"], files=DATACLASSES)],
    "A state is one growth history of an event tree (for each step: which earlier node is the parent, and which overload adds it) or one assignment of parent links; the resulting tree is compared with the abstract tree.")
add("P03", [dict(name="p_transfer", sources=["p_transfer.cxx"], projects=["dataclasses"], files=DATACLASSES)],
    "A state is one combination of record content (ids, times, parameters, stale vectors) and sampler actions; the finalised record and every derived secondary start are compared with the expected record field by field.")
add("P05", [dict(name="p_events_persist", sources=["p_events_persist.cxx"], projects=["dataclasses"], files=DATACLASSES)],
    "A state is one event file situation: tree shape, truncation offset, byte offset at which writing starts to fail, inconsistent link assignment, or legacy layout.", level="fault_enumeration")
FULL = dict(projects=["distributions"], link=GSL)
add("P06", [dict(name="p_order", sources=["p_order.cxx"], **FULL)],
    "A state is one ordered pair of distributions out of the catalogue (every class in several parameter settings), built independently; all pairs and all ordered triples are compared.")
add("P07", [dict(name="p_process", sources=["p_process.cxx"], projects=["injection"], link=GSL,
                 files=DATACLASSES + [r"^/injection/private/Process\.cxx", r"^/distributions/private/Distributions\.cxx", r"/(Monoenergetic|FixedDirection|PrimaryMass|PrimaryEnergyDistribution|PrimaryDirectionDistribution)\.cxx",
                                      r"^/interactions/private/(Interaction|InteractionCollection|CrossSection|Decay|DummyCrossSection)\.cxx", r"/Random\.cxx"])],
    "A state is one history of add/set/copy/move/retype operations on one kind of process; after every step the lists, types and refusals are compared with an abstract list.")
add("P11", [dict(name="p_interp", sources=["p_interp.cxx"], projects=["utilities"], files=[r"Interpolator\.cxx$"])],
    "A state is one table (axis grid, value assignment, row order); each is queried at every node, next to every node, inside every cell and outside, and compared with an independent interpolation formula, also on copies and after reloading.")
SAMPLERS = DATACLASSES + [r"^/distributions/private/Distributions\.cxx", r"^/distributions/private/primary/((energy|direction|energy_direction|helicity|mass)/)?(?!py)\w+\.cxx", r"^/utilities/private/\w+\.cxx",
                          r"^/interactions/private/(Interaction|InteractionCollection|CrossSection|Decay|DummyCrossSection)\.cxx"]
add("P08", [dict(name="p_energy", sources=["p_energy.cxx"], projects=["distributions"], link=GSL, flags=RNG, files=SAMPLERS)],
    "A state is one distribution setting together with one choice of the random words it consumes (a grid including both extremes; for chains every combination of the first words over a small alphabet); the drawn energy is compared with the quantile of the reported density or with the reference chain.")
add("P09", [dict(name="p_direction", sources=["p_direction.cxx"], projects=["distributions"], link=GSL, flags=RNG, files=SAMPLERS)],
    "A state is one distribution setting with one choice of the random words it consumes (full grids of both words for directions, one class per row for event files, all pairs of chain points for two-dimensional fluxes); law, support and detailed balance are compared with the reported density.")
add("P12", [dict(name="p_numeric", sources=["p_numeric.cxx"], projects=["math"], files=[r"^/math/private/Polynomial\.cxx"], flags=["-fsanitize=address", "-fno-omit-frame-pointer"], link=["-fsanitize=address"])],
    "A state is one polynomial, one bracketed root problem, one table with bounds, or one integrand with limits and tolerance out of the stated families; every one is compared with the closed form, under the address sanitizer.")
add("P13", [dict(name="p_density", sources=["p_density.cxx"], projects=["detector"], files=[r"^/math/private/(Polynomial|Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/detector/private/\w*(Axis1D|Distribution1D|DensityDistribution|DensityDistribution1D)\.cxx"])],
    "A state is one density profile, start point and direction; value, derivative, integrals over several lengths and inverse integrals for several targets are compared with quadrature of the closed form.")
add("P14", [dict(name="p_material", sources=["p_material.cxx"], projects=["detector"], files=[r"^/detector/private/(MaterialModel|AtomicMasses)\.cxx"])],
    "A state is one history of material definitions and redefinitions, one material file (or one of its truncations), or one nuclide code; after each every reported fraction, target list and radiation length is compared with the current composition.")
add("P15", [dict(name="p_rotation", sources=["p_rotation.cxx"], projects=["geometry"], files=[r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/geometry/private/Placement\.cxx"])],
    "A state is one vector, matrix, quaternion, Euler triple (with its order), pair of directions, or history of operations on placements; each is compared with products of elementary rotation matrices and Rodrigues' formula.")
DECAY_FILES = [r"^/interactions/private/(HNLDipoleDecay|HNLDecay|ElectroweakDecay|CharmMesonDecay|CharmMesonDecay3Body|Decay|Interaction)\.cxx", r"^/dataclasses/", r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/utilities/private/(Random|Errors)\.cxx"]
add("P16", [dict(name="p_decay", sources=["p_decay.cxx"], projects=["interactions"], flags=RNG, files=DECAY_FILES, link=["-lgsl", "-lgslcblas"])],
    "A state is one decay model, channel, parent energy, direction and helicity together with one choice of the random words the sampler consumes; every final state is compared with conservation, mass shell and the rest-frame law, and the enumerated acceptance of rejection and Markov-chain samplers with the reported density.")
add("P17", [dict(name="p_width", sources=["p_width.cxx"], projects=["interactions"], files=DECAY_FILES, link=["-lgsl", "-lgslcblas"])],
    "A state is one decay model, channel, mass, coupling vector and nature; each width is compared with its closed form (own quadrature for the three-body and quark-level integrals), the totals with the sum over channels, and lists with charge conservation and CP.")
SCATTER_FILES = [r"^/interactions/private/(ElasticScattering|HNLDipoleFromTable|DummyCrossSection|DarkNewsCrossSection|CrossSection|Interaction)\.cxx", r"^/dataclasses/", r"^/detector/private/(MaterialModel|AtomicMasses)\.cxx", r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/utilities/private/(Random|Errors|Interpolator)\.cxx"]
add("P18", [dict(name="p_scatter", sources=["p_scatter.cxx"], projects=["interactions"], flags=RNG, files=SCATTER_FILES, link=["-lgsl", "-lgslcblas"])],
    "A state is one scattering model setting, target, energy, direction and helicity together with one choice of the random words the sampler consumes, or one (primary, target) pair asked of a model's lists; every final state is compared with two-body kinematics, every density with the closed form or table, and the enumerated chain acceptance with the reported density.")
add("P19", [dict(name="p_collection", sources=["p_collection.cxx"], projects=["interactions"], flags=RNG, link=["-lgsl", "-lgslcblas"], files=[r"^/interactions/private/(InteractionCollection|ElasticScattering|HNLDipoleFromTable|DummyCrossSection)\.cxx"] + DECAY_FILES + SCATTER_FILES)],
    "A state is one collection: which cross sections (every subset of three targets for each of up to three), which decays, in which order and through which constructor; all its answers are compared with those of the interactions it was given, and again after saving and reloading in three formats.")
add("P20", [dict(python="p_download.py")],
    "A state is one point at which a download or extraction is killed (every executed line), one position and kind of transfer or disk fault, one schedule of two processes (all with at most two, for archives one, preemptions at executed lines), or one combination of requested files, archive entries and cache contents; the directory is inspected after (for schedules: at) every one and the operation is retried.", level="fault_enumeration",
    assumptions=["a crash is the death of the process, not of the machine (no reordering of completed file operations)", "two processes are two threads with separate process ids and no shared module state"])
GEOMETRY = [r"^/geometry/private/", r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles|Polynomial)\.cxx"]
add("P21", [dict(name="p_geometry", sources=["p_geometry.cxx"], projects=["geometry"], files=GEOMETRY)],
    "A state is one shape setting (with or without a placement) and one line; the crossings along the whole line, every probed point of it and the bounding box are compared with the shape's membership function.")
add("P22", [dict(name="p_geomlaws", sources=["p_geomlaws.cxx"], projects=["geometry"], files=GEOMETRY)],
    "A state is one history of copies, assignments, exchanges, moves and archive round trips over two shapes of one kind (or of two kinds), or one pair of shapes compared.")
DETECTOR = GEOMETRY + [r"^/detector/private/\w+\.cxx", r"^/dataclasses/private/Particle\w*\.cxx", r"^/math/private/", r"^/utilities/private/(Errors|StringManipulation|Random|Interpolator)\.cxx"]
add("P23", [dict(name="p_detector", sources=["p_detector.cxx"], projects=["detector"], files=DETECTOR)],
    "A state is one detector (sectors, levels, frame) with one point or line, or one history of changes and archive round trips; every reported quantity is compared with the sectors' membership and density functions.")
add("P24", [dict(name="p_path", sources=["p_path.cxx"], projects=["detector"], files=DETECTOR)],
    "A state is one history of operations on a path (every operation sequence up to the bound, with and without queries in between); all answers are compared with the stretch of the line the history describes.")
VERTEX = DETECTOR + DATACLASSES + [r"^/distributions/private/Distributions\.cxx", r"^/distributions/private/primary/\w+\.cxx", r"^/distributions/private/(primary|secondary)/vertex/(?!py)(?!\w*LeptonInjector)\w+\.cxx", r"^/distributions/private/secondary/\w+\.cxx", r"^/utilities/private/\w+\.cxx",
                    r"^/interactions/private/(Interaction|InteractionCollection|CrossSection|Decay|DummyCrossSection)\.cxx"]
add("P25", [dict(name="p_vertex", sources=["p_vertex.cxx"], projects=["distributions"], link=GSL, flags=RNG, files=VERTEX)],
    "A state is one vertex distribution setting in one detector with one set of interactions, direction and start; every grid of random words it consumes is drawn, and the vertices, reported density and reported bounds are compared with the law of an interaction along the stretch of line the setting describes.")
INJECT = VERTEX + [r"^/injection/private/(Injector|WeightingUtils|Process)\.cxx"]
add("P26", [dict(name="p_inject", sources=["p_inject.cxx"], projects=["injection"], link=GSL, flags=RNG, files=INJECT)],
    "A state is one vertex with one set of interactions, one sequence of random decisions of an injector (every sequence up to the bound, branching on refusals and channels), or one history of operations on an injector; the choice of channel, the tree, the counters, the reported probability and the reloaded injector are compared with an independent account.")
add("P27", [dict(name="p_weight", sources=["p_weight.cxx"], projects=["injection"], link=GSL + ["-Wl,--allow-multiple-definition"], flags=RNG, files=INJECT + [r"^/injection/private/Weighter\.cxx"])],
    "A state is one event tree in one detector with one set of injectors, physical interactions and physical factors; the weight, the interaction and survival probabilities and the weight after saving and loading are compared with the ratio computed from independent rates, depths and densities; also every byte offset at which saving or loading stops.")
GDML = DETECTOR + [r"^/detector/private/gdml/"]
add("P28", [dict(name="p_gdml_expr", sources=["p_gdml_expr.cxx"], projects=["detector"], files=GDML)],
    "A state is one expression (every string of up to the stated number of tokens, valid or not), one unit with one use, or one program of definitions with loops; what the parser stores is compared with a recursive-descent reading and with the executed program, and everything malformed has to be refused.")
add("P29", [dict(name="p_gdml_detector", sources=["p_gdml_detector.cxx"], projects=["detector"], files=GDML)],
    "A state is one detector description (one to three files) with its probe points: the description is imported with the real parser and the model compared point by point with an independent reading of the description; whatever the importer cannot represent has to be reported.")
add("P30", [dict(name="p_detfile", sources=["p_detfile.cxx"], projects=["detector"], files=DETECTOR)],
    "A state is one description file (or fiducial line) of the enumerated grammar, or one probe point of a shipped detector; the loaded model is compared point by point with an independent evaluation of the description, and every truncated or corrupted line has to be refused.")
add("P31", [dict(python="p_resources.py")],
    "A state is one version string (all strings up to a bound over two alphabets, and all combinations of a menu of epochs, releases, pre-, post- and development releases and local parts, compared pairwise), or one layout of resource folders with one requested name; the folder found, what is loaded from it, the lists and the attributes are compared with PEP 440 and the documented search.")
add("P32", [dict(python="p_weights.py")],
    "A state is one combination of event headers, weight policy, weighter and requested outputs, or one sequence of sets to be pooled (with every spelling of their paths, duplicates, aliases and counts) with or without a failing writer; everything handed to the writers and left in the caller's objects is compared with the documented rule.")
add("P33", [dict(python="p_wrappers.py")],
    "A state is one configuration of the Python injector or weighter reached by a history of construction, assignments, generation, copying, saving and loading; after every operation what it reports and what the compiled object behind it was given are compared with the history.")
add("P34", [dict(python="p_earth.py")],
    "A state is one layered Earth (layers, atmosphere, site sectors, direction of up, surface, existing volumes and their levels) or one order of sectors reached by a history of builds and insertions; the matter found along a line through the site is compared with the layers that were asked for.")
add("P35", [dict(python="p_loaders.py")],
    "A state is one call of a flux or interaction loader (every tag over an alphabet of valid and invalid parts, every order of the columns of the table, every energy range and normalisation, every subset of primaries, targets and processes), or a pair of calls with or without a failing write; the table or interactions returned are compared with the ones the tag denotes.")
add("P36", [dict(python="p_darknews.py")],
    "A state is the content of the cross section tables reached by a history of queries, fills, saves, failed saves, reloads and rebuilds; every answer on the way is compared with the closed form of the cross section.")
HEPMC = ["-DSIREN_HAS_HEPMC3=1", "-DSIREN_HEPMC3_HAS_COMPRESSION=1"]
add("P37", [dict(name="p_hepmc", sources=["p_hepmc.cxx"], projects=["io"], files=DATACLASSES + [r"^/io/private/HepMC3(Reader|Writer)\.cxx$"], flags=HEPMC)],
    "A state is one event tree (shape, joined secondaries, kinds of target, which identifiers are set), one list of events with options, or one file with a lost attribute; the HepMC3 event and the events read back are compared with the tree field by field.")
DIS_FILES = [r"^/interactions/private/(DISFromSpline|HNLDISFromSpline|HNLDipoleDISFromSpline|CrossSection|Interaction)\.cxx", r"^/dataclasses/", r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/utilities/private/(Random|Errors|Interpolator)\.cxx"]
add("P38", [dict(name="p_dis", sources=["p_dis.cxx"], projects=["interactions"], flags=RNG + ["-DVERIF_SPLINES"], files=DIS_FILES, link=["-lgsl", "-lgslcblas"])],
    "A state is one deep inelastic model (kind, table, cuts, masses, couplings, unit, way of construction) with one energy and point of the (x, y) plane, one choice of the random words of its sampler, one set of primaries and targets, or one archive; every answer is compared with the closed form of the table and with two-body kinematics, and the enumerated acceptance of the Markov chain with the reported density.")
CHARM_FILES = [r"^/interactions/private/(QuarkDISFromSpline|CrossSection|Interaction)\.cxx", r"^/dataclasses/", r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/utilities/private/(Random|Errors|Interpolator)\.cxx"]
add("P39", [dict(name="p_charm", sources=["p_charm.cxx"], projects=["interactions"], flags=RNG + ["-DVERIF_SPLINES"], files=CHARM_FILES, link=["-lgsl", "-lgslcblas"])],
    "A state is one charm production model (current, table, cuts, target mass, unit, way of construction) with one energy and point of the (xi, y) plane, one choice of the random words of its sampler, one set of primaries and targets, or one archive; every answer is compared with the closed form of the table, with slow-rescaling kinematics and with the Peterson fragmentation function, and the enumerated acceptance of the Markov chain with the reported density.")
add("P40", [dict(python="p_dndecay.py")],
    "A state is what a DarkNews decay (and its folder) holds after a history of width, differential and sampling requests, saves, reloads, pickles and rebuilds, or one sampled decay (kind x parent momentum x order of secondaries x random number), or one set of processes loaded (upscattering cases x decays x primary x what was stored before).")
DMESON_FILES = [r"^/interactions/private/(DMesonELoss|CrossSection|Interaction)\.cxx", r"^/dataclasses/", r"^/math/private/(Vector3D|Matrix3D|Quaternion|EulerAngles)\.cxx", r"^/utilities/private/(Random|Errors|Interpolator)\.cxx"]
add("P41", [dict(name="p_dmeson", sources=["p_dmeson.cxx"], projects=["interactions"], flags=RNG + ["-DVERIF_SPLINES"], files=DMESON_FILES)],
    "A state is one charm meson with its energy and direction and one pair of random words of the sampler, or one inelasticity at which the density is asked for; samples are compared with the kinematics and with the closed form of the cut Gaussian.")
add("P42", [dict(python="p_sbn.py")],
    "A state is one pair or triple of frames with its probe points, one small graph of frames, one history of composite loads, one failing file operation of a load, or one interleaving (of up to a bound of context switches at file operations) of two or three concurrent loads; transforms are compared with each other and with the published anchors, composites with an independent reading of the written description.")
