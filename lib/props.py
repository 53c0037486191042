"""Property texts (source of properties.jsonl) and manifest notes."""
PROPS = []
NOT_APPLICABLE = []
NOTES = ("Every check compiles /repo's current sources (never a copy) together with a harness in /verif/harness into /verif/.build, "
         "enumerates a bounded space exhaustively and compares each execution with an independent oracle. ./check ID quick|thorough.")
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, **anch):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(anch)
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a,
                  "technique": technique, "level_note": note})

prop("P01", "Particle identifiers are never handed out twice",
     "Every particle identifier generated by any thread of a process, of a forked child or of a grandchild is set and differs from every other identifier generated in that process family, and generating identifiers never deadlocks.",
     ["schedules", "histories"], "all interleavings of up to 3 threads generating identifiers, with 0-2 identifiers generated before 0-2 forks and more generated by the parent afterwards",
     "A duplicate needs one particular interleaving right after a fork; a test runs one schedule.",
     ["projects/dataclasses/private/ParticleID.cxx"], [("GenerateID: pid check, major id, minor counter", "projects/dataclasses/private/ParticleID.cxx")],
     "stateless model checking: controlled scheduler, all schedules up to a preemption bound, real forks", 
     "Exhaustive over sequentially consistent schedules up to the preemption bound on the compiled generator; weak-memory reorderings and forks in the middle of another thread's call are outside.",
     observe_at=["siren::dataclasses::ParticleID::GenerateID"])
prop("P02", "Derived particle kinematics always agree with the supplied quantities",
     "For a primary or secondary particle under construction, whatever subset of mass, energy, kinetic energy, momentum, direction, length, start point, vertex, point of closest approach and distances has been supplied, in whatever order, overwritten or queried before, each queried quantity either equals the value the supplied ones determine or is refused; it is never stale, inconsistent or invented. Finalising succeeds exactly when everything needed is determined and writes those values, and the vertex time is the start time plus the straight-line flight time unless set explicitly.",
     ["inputs", "histories"], "all 2048 subsets of the 11 quantities of several reference particles, several set/overwrite/query histories each",
     "Each derivation path is reached only by particular subsets and orders; tests cover a few dozen of the thousands.",
     ["projects/dataclasses/private/InteractionRecord.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h"],
     [("lazy derivation of kinematic quantities", "projects/dataclasses/private/InteractionRecord.cxx (Update*/Get*)"), ("finalisation", "projects/dataclasses/private/InteractionRecord.cxx (Finalize, FinalizeAvailable)")],
     "explicit enumeration of all supply/query histories against a reference particle",
     "Exhaustive over subsets and the listed histories for 4 reference particles (massive, massless, before/after closest approach); zero-length tracks are outside.")
prop("P03", "Interaction hand-over from primary to secondaries loses and invents nothing",
     "When a sampled interaction is finalised, the record holds exactly the primary, target and secondary quantities that were sampled, keeps identifiers that were already assigned and gives every other particle a fresh distinct one, merges interaction parameters, and drops stale secondary entries. A secondary then starts at its parent's vertex with its own momentum, helicity, identity and production time (the vertex time unless set), and its interaction vertex and time follow from its path length, which must have been set.",
     ["inputs", "histories"], "0-3 secondaries, all combinations of preset identifiers, time overrides before/after the secondaries, parameter merges, stale vectors, per-secondary times and setter styles, missing times from old files",
     "The fields interact (override before or after, short id vectors, stale entries); tests check isolated combinations.",
     ["projects/dataclasses/private/InteractionRecord.cxx"], [("cross-section record finalisation", "projects/dataclasses/private/InteractionRecord.cxx"), ("secondary record creation and finalisation", "projects/dataclasses/private/InteractionRecord.cxx")],
     "explicit enumeration of hand-over histories compared field by field with the expected record",
     "Exhaustive over the stated combinations; values are fixed distinctive numbers.")
prop("P04", "Event trees keep exactly the parent/daughter structure they were grown with",
     "However an event tree is grown, node numbers equal positions, each node's parent, ordered daughters, root flag, depth and content are exactly those of the interaction that was attached, regardless of stale bookkeeping in the object handed in. Depth queries on links that form a cycle or point outside the tree are refused instead of looping, and two trees compare equal exactly when no field differs.",
     ["histories", "inputs"], "all growth histories up to 5 nodes over all parents and all ways of adding, up to 7 nodes with one way; all parent assignments on up to 5 nodes; every single-field difference",
     "Structure bugs need a particular shape (late daughters of an early node, several roots).",
     ["projects/dataclasses/private/InteractionTree.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionTree.h"], [("node insertion", "projects/dataclasses/private/InteractionTree.cxx (add_entry)"), ("depth and equality", "projects/dataclasses/private/InteractionTree.cxx")],
     "explicit-state enumeration of all growth histories against an abstract tree", "Exhaustive up to the stated sizes.")
prop("P05", "Saved events come back exactly, and incomplete files are never silently accepted",
     "Event lists written to disk (binary files, or JSON archives) load back identical in every field, including shared and missing events and files in the layouts of older releases, where times default to zero. A file cut at any byte, or with node links that point outside the tree, is refused; a save that could not put every byte on disk reports it.",
     ["crash_points", "fault_sequences", "inputs"], "all tree shapes up to 5 nodes, every truncation offset, every byte offset at which the file system stops accepting data, all single-link corruptions of small trees, all legacy layouts",
     "Tests check a few clean round trips; crash and fault points are one per byte.",
     ["projects/dataclasses/private/InteractionTree.cxx", "projects/dataclasses/public/SIREN/dataclasses/InteractionTree.h", "projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h", "projects/dataclasses/public/SIREN/dataclasses/InteractionSignature.h", "projects/dataclasses/public/SIREN/dataclasses/ParticleID.h"],
     [("tree save/load and validation", "projects/dataclasses/private/InteractionTree.cxx"), ("record archive layout", "projects/dataclasses/public/SIREN/dataclasses/InteractionRecord.h")],
     "fault enumeration: every truncation and write-failure offset, every tree shape, replayed on the real save/load code",
     "Exhaustive over the stated offsets and shapes; undetectable bit flips inside values are outside.")
prop("P06", "Comparing distributions is a consistent equality and total order",
     "Two distributions compare equal exactly when they describe the same sampling law (same class and same parameters that matter), copies and clones equal their original, and the ordering between distributions is a strict total order compatible with that equality, so that sorted or cancelled sets of distributions never merge different ones or keep duplicates.",
     ["inputs"], "every distribution class in several parameter settings differing in one parameter at a time; all ordered pairs and triples",
     "Order laws are about all pairs and triples, including pairs of different classes; tests compare a few pairs.",
     ["projects/distributions/private", "projects/distributions/public/SIREN/distributions"],
     [("equal/less of each distribution", "projects/distributions/private/**/*.cxx"), ("type dispatch", "projects/distributions/private/Distributions.cxx")],
     "explicit enumeration of all pairs and triples of a catalogue of distributions on the real comparison operators",
     "Exhaustive over the catalogue (57k pairs); parameters outside the catalogue are not compared.")
prop("P07", "Processes keep exactly the distributions and interactions they were given",
     "Whatever sequence of adding, setting, copying, moving and retyping operations is applied to a primary or secondary injection or physical process, it holds each accepted distribution once, in order, with the type and interactions last set; an operation that is refused (duplicate, wrong type) leaves it unchanged; copies are independent of the original.",
     ["histories"], "all histories up to 4 operations (5 in depth) over the operation alphabet for each kind of process",
     "The failing states need a particular sequence, such as setting a list with two equal distributions in different objects.",
     ["projects/injection/private/Process.cxx", "projects/injection/public/SIREN/injection/Process.h"], [("distribution lists", "projects/injection/private/Process.cxx")],
     "explicit-state enumeration of operation histories against an abstract list", "Exhaustive up to the stated depth and alphabet.")
prop("P08", "Sampled energies follow the energy density each distribution reports",
     "For every energy distribution (monoenergetic, power law, moyal plus exponential, tabulated flux, and the uniform and power-law helpers underneath), whatever the random stream produces, the drawn energy lies in the allowed range, and the law of the drawn energies is the one whose normalised density the distribution reports as generation probability, which is zero outside the range; the reported normalisation and tabulated cumulative function agree with it.",
     ["inputs", "histories"], "grids of random words including both extremes for inversion samplers, all combinations of the first words for the Markov chain sampler; several settings of every class",
     "Sampler and density are separate code; a mismatch biases every weight without failing any test.",
     ["projects/distributions/private/primary/energy", "projects/utilities/private/Random.cxx", "projects/utilities/public/SIREN/utilities/Integration.h"],
     [("energy samplers and densities", "projects/distributions/private/primary/energy/*.cxx"), ("uniform and power-law draws", "projects/utilities/private/Random.cxx")],
     "exhaustive enumeration of the sampler's random choices through a scripted engine, compared with the reported density",
     "The random stream is replaced by a script; exhaustive over the word grid. Statistical quality of mt19937_64 is outside.")
prop("P11", "Table interpolation reproduces its nodes and interpolates between them",
     "One- and two-dimensional interpolation tables return the tabulated value at every node and the linear (or log-linear) interpolation inside every cell, whatever the order of the input rows, the regular or irregular spacing of the axes and zero entries; outside the table the documented extrapolation applies; copies and reloaded tables behave identically.",
     ["inputs"], "all small axis grids, all value assignments over a small alphabet including zero, all row orders of small tables; queries at, next to and between all nodes",
     "Failing cells are those at the edge or next to a zero entry; tests query a few interior points.",
     ["projects/utilities/public/SIREN/utilities/Interpolator.h"], [("indexers, transforms, interpolators", "projects/utilities/public/SIREN/utilities/Interpolator.h")],
     "explicit enumeration of tables and query classes against an independent formula", "Exhaustive over the stated small tables; large tables differ only in size.")
prop("P09", "Direction, helicity, mass and file-driven samplers follow their reported density",
     "Each direction, helicity, mass, energy-direction and event-file sampler only produces values inside its support, produces them with exactly the density its generation probability reports (cone opening, isotropy, fixed direction, rows of an event file, two-dimensional flux tables), reports zero density outside it, and yields unit directions consistent with mass and energy.",
     ["inputs", "histories"], "all combinations of the random words over grids including both extremes, for several settings (axes along and against every coordinate axis, wide and narrow cones, one-row and many-row files, transitions between all pairs of chain points of a two-dimensional flux)",
     "A wrong density shows only as a slowly converging statistical bias; a wrong edge only at one axis or one extreme random word.",
     ["projects/distributions/private/primary/direction/Cone.cxx", "projects/distributions/private/primary/direction/FixedDirection.cxx", "projects/distributions/private/primary/direction/IsotropicDirection.cxx",
      "projects/distributions/private/primary/helicity/PrimaryNeutrinoHelicityDistribution.cxx", "projects/distributions/private/primary/mass/PrimaryMass.cxx", "projects/distributions/private/primary/PrimaryExternalDistribution.cxx",
      "projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx"],
     [("direction sampling and density", "projects/distributions/private/primary/direction"), ("row choice of event files", "projects/distributions/private/primary/PrimaryExternalDistribution.cxx"), ("chain acceptance", "projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx")],
     "exhaustive enumeration of the random words on the compiled samplers, compared with the reported density", "Exhaustive over the word grids; the random engine's own uniformity is assumed.")
prop("P12", "Polynomials, root finding and numerical integration return what they promise",
     "Polynomial evaluation, derivative, antiderivative and shift agree with the coefficients for every degree; root finding returns a point of the bracket where the function vanishes, whatever the bracket orientation; table lookup helpers pick the bracketing cell; and the integrators return the integral within their tolerance or refuse, without reading or writing outside their buffers.",
     ["inputs"], "all polynomials with coefficients in a small alphabet up to a degree, all root problems of several families with all bracket orientations, all small tables and limits",
     "Edge degrees, degenerate brackets and boundary nodes are reached by few inputs.",
     ["projects/math/private/Polynomial.cxx", "projects/math/public/SIREN/math/Polynomial.h", "projects/utilities/public/SIREN/utilities/Integration.h"],
     [("Polynom", "projects/math/private/Polynomial.cxx"), ("NewtonRaphson", "projects/math/private/Polynomial.cxx"), ("Romberg, Simpson and trapezoid integrators", "projects/utilities/public/SIREN/utilities/Integration.h")],
     "explicit enumeration of a bounded input space against closed forms, under the address sanitizer", "Exhaustive over the stated families; accuracy is required to the documented tolerance only.")
prop("P13", "Density profiles: value, derivative, integral and inverse integral agree",
     "For every density profile (constant, polynomial or exponential, along a Cartesian or radial axis), the reported density, its directional derivative, the integral along a segment (by length or by end point) and the distance that reaches a given integral are mutually consistent from any start point in any direction; an unreachable integral is reported as unreachable; copies and equality preserve behaviour.",
     ["inputs"], "all combinations of profiles, axes, start points (including on the axis origin), directions (including perpendicular and antiparallel to the axis), lengths and targets out of the stated grids",
     "The closed forms differ per template specialisation and degenerate directions select other branches.",
     ["projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h", "projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h", "projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h",
      "projects/detector/public/SIREN/detector/RadialAxisPolynomialDensityDistribution.h", "projects/detector/public/SIREN/detector/ConstantDensityDistribution.h", "projects/detector/private/RadialAxis1D.cxx", "projects/detector/private/CartesianAxis1D.cxx", "projects/detector/private/PolynomialDistribution1D.cxx"],
     [("Integral / InverseIntegral per specialisation", "projects/detector/public/SIREN/detector"), ("axis coordinate and slope", "projects/detector/private/RadialAxis1D.cxx, CartesianAxis1D.cxx")],
     "explicit enumeration of segments on every density specialisation against quadrature of the closed form", "Exhaustive over the grids; radial integrals are held to 1e-3 because the library's Romberg rule stops early.")
prop("P14", "Material tables report the composition that was last defined",
     "After any history of material definitions, redefinitions and file loads, each material reports exactly the targets, mass and molar fractions, particle densities per mass and radiation length of its latest definition, mass fractions are normalised, neutrons, protons and electrons are counted, and names, ids and targets map one to one. Malformed, inconsistent or truncated files are refused rather than half-read or looped on.",
     ["histories", "inputs"], "all definition histories up to length 3 over an alphabet of compositions and names, all truncations and single-row corruptions of material files, all nuclide codes of the mass table",
     "Stale components only appear after a redefinition; truncation bugs at one offset.",
     ["projects/detector/private/MaterialModel.cxx", "projects/detector/private/AtomicMasses.cxx"], [("AddMaterial, ReadMaterialFile, component maps", "projects/detector/private/MaterialModel.cxx")],
     "explicit-state enumeration of definition histories and truncation points against an abstract table", "Exhaustive over the histories and truncation offsets of the sample files.")
prop("P15", "Vectors, matrices, quaternions, Euler angles and placements agree on rotations",
     "Vector and matrix arithmetic, spherical conversion and deflection are exact geometry; every quaternion, matrix, axis-angle and Euler triple (all 24 orders) that denotes a rotation rotates vectors identically and converts back to the same rotation, also at gimbal lock; the rotation between two directions takes one to the other even when opposite; and a placement's local and global mappings are mutually inverse after any history of setting, copying, moving, swapping or reloading.",
     ["inputs", "histories"], "all vectors over a small alphabet and all pairs, all integer quaternions in a box and all their products, 24 Euler orders on an angle grid with all poles, all pairs of lattice directions including opposite and nearly opposite ones, all placement histories up to depth 3 (4 thorough)",
     "Wrong signs appear in single Euler orders, at single poles, or only for opposite directions.",
     ["projects/math/private/Vector3D.cxx", "projects/math/private/Matrix3D.cxx", "projects/math/private/Quaternion.cxx", "projects/math/public/SIREN/math/Conversions.h", "projects/math/public/SIREN/math/EulerQuaternionConversions.h", "projects/math/public/SIREN/math/EulerAngles.h", "projects/geometry/private/Placement.cxx"],
     [("rotation conversions", "projects/math/public/SIREN/math/Conversions.h"), ("quaternion algebra, rotation_between", "projects/math/private/Quaternion.cxx"), ("identity flag and mappings", "projects/geometry/private/Placement.cxx")],
     "explicit enumeration of rotations and placement histories against products of elementary rotation matrices", "Exhaustive over the stated grids; in-place quaternion multiplication order and the equality of vectors with stale spherical coordinates are not judged.")
prop("P16", "Sampled decays conserve four-momentum and follow the reported decay law",
     "Whatever the random choices, parent energy, direction and helicity, each sampled decay (dipole and mixing heavy neutral leptons, electroweak bosons, charm mesons) conserves four-momentum, puts every daughter on its mass shell in the right order with its helicity, and is distributed, in the parent's rest frame, exactly as the differential width it reports: two-body angles are exact inverses, rejection and Markov-chain steps accept with the ratio of densities, reported densities are non-negative and integrate to one, and differential widths integrate to the total width.",
     ["inputs", "histories"], "all decay models, channels, helicities and natures at several masses (including thresholds), boosts and directions (including along and against the axes) with all random words on a grid; all words sequences of the Markov-chain sampler for small chains",
     "Sign, frame and normalisation errors appear only for particular helicities, channels or directions.",
     ["projects/interactions/private/HNLDecay.cxx", "projects/interactions/private/HNLDipoleDecay.cxx", "projects/interactions/private/ElectroweakDecay.cxx", "projects/interactions/private/CharmMesonDecay.cxx", "projects/interactions/private/CharmMesonDecay3Body.cxx", "projects/utilities/public/SIREN/utilities/Random.h"],
     [("SampleFinalState", "projects/interactions/private/*Decay*.cxx"), ("DifferentialDecayWidth / FinalStateProbability", "projects/interactions/private/*Decay*.cxx"), ("MetropolisHasting_Sample", "projects/utilities/public/SIREN/utilities")],
     "exhaustive enumeration of the random words on the compiled samplers against conservation laws and the reported density", "Exhaustive over the word grids. The three-neutrino mode has no sampled kinematics by design.")
prop("P17", "Decay widths, channel lists, totals and decay lengths are mutually consistent",
     "For every decay model and parameter choice (mass, mixings, Dirac or Majorana nature, couplings), each channel's width is the published formula in the declared units, vanishes exactly when the channel is closed or its coupling is zero, scales with the coupling squared and is the same for the charge-conjugate channel; the channels offered are exactly the ones with a parent of the right kind, conserve electric charge, and are not repeated; widths of the offered channels add up to the total; and the decay length is beta*gamma*hbar*c over the total width.",
     ["inputs"], "all models, channels, natures, mixing patterns over {0, small, large}, and masses on both sides of every threshold, energies from rest to ultra-relativistic",
     "A wrong threshold, factor of two for Majorana particles or unit appears for single channels, masses and mixing patterns; tests evaluate a few.",
     ["projects/interactions/private/HNLDecay.cxx", "projects/interactions/private/HNLDipoleDecay.cxx", "projects/interactions/private/ElectroweakDecay.cxx", "projects/interactions/private/CharmMesonDecay.cxx", "projects/interactions/private/CharmMesonDecay3Body.cxx", "projects/interactions/private/Decay.cxx", "projects/utilities/public/SIREN/utilities/Constants.h"],
     [("TotalDecayWidth, TotalDecayWidthForFinalState, GetPossibleSignatures*", "projects/interactions/private/*Decay*.cxx"), ("TotalDecayLength", "projects/interactions/private/Decay.cxx"), ("constants", "projects/utilities/public/SIREN/utilities/Constants.h")],
     "exhaustive enumeration of models, channels, masses and couplings against independently written width formulae and sum rules", "Exhaustive over the stated grid. Three-body widths are compared with an independent quadrature within its tolerance; off-diagonal W lepton signatures are not judged.")
prop("P18", "Sampled scatterings conserve four-momentum and follow the reported cross section",
     "Whatever the random choices, primary energy and direction, each sampled scattering (neutrino-electron elastic, dipole upscattering from tables, DarkNews upscattering, dummy deep-inelastic) conserves four-momentum with the target at rest, puts every outgoing particle on its mass shell in its declared slot with its helicity and recorded parameters, and is distributed exactly as the differential cross section it reports; totals are the integrals of differentials, both vanish outside the kinematic limits, the declared primaries, targets and signatures agree with each other, table files are either used as written or refused, and models compare equal exactly when they give the same answers.",
     ["inputs", "histories"], "all scattering models, primaries and targets at several energies (including thresholds) and directions with all random words on a grid, all word sequences of the Markov-chain samplers for small chains, every kind of well-formed and damaged table",
     "A sampler that accepts with the wrong ratio or a wrong target mass leaves every single event plausible; only comparing the law over all choices shows it.",
     ["projects/interactions/private/ElasticScattering.cxx", "projects/interactions/private/HNLDipoleFromTable.cxx", "projects/interactions/private/DarkNewsCrossSection.cxx", "projects/interactions/private/DummyCrossSection.cxx"],
     [("SampleFinalState", "projects/interactions/private/*.cxx"), ("DifferentialCrossSection / TotalCrossSection / FinalStateProbability", "projects/interactions/private/*.cxx"), ("table loading", "projects/interactions/private/HNLDipoleFromTable.cxx")],
     "exhaustive enumeration of the random words on the compiled samplers against conservation laws and the reported density", "Exhaustive over the word grids; spline-based cross sections need libraries absent here and are outside. The dummy model redraws forbidden x, y, so near threshold only its kinematics are judged.")
prop("P19", "An interaction collection answers exactly for the interactions put into it",
     "However a collection is constructed (cross sections, decays, both, in any order, with repetitions), the targets, cross sections by target, decays, totals, decay widths and decay lengths it reports are exactly those of the interactions put in (an infinite length without decays), it matches exactly its primary, two collections are equal exactly when they hold equal interactions for the same primary, wherever these are stored, and writing and reading it back gives an equal collection with the same answers.",
     ["inputs", "histories"], "all lists of up to three cross sections (with all target sets over two targets) and up to three decays through every constructor, all pairs compared, three archive formats",
     "Lookup and comparison errors need particular overlaps of targets or identical models at different addresses.",
     ["projects/interactions/private/InteractionCollection.cxx", "projects/interactions/public/SIREN/interactions/InteractionCollection.h"],
     [("InitializeTargetTypes, lookups, totals", "projects/interactions/private/InteractionCollection.cxx"), ("comparison and serialisation", "projects/interactions/public/SIREN/interactions/InteractionCollection.h")],
     "explicit enumeration of collections against an abstract multiset model, with round trips", "Exhaustive over the stated lists.")
prop("P20", "Downloads never leave a wrong or partial data file in place",
     "Whatever goes wrong while a resource is fetched (the process dies at any file operation, the transfer ends early or fails, the disk refuses a write, a second process fetches the same resource at the same time), a file at its final place is always complete and has the declared content, nothing is written outside the destination, the next attempt succeeds, archives are fetched once per name and reused only for themselves, existing files are kept unless replacement is requested, and the command line reports success only if everything requested is in place.",
     ["crash points", "schedules", "inputs"], "all crash points, single faults at every operation (with torn writes) and all interleavings of two processes up to a preemption bound, for plain files, archives, nested and hostile member names, with and without checksums",
     "A crash or a second process at one particular operation is needed; tests run one schedule with no faults.",
     ["python/download.py"], [("download, extraction, installation", "python/download.py"), ("resource specification and command line", "python/download.py")],
     "fault injection and controlled scheduling of the real code: every operation as crash point, failing operation and context switch", "Exhaustive over crash points, single faults and schedules up to the preemption bound at the granularity of file and network operations. Crash means process death; loss of power (unsynced data) is outside.")
prop("P21", "Ray crossings and containment describe each shape exactly",
     "For every shape, size, angular cut and placement, a point is reported inside exactly when it is inside the solid the parameters define; along every line the reported crossings are in order, alternate between entering and leaving, lie on the boundary, and between two crossings the line is inside exactly where it should be; the first crossing from a point is the first of the list ahead of it; and the bounding box contains the shape.",
     ["inputs"], "all shape kinds with settings covering solid and hollow, cut and uncut, degenerate and extreme proportions, several placements, and a dense family of lines (axis-parallel, diagonal, through the centre, parallel to cut faces, from near and very far)",
     "A lost crossing needs a line in special position with respect to one cut or hole; every later density integral along it is then wrong.",
     ["projects/geometry/private"], [("ComputeIntersections, IsInside, bounding boxes", "projects/geometry/private/*.cxx"), ("mesh trees", "projects/geometry/private/TriangularMesh.cxx")],
     "exhaustive enumeration of shapes and lines against independently written membership functions", "Exhaustive over the stated grid. Lines that only touch a surface or pass exactly through a rim or vertex are not judged.")
prop("P22", "Shapes are values: copies, moves and archives behave like the original",
     "After any history of creations, copies, assignments, exchanges, placements and archive round trips, a shape answers as the one it was made from; assigning from a different kind of shape is refused or changes nothing on either side; and equality and ordering are an equivalence and a strict total order that agree with each other, the same for shapes of the same parameters.",
     ["histories", "inputs"], "all operation sequences up to the bound over two shapes of each kind, all pairs and triples of shapes compared, three archive formats",
     "A forgotten member in a copy, comparison or archive shows only for the shapes that use it.",
     ["projects/geometry/private", "projects/geometry/public/SIREN/geometry"], [("swap, operator=, create, equal, less, serialize", "projects/geometry/*/*")],
     "explicit enumeration of operation histories against an abstract value", "Exhaustive over sequences up to the bound and the listed shapes.")
prop("P23", "Matter at a point and along a line is what the sectors say",
     "For every detector (any number of nested, overlapping, touching, identical or empty sectors, any levels, any detector frame), the sector, mass density, target densities and interaction density reported at a point are those of the highest-level sector containing it; the crossings along a line are those of all sectors; column and interaction depths between two points are the integrals of these densities in either direction; the distance for a depth is where that depth is reached; all variants of each query agree whatever crossings list along the line they are given; and this stays true through any history of adding, replacing and clearing sectors, moving the frame, refused changes and archive round trips.",
     ["inputs", "histories"], "all level orders of several sector arrangements in several detector frames at a grid of points and lines, with all target and decay combinations, and all histories of changes up to the bound",
     "Errors need a particular nesting, an origin inside or beyond a sector, a direction against the stored crossings, or a sector lacking the target.",
     ["projects/detector/private/DetectorModel.cxx", "projects/detector/public/SIREN/detector/DetectorModel.h"],
     [("SectorLoop, GetIntersections, bounding volume tree", "projects/detector/private/DetectorModel.cxx"), ("GetColumnDepthInCGS, GetInteractionDepthInCGS, DistanceFor*", "projects/detector/private/DetectorModel.cxx"), ("SetSectors, AddSector, serialize, frames", "projects/detector/*")],
     "exhaustive enumeration of detectors, points, lines and change histories against an independent model of the sectors", "Exhaustive over the stated arrangements and grids; integrals are compared within 1e-4 (the library's own adaptive quadrature). Lines touching a sector boundary are not judged.")
prop("P24", "A path always describes the stretch its history gave it",
     "After any sequence of path operations (setting points or rays in either frame, flipping, clipping to the detector, extending or shrinking either end by or to a distance, column depth or interaction depth, changing the detector model), with or without queries in between, the end points in both frames, direction, length, depths within and beyond the bounds, and distances for depths are those of the stretch of line described by the operations; operations on an infinite end are refused; and a path outside the detector is clipped to nothing.",
     ["histories"], "all operation sequences up to the bound from finite, reversed, outside, infinite and empty starts on several lines through several detectors",
     "Stale cached crossings or frames appear only after particular sequences of operations and queries.",
     ["projects/detector/private/Path.cxx"], [("cached points, frames and crossings", "projects/detector/private/Path.cxx"), ("Extend*/Shrink*, ClipToOuterBounds, Flip", "projects/detector/private/Path.cxx")],
     "explicit enumeration of operation histories on the real class against an abstract interval on a line", "Exhaustive over sequences up to the bound. Depths are compared within 1e-4. The frame in which points survive a change of detector model with a different frame is not judged, and path archives are unusable in the library (they do not compile).")
prop("P25", "Vertices follow the reported position density within the reported bounds",
     "For every vertex distribution (column depth, range, decay range, point source, fixed target, bounded and physical, for primaries and secondaries, and uniform in a cylinder or sphere), every detector and detector frame, every set of cross sections and decays from almost transparent to opaque, every direction and start, and whatever the random words: the vertex lies on the particle's line within the stretch the distribution describes (clipped to the detector and the fiducial volume), its law along that stretch is that of an interaction or decay there, the reported density is exactly that law's density per unit of what was sampled and zero elsewhere, the reported bounds are that stretch, the initial position is its start or the given one, and sampling is refused where nothing can interact.",
     ["inputs", "histories"], "all distribution classes with several settings in eight detectors and three frames, nine interaction sets over fourteen orders of magnitude of depth, five directions, several starts, full grids of the random words with both extremes",
     "A wrong law needs a particular combination of interactions (a decay together with cross sections), depth regime, hollow target or start outside the detector, and appears only as a bias of weighted rates.",
     ["projects/distributions/private/primary/vertex", "projects/distributions/private/secondary/vertex"],
     [("SamplePosition, GenerationProbability, InjectionBounds", "projects/distributions/private/primary/vertex/*.cxx"), ("SampleVertex", "projects/distributions/private/secondary/vertex/*.cxx")],
     "exhaustive enumeration of settings and random words on the compiled samplers against an independent model of the line", "Exhaustive over the stated grid; laws are compared within 2e-4. Not judged: lines touching a face, stretches of pure vacuum (depth below 1e-18 per metre), angular cuts of the cylinder and sphere, vertices off the line of a point source.")
prop("P26", "Injected events follow the configured processes",
     "For every detector, every set of cross sections and decays, every stopping condition and set of secondary processes, every sequence of random decisions (including vertex placements that fail) and every history of operations on an injector: at a vertex the channel is chosen with probability proportional to target density times cross section or to inverse decay length, never one without rate, and the event fails exactly if nothing can interact; the record holds that channel's signature, target mass (none for a decay), time and the final state produced by that very interaction; a tree contains the primary and, for every secondary that has a process and is not stopped, exactly one daughter starting where, when and how its parent produced it, each distribution being sampled once for it; a failed event is returned empty; attempts, injected events and event numbers count as stated, the injector refuses beyond its number of attempts, says beforehand whether another event is possible, and starts anew after a reset; the reported generation probability is the number of events times all densities times the channel probability of every interaction; saving and loading gives an injector that behaves the same, an incomplete save or load is reported, and a failed load changes nothing.",
     ["inputs", "histories", "crash_points"], "eleven interaction sets at points of every sector of six detectors with 200 words plus extremes; every sequence of decisions (refuse, first, second, third channel) up to 11 words for three process systems, four stopping conditions and four sets of secondary processes; all histories of four operations out of ten for N=0,1,2,4; every byte offset of a failed save or a truncated load",
     "A wrong share, a lost or doubled daughter, a counter off after a failure, or state left by a failed event needs particular channels, a refusal at a particular depth, or a particular order of operations, and shows only as a bias.",
     ["projects/injection/private/Injector.cxx", "projects/injection/private/WeightingUtils.cxx", "projects/injection/public/SIREN/injection/Injector.h"],
     [("Injector::SampleCrossSection, GenerateEvent, GenerationProbability", "projects/injection/private/Injector.cxx"), ("CrossSectionProbability", "projects/injection/private/WeightingUtils.cxx"), ("Injector::save/load", "projects/injection/public/SIREN/injection/Injector.h")],
     "stateless exploration of all random decision sequences and operation histories of the compiled injector, with interactions and distributions that log what they were asked", "Exhaustive within the bounds. The interactions and distributions are the harness's; the built-in ones have their own properties. Not judged: equality of processes after reloading (the code compares interactions by identity), the events argument of the constructor that loads a file (the stored number wins).")
prop("P27", "Event weights are the physical expectation over the summed generation density",
     "For every detector and frame, every event tree (primary alone, chains, forks), every number of injectors with their own numbers of events, interactions, vertex bounds and distributions (some of which cannot produce the event), every physical model of interactions and every list of physical distributions, shared with the injectors or not, normalised or not: the weight is one over the sum over injectors of number of events times generation density divided by physical density, where the physical density of an interaction is its rate at the vertex times the survival from the start of that injector's bounds times its channel probability, distributions and normalisations; sharing a distribution object instead of repeating it makes no difference; events that cannot happen weigh zero; the reported interaction and survival probabilities are those of the bounds; interactions no process covers give weight zero without disturbing others; a saved and loaded weighter, with its own or other injectors, gives the same weights, and an incomplete save or load is reported.",
     ["inputs", "histories", "crash_points"], "seven interaction models from transparent to opaque with and without decays (pairs of injected and physical), eight injector configurations, ten lists of physical distributions, three sets of secondary processes, about eighty trees in four detectors; every byte offset of a failed save or a truncated load",
     "A weight is a product over many factors, each right in the simple configurations tests use; a wrong bound, a lost normalisation, a wrong regime of depth or an injector that cannot produce the event shows only in particular combinations.",
     ["projects/injection/private/Weighter.cxx", "projects/injection/public/SIREN/injection/Weighter.tcc", "projects/injection/private/WeightingUtils.cxx"],
     [("Weighter::EventWeight, GetInteractionProbabilities, GetSurvivalProbabilities", "projects/injection/private/Weighter.cxx"), ("ProcessWeighter", "projects/injection/public/SIREN/injection/Weighter.tcc")],
     "exhaustive enumeration of configurations and trees on the compiled weighter against an independent evaluation of the ratio", "Exhaustive over the stated grid, within 3e-6. Not judged: events that no configured injector can generate (their weight is not defined), lines touching a face.")
prop("P28", "GDML numbers, units, definitions and loops mean what GDML says",
     "For every expression in a GDML file: it is read as the number that the usual rules give it (precedence, right-associative powers, unary signs, functions, named constants, matrix elements by one or two indices that may be expressions themselves), and everything that is not an expression by these rules (operands without operator, misplaced commas or signs, unknown names, indices out of range, division by zero, numbers out of range, stray characters) is an error that names it, never a number and never a hang. For every unit name: lengths, angles, energies, times and densities are converted by their definition whether used as unit attribute, through a quantity or as a name in an expression; units of the wrong kind or unknown ones are refused, conflicts with a declared type are reported (refused in strict mode), and unit names cannot be redefined. For every sequence of definitions in any number of sections, with loops nested to any depth (positive, negative and fractional steps, bounds depending on outer variables): each definition sees exactly the values defined before it, loop bodies run once per value, and generated names carry the intended integer.",
     ["inputs", "histories"], "every string of up to 4 tokens of an alphabet of 15, up to 6 of two alphabets of 7 (joined and with blanks), every literal spelling of up to 5 characters and index spelling of up to 5 tokens (thorough: 6, 8, 6 and 7); 41 units in every use; loops with 33 headers and bodies of up to two of nine statements, two nested loops with dependent bounds, all sequences of up to 4 (thorough 5) of ten definitions",
     "Detector dimensions are computed from these expressions; a misread precedence, a silently accepted typo or a wrong unit produces a plausible but wrong detector, and tests try a handful of well-formed expressions.",
     ["projects/detector/private/gdml/GDMLExpression.cxx", "projects/detector/private/gdml/GDMLUnits.cxx", "projects/detector/private/gdml/GDMLDefineParser.cxx"],
     [("EvalExpression, SafeParseDouble", "projects/detector/private/gdml/GDMLExpression.cxx"), ("LengthScale, AngleScale, QuantityUnitScale, ResolveQuantityType", "projects/detector/private/gdml/GDMLUnits.cxx"), ("ResolveDefineInOrder", "projects/detector/private/gdml/GDMLDefineParser.cxx")],
     "exhaustive enumeration of all token strings and definition programs up to a bound, run through ParseGDML, against a recursive-descent evaluator and a reference interpreter", "Exhaustive within the bounds. Not judged: hexadecimal spellings, fractional matrix indices, matrix elements outside definitions, bracketed names in values outside loops.")
prop("P29", "A detector imported from GDML is the detector the files describe",
     "For every GDML description within the supported subset: after LoadGDML, the material and density found at each point is that of the innermost described volume containing the point, with the described placements (positions and rotations given inline or by reference, nested through volumes and assemblies), solids (every supported kind, in any length and angle unit and either vertex order), booleans (whatever the order of their definition), replicas and loops; every material has the density and the mass fractions of nuclei that its description gives (atom counts and isotope abundances converted to mass, repeated components added); names exported with addresses denote the object defined with that address; files placed with <file>, entities and includes contribute exactly their own content, whatever names they share with the file that uses them, and nothing in a comment is included. What cannot be resolved (unknown or circular references, missing files, ambiguous names) is an error, and what is not supported is reported as a warning, or an error in strict mode. Importing again gives the same detector.",
     ["inputs", "histories"], "all trees of up to 3 (thorough 4) volumes or assemblies with a menu of placements; 20+ solid kinds in 5 spellings; two nested booleans in all 24 definition orders with all operand placements; all sequences of up to 3 (4) components as fractions or atom counts in 6 density spellings; all combinations of shared and address-suffixed names of materials, solids, volumes and elements; two modules sharing every subset of their names, with and without volname and as_assembly; includes and entities nested twice, in and out of comments; all loop headers of a menu, nested twice, with generated names; a lattice of probe points away from surfaces",
     "A wrongly resolved name, unit or placement gives a detector that loads without complaint and is wrong; the tests import single hand-written examples.",
     ["projects/detector/private/GDMLParser.cxx", "projects/detector/private/gdml/GDMLStructureParser.cxx", "projects/detector/private/gdml/GDMLSolidParser.cxx", "projects/detector/private/gdml/GDMLMaterialParser.cxx", "projects/detector/private/gdml/GDMLPreprocess.cxx", "projects/detector/private/DetectorModel.cxx"],
     [("DetectorModel::LoadGDML", "projects/detector/private/DetectorModel.cxx"), ("GDMLData::MergeFrom, ParseGDML", "projects/detector/private/GDMLParser.cxx"), ("ParseStructure, ParseSetup", "projects/detector/private/gdml/GDMLStructureParser.cxx"), ("ParseAllSolids", "projects/detector/private/gdml/GDMLSolidParser.cxx"), ("ParseAllMaterials", "projects/detector/private/gdml/GDMLMaterialParser.cxx"), ("ExpandEntities, ExpandXIncludes, ExpandLoops", "projects/detector/private/gdml/GDMLPreprocess.cxx")],
     "exhaustive enumeration of descriptions up to a bound, imported with the real parser, against an independent reading of each description probed point by point", "Exhaustive within the bounds. Not judged: daughters that stick out of their mother or overlap their sisters, materials referring to something defined later, internal entities (reported as unresolved), fallback content of includes, positions and constants of a sub-file seen from the file placing it.")
prop("P30", "A detector description file and its fiducial line mean what they say",
     "For every detector description file (object, detector and comment lines in any order, with any blanks, tabs, line ends and trailing comments): the loaded model has exactly the described objects, later ones in front of earlier ones, each with its label, shape, placement (centre and Euler angles), material and density; the detector frame has the described origin and, when three angles are given, rotation; a model loaded before leaves nothing behind; the first existing file of the documented search places is read. Every line that lacks a value, or has a word where a number, shape, material or density is expected, is refused with an error; nothing is built from values that were never read. A fiducial line describes the same solid in the detector frame whether it is given in detector or geometry coordinates, with or without keywords, as text or with the model's origin and rotation. The detectors that come with SIREN load, and are at every probed point what their file says.",
     ["inputs", "histories"], "all files of one object (six shapes, three placements, three densities, five spellings, four detector lines before or after) and all ordered pairs (thorough: triples); every truncation of every line and every single word replaced; six shapes x three placements x three detector lines x three coordinate keywords x spellings of a fiducial line; all 64 subsets of existing files; all pairs of files loaded after each other; every densities.dat in resources/detectors at 125 points per object",
     "Detectors are exchanged as these files; a value that is skipped or misread gives a model that loads and is wrong, and tests read one or two of the shipped files.",
     ["projects/detector/private/DetectorModel.cxx", "resources/detectors"],
     [("DetectorModel::LoadDetectorModel, ParseGeometryObject, ParseDensityDistribution, ParseDetector, ParseFiducialVolume", "projects/detector/private/DetectorModel.cxx")],
     "exhaustive enumeration of description files up to a bound, loaded with the real parser, against an independent evaluation of each description probed point by point", "Exhaustive within the bounds. Not judged: additional words at the end of a line, lines starting with an unknown keyword (ignored), the detector position left by an earlier file when a file has none.")
prop("P31", "A named resource is the one the name and version denote",
     "For every version string: it is read exactly if it is a version by PEP 440, all spellings of one version have the same normal form, and versions are ranked as PEP 440 ranks them (development below pre-releases below the release below post-releases; trailing zeros do not matter). For every layout of resource folders and every requested flux, detector or process name: the folder is the one whose name matches without regard to case, or else the only one starting with the request, and of its versions the requested one or, without a version, the highest; a name that is malformed, ambiguous or missing and a version that is missing are errors and never give another model or version; a folder that may be new is that of the requested version. What is loaded is what that folder holds, nothing of it stays loaded, and the lists, attributes and documentation of siren.resources agree with it. The fiducial volume of a detector is read from its fiducial and detector lines, and only if both are there.",
     ["inputs"], "all strings of up to 5 (thorough 7) characters of an alphabet of 9 and up to 4 (5) tokens of an alphabet of 14; 7 releases x 10 pre- x 6 post- x 5 development x 7 local parts with and without epoch, compared with every seventh (thorough: with each) other; 9 sets of model folders x all sets of up to 2 (3) of 12 version folders x 4 placements of the loader x 27 requests x existing or new; all files of up to 3 (4) of 10 lines; every shipped resource",
     "Results are published with the version of a model; a wrong choice among versions loads without complaint, and the tests have two versions of one model.",
     ["python/_util.py", "python/resources.py"],
     [("normalize_version, tokenize_version, _get_model_path, import_resource, load_detector, get_fiducial_volume", "python/_util.py"), ("ResourceList", "python/resources.py")],
     "exhaustive enumeration of version strings and folder layouts up to a bound, run through the real Python modules, against PEP 440 and the documented search", "Exhaustive within the bounds; compiled modules are replaced by empty ones. Not judged: a version requested from a folder whose loader serves all versions, version folders not named after the model, a zero epoch written out.")
prop("P32", "The weights in the output files are the ones the policy denotes",
     "For every set of events (with or without header weights, of whatever provenance), every weight policy, weighter and choice of outputs: the native file, the HepMC3 file and the tables carry one and the same central value per event, computed by the weighter, taken from the headers or given by the caller as the policy says; placeholder weights of an unweighted export are never promoted to trusted ones; unweighted events keep their headers; further named weights are kept; the declared state of the file is the one that was applied; a refused policy changes nothing. Each row of the tables is its event (numbers of interactions and secondaries, parents, types, momenta, times), whatever events were saved, generated or loaded before. Pooling sets weights every event of every distinct events file once, with every distinct weighter file's injectors once, however the paths are spelled or linked; it refuses sets without files, unweighted sets and sets of different physics before anything is written, and sums counts only if every set gives them. The caller's options are as before, also when writing fails. Generation stops at the requested and at the injector's number of events.",
     ["inputs", "histories", "faults"], "all lists of up to 2 (thorough 3) of 8 header states x 13 policies x 4 weighters; up to 2 events of 6 interaction structures x 6 policies x 4 weighters x 16 output choices; all sequences of up to 3 of 19 set descriptions with and without options and a failing writer; all controller histories of up to 3 (4) of 9 operations followed by a save",
     "A weight that is lost, doubled or taken from a placeholder changes a physics result without any error; tests check a few policies with one file each.",
     ["python/_util.py", "python/SIREN_Controller.py"],
     [("resolve_hepmc3_weight_policy, SaveEvents, convert_siren_events_to_hepmc3, combine_and_export_hepmc3, GenerateEvents", "python/_util.py"), ("SIREN_Controller.GenerateEvents, LoadEvents, SaveEvents", "python/SIREN_Controller.py")],
     "exhaustive enumeration of configurations, set sequences and operation histories on the real Python code with recording stand-ins for the compiled modules, against the documented rule", "Exhaustive within the bounds. The compiled weighter and writers are stand-ins (they have properties of their own). Not judged: alignment of interaction parameters that only some interactions of an event have, sets whose secondary processes are listed in a different order.")
prop("P33", "The Python injector and weighter are the compiled ones they stand for",
     "For every history of assignments, events, records, resets, copies (pickling), saves and loads: the compiled injector or weighter that answers is configured with exactly the values last given (events, detector, primary type, interactions, distributions and the position distribution among them, secondary processes, seed, stopping condition), and the Python object reports those same values; values that cannot be changed once the compiled object exists are refused and change nothing; an incomplete configuration is refused before anything is generated; a copy or a loaded object generates as the original does; an injector or weighter whose load fails is unchanged.",
     ["histories", "inputs", "faults"], "injector: all histories of 3 (thorough 4) of 30 operations from 5 starting configurations, with and without a first event; all 32 sets of missing settings x 4 first uses; weighter: all histories of 3 (4) of 35 operations (valid and invalid values of every property, calls, saves, loads) from 4 starting configurations",
     "A setting that silently does not reach the compiled object makes every later event, and its weight, belong to another configuration; no existing test assigns a property after the first event.",
     ["python/Injector.py", "python/Weighter.py"],
     [("Injector", "python/Injector.py"), ("Weighter", "python/Weighter.py")],
     "exhaustive enumeration of operation histories on the real Python code, with stand-ins that have the interface of the bindings, in lockstep with a model of the configuration", "Exhaustive within the bounds. The compiled classes are stand-ins with the bound interface (they have properties of their own). Not judged: withdrawing a stopping condition, the position distributions of secondary processes, properties of a weighter after a load.")
prop("P34", "The Earth around a site is the layered Earth that was asked for",
     "For every table of layers, atmosphere, set of site sectors, direction of up, height of the surface and set of existing volumes: the matter at every radius is that of the innermost layer containing it, unless a site sector or a volume of the detector has precedence there; the detector's volumes keep their order and their precedence over the Earth, every sector has a level of its own, and the universe stays last; the canonical layers are those of PREM; constant-density views keep the mass of every shell (or the column of every band of air) on any admissible set of boundaries; sectors inserted above an anchor lie directly above it in the order given; a second Earth, an unknown anchor or an unknown boundary is refused and changes nothing; the SBN site is the Earth plus its thickened crust.",
     ["inputs", "histories"], "canonical table at every km; all subsets of 4 layers (and the canonical 9) x all subsets of their boundaries; 3 atmospheres x 11 heights x 5 sets of bands x 2 modes; 4 tables x 3 atmospheres x up to 2 site sectors at every place x 4 axes x 3 surfaces x existing levels (thorough: all 41 sets of up to 3 levels); all histories of 3 (4) of 20 builds and insertions",
     "A layer that is hidden behind another, or a site sector that is dropped, changes the column depth of every event without an error; tests look at a few radii of two sites.",
     ["python/earth/sectors.py", "python/earth/prem.py", "python/earth/atmosphere.py", "resources/detectors/SBN/SBN-v1/earth_model.py"],
     [("build_earth_sectors, insert_sectors_above, shift_levels_up", "python/earth/sectors.py"), ("CANONICAL_PREM_LAYERS, collapse_to_constant", "python/earth/prem.py"), ("AtmosphereForm, default_boundaries, constant_shell_layers", "python/earth/atmosphere.py"), ("add_earth_model", "resources/detectors/SBN/SBN-v1/earth_model.py")],
     "exhaustive enumeration of configurations and operation histories on the real Python code, with stand-ins for the compiled shapes and densities whose meaning is evaluated point by point", "Exhaustive within the bounds. Shapes and densities are stand-ins (their own properties are P13 and P21 to P23). The DUNE far detector's terrain needs packages that are not installed. Up axes are unit vectors; bands of air have distinct names.")
prop("P35", "A flux or a set of interactions loaded by tag is the one the tag denotes",
     "For every tag, table, energy range and normalisation: a flux loader returns exactly the energies and fluxes of the named beam mode and particle, in the documented units and with the given range and normalisation, whatever the order of the columns; tables written to files are complete and right for every sequence of loads, also after a write that failed; an interaction loader returns, for exactly the requested primaries, exactly the requested processes on the requested targets from the tables of that model and version; tags, ranges, primaries, processes and targets that are not supported are refused.",
     ["inputs", "histories", "faults"], "6 flux loaders: all tags over alphabets of valid and invalid parts (about 700) x all orders of the columns x 7 energy ranges x 3 normalisations; all pairs of loads of the loaders that write files; a failing write at 3 points for every tag; 6 interaction loaders: all 64 subsets of primaries (and unsupported ones) x targets x processes x masses",
     "The wrong column or a wrong unit is a wrong event rate with no other symptom, and no test loads any of these models (they need downloads).",
     ["resources/fluxes/BNB/BNB-v1.0/flux.py", "resources/fluxes/NUMI/NUMI-v1.0/flux.py", "resources/fluxes/HE_SN/HE_SN-v1.0/flux.py", "resources/fluxes/T2K_NEAR/T2K_NEAR-v1.0/flux.py", "resources/fluxes/T2K_Kaons/T2K_Kaons-v1.0/flux.py", "resources/fluxes/Atmospheric/Atmospheric-v1.0/flux.py", "resources/processes/CSMSDISSplines/CSMSDISSplines-v1.0/processes.py", "resources/processes/HNLDISSplines/HNLDISSplines-v2.0/processes.py", "resources/processes/DipoleHNLDISSplines/DipoleHNLDISSplines-v2.0/processes.py", "resources/processes/MarleyCrossSection/MarleyCrossSection-v1.0/processes.py"],
     [("load_flux", "resources/fluxes/*/*/flux.py"), ("load_processes", "resources/processes/*/*/processes.py")],
     "exhaustive enumeration of tags, tables and arguments on the real loaders, with downloads replaced by synthetic tables and recording stand-ins for the compiled classes", "Exhaustive within the bounds. The real data files are not available here: the tables are synthetic, in the format the loaders read. Not judged: masses between the tabulated ones, a particle named twice, which neutrinos a Marley reaction applies to.")

prop("P36", "A tabulated DarkNews cross section is the one DarkNews would give",
     "For every history of total and differential queries (by energy and Q2 or by a record), table fills, saves, failed saves, reloads and copies, with or without a folder and always interpolating or only when close: every answer is the cross section of the DarkNews process within the interpolation tolerance (at the edges of the table, below and above it, and between its points too), zero below the threshold, outside the Q2 range and for other primaries; the tables on disk are complete and usable whatever interrupted a save; and the targets and signatures reported are consistent with each other, protons as hydrogen nuclei.",
     ["histories", "inputs", "faults"], "both implementations (resource and controller) x interpolation modes: all histories of one of 17 and one of 46 operations (thorough: 2 of 46, and 3 of 17), each followed by a total and a differential query; 28 interrupted saves; 24 x 24 grid of energies and Q2 for the accuracy on a curved cross section; 3 targets",
     "Whether a query is answered from the table, interpolated or calculated depends on what was asked before and on what is on disk; the existing tests cannot even import these classes.",
     ["resources/processes/DarkNewsTables/DarkNewsCrossSection.py", "python/SIREN_DarkNews.py"],
     [("PyDarkNewsCrossSection", "resources/processes/DarkNewsTables/DarkNewsCrossSection.py"), ("PyDarkNewsCrossSection", "python/SIREN_DarkNews.py")],
     "exhaustive enumeration of operation histories and interrupted saves on the real classes, with DarkNews replaced by processes whose cross section is known in closed form", "Exhaustive within the bounds. DarkNews itself is not installed here and is not judged; the decays are P40's; the choice of the grid is not judged.")

prop("P37", "Events written as HepMC3 are the events, and read back as them",
     "For every event tree, list of events and set of options: the HepMC3 file holds one event per non-empty tree with its number (never reusing one), weights, vertices (position in cm, time as c t), particles (four-momentum, mass, type), a daughter interaction joined to the particle it came from, one beam and at most one target of the primary interaction, and status codes that are declared; run-level counts, process registry and flux-averaged cross section are those of the events written, and an unweighted file claims none of them; reading the file (plain or compressed, in any units) gives back the same trees, numbers, weights, identifiers and parameters; a file that lacks what every SIREN file carries is refused in strict mode.",
     ["inputs", "histories", "faults"], "all event trees of up to 4 interactions (up to 3 secondaries, any secondary interacting once, several roots) x kinds of target (all assignments up to 3 interactions) x 8 patterns of unset identifiers; all lists of up to 3 events out of null, empty and 3 signatures x 5 event numbers x 6-48 option sets x 3 weight states; every single lost attribute of 6 events; every order of 4 events",
     "The writer and reader are compiled out where HepMC3 is missing, and its tests try a few hand-made trees; users exchange these files with other tools and weight from them.",
     ["projects/io/private/HepMC3Writer.cxx", "projects/io/private/HepMC3Reader.cxx"],
     [("HepMC3Writer::Impl::TreeToGenEvent", "projects/io/private/HepMC3Writer.cxx"), ("SaveInteractionTreesAsHepMC3", "projects/io/private/HepMC3Writer.cxx"), ("LoadInteractionTreesFromHepMC3", "projects/io/private/HepMC3Reader.cxx")],
     "exhaustive enumeration of bounded event trees, lists and lost attributes on the real writer and reader, over a stand-in for HepMC3", "Exhaustive within the bounds. HepMC3 is not installed here: shim/HepMC3 models the operations used (attributes owned by the event, joined particles, text attributes in files), not its file format or its rounding. Not judged: daughters whose primary identifier is unset, a particle that interacts twice, interactions without secondaries, truncated files.")
prop("P38", "Deep inelastic cross sections are their tables, and their events follow them",
     "For every deep inelastic model built from spline tables (charged and neutral current, heavy neutral lepton by mixing or by dipole coupling), however it is constructed (memory, files, parameters given or read from the table's keys): the total cross section is the table's value at that energy times the unit and the squared coupling of the primary's flavour, zero below threshold and refused outside the table; the differential cross section is the table's value inside the region where x, y, Q2, W2 and a real lepton angle allow it and zero outside; every sampled final state conserves four-momentum, has the lepton on its mass shell, lies in that region, records its own x, y and energy, keeps (dipole: flips) the helicity and is uniform in azimuth about any direction; the sampler moves between two points with the probability the reported density denotes, and the reported final-state probability is differential over total; the signatures are exactly primaries x targets; models are equal exactly when built from the same things, come back from archives unchanged, and tables, units, couplings or primaries that make no sense are refused.",
     ["inputs", "histories"], "4 kinds x 9 settings (3 tables, Q2 cuts, masses, couplings, units) x 4 ways of construction x 6 flavours x 47 energies and 7 x 28 x 28 (thorough 64 x 64) points (E, x, y); per setting 5 energies x up to 3 flavours x 16 x 16 (40 x 40) pairs of words, 36 (144) moves x 16 acceptance words, 8 directions x 8 azimuths; all 63 sets of primaries x 3 of targets; all pairs of 36 models; 4 archives each; 8 sets of keys; 6 kinds of bad file",
     "The tables need a library that is not always present, the tests try a few points, and a wrong cut, exponent or acceptance only shows as a bias of the events' weights.",
     ["projects/interactions/private/DISFromSpline.cxx", "projects/interactions/private/HNLDISFromSpline.cxx", "projects/interactions/private/HNLDipoleDISFromSpline.cxx", "projects/interactions/public/SIREN/interactions/DISFromSpline.h"],
     [("DISFromSpline::DifferentialCrossSection", "projects/interactions/private/DISFromSpline.cxx"), ("DISFromSpline::SampleFinalState", "projects/interactions/private/DISFromSpline.cxx"), ("HNLDISFromSpline::TotalCrossSection", "projects/interactions/private/HNLDISFromSpline.cxx"), ("HNLDipoleDISFromSpline::SampleFinalState", "projects/interactions/private/HNLDipoleDISFromSpline.cxx")],
     "exhaustive enumeration of bounded grids of inputs and of the random choices of the sampler on the real classes, over a stand-in for the spline library; the enumerated acceptance of the Markov chain decides the sampled law", "Exhaustive within the bounds. photospline is not installed here: shim/photospline offers its interface over tables that are multilinear in the logarithms. Not judged: points closer than 1e-7 to an edge of the region, the normalisation of differential to total (a matter of the tables), the electron target (interaction 3), convergence of the chain within its fixed number of steps.")

prop("P39", "Charm production follows its tables, slow rescaling and fragmentation",
     "For every charm production model built from spline tables (charged and neutral current), however it is constructed (memory, files, parameters given or read from the table's keys): the inclusive total cross section is the table's value times the unit, refused outside the table or for a foreign primary; that of one D meson is its share (D0 0.6, D+ 0.23, Ds 0.15, out of 0.98) of it and the shares of a primary add up to the inclusive one; the differential cross section is the table's value where xi and y, Q2 = 2MEy xi - mc^2 (positive, above the cut), W2 = M^2 + 2MEy(1 - xi) + mc^2 (above (M + M_D0)^2) and a real lepton angle allow it, zero where they do not, and refused off the table's grid or outside 0 < xi, y < 1; every sampled final state conserves four-momentum over lepton, hadrons and D meson, has lepton and meson on their mass shells and hadrons of real mass, has the momentum transfer of the xi and y it records, sends the meson along the momentum transfer with a fraction z of its momentum, and is uniform in azimuth about any direction; z follows the Peterson function (epsilon 0.2) except where the hadrons would have no real mass; the sampler moves between two points with the probability the reported density denotes, and the reported final-state probability is differential over the total of that meson; the signatures are exactly primaries x targets x the three mesons of the right charge; models are equal exactly when built from the same things, come back from archives unchanged, sampler included; and tables, units, primaries, interaction types and signatures that make no sense are refused.",
     ["inputs", "histories"], "2 currents x 9 settings (3 tables, 3 Q2 cuts, 2 target masses, 3 units) x 4 ways of construction x 6 flavours x 47 energies x 3 mesons and 7 x 28 x 28 (thorough 58 x 58) points (E, xi, y) x 3 values of Q2; per setting 5 energies x 2 flavours x 14 x 14 (40 x 40) pairs of words, 36 (144) moves x 16 acceptance words, 100 (400) fragmentation words, 8 directions x 8 azimuths; all 63 sets of primaries x 3 of targets; all pairs of 16 models; 4 archives each; 8 sets of keys; 6 kinds of bad file; 7 malformed signatures",
     "The tables need a library that is not always present; the tests check the integral of the fragmentation function but never what is drawn from it, and a wrong cut, share or cumulative only shows as a bias.",
     ["projects/interactions/private/QuarkDISFromSpline.cxx", "projects/interactions/public/SIREN/interactions/QuarkDISFromSpline.h", "projects/interactions/public/SIREN/interactions/CharmCrossSectionHelpers.h"],
     [("QuarkDISFromSpline::DifferentialCrossSection", "projects/interactions/private/QuarkDISFromSpline.cxx"), ("QuarkDISFromSpline::SampleFinalState", "projects/interactions/private/QuarkDISFromSpline.cxx"), ("QuarkDISFromSpline::compute_cdf", "projects/interactions/private/QuarkDISFromSpline.cxx"), ("charm_xsec::FragmentationFraction", "projects/interactions/public/SIREN/interactions/CharmCrossSectionHelpers.h")],
     "exhaustive enumeration of bounded grids of inputs and of the random choices of the sampler on the real class, over a stand-in for the spline library; the enumerated acceptance of the Markov chain and the enumerated quantiles of z decide the sampled laws", "Exhaustive within the bounds. photospline is not installed here: shim/photospline offers its interface over tables that are multilinear in the logarithms. Not judged: points closer than 1e-7 to an edge of the region, momenta more precisely than 1e-7 where 1 - y < 1e-5 (the code's cancellation), the normalisation of differential to total (the header leaves it to the tables, and z and azimuth out of the density), helicity of the meson, the tail of z above the last node to better than 0.2%.")

prop("P40", "DarkNews decays and loaded DarkNews processes are those of the model",
     "For every kind of DarkNews decay (single photon, dilepton with the vector, the scalar or no mediator on shell, light or heavy daughter) and every history of width, differential width and sampling requests, saves, reloads, pickles and rebuilds: widths are those of the DarkNews process and zero for any other parent or final state; the differential width is evaluated on the momenta of the right particles whatever the order of the secondaries; a sampled decay conserves four-momentum, gives every secondary its own mass and momentum, and realises the phase space point chosen with probability proportional to its weight; an integration that was done, saved or loaded is not repeated. For every set of upscattering and decay cases of a model, load_processes returns exactly the cross sections of the requested primary and all decays grouped by parent, each aligned with its key, from the stored tables or pickles when there are any; what SaveDarkNewsProcesses stores is what a later load_processes uses.",
     ["histories", "inputs"], "7 kinds of decay: all histories of 2 (thorough: 3) of 11 operations followed by a width and a sample; 4 parent momenta x all orders of the secondaries x 17 (64) random numbers; subsets of 4 upscattering cases x subsets of 5 decays x 2 primaries x 6 ways of storing (quick: subsets of size 0, 2 and all), then reloaded with 4 orders of preference",
     "Whether a width or a sample comes from a stored integration depends on what was asked and saved before; the existing tests cannot import these classes at all.",
     ["resources/processes/DarkNewsTables/DarkNewsDecay.py", "resources/processes/DarkNewsTables/processes.py"],
     [("PyDarkNewsDecay", "resources/processes/DarkNewsTables/DarkNewsDecay.py"), ("load_processes", "resources/processes/DarkNewsTables/processes.py"), ("SaveDarkNewsProcesses", "resources/processes/DarkNewsTables/processes.py")],
     "exhaustive enumeration of operation histories, sampled decays and loaded sets on the real classes, with DarkNews replaced by processes whose width and phase space are known in closed form", "Exhaustive within the bounds. DarkNews itself is not installed here and is not judged; neither is the older PyDarkNewsDecay of python/SIREN_DarkNews.py nor the handling of malformed records (which ends the process).")

prop("P41", "The energy loss of a charm meson follows its density and kinematics",
     "For every charm meson, energy, direction and pair of random numbers: a sampled interaction conserves energy, leaves the meson on its mass shell and on its line with an inelasticity z between 0.001 and 1 - m/E, and gives the rest to massless collinear hadrons; the share of samples below any z is that of the Gaussian (mean 0.56, width 0.2) cut to this range, which is also, normalised to one and zero outside, the reported density, and the differential cross section is that density times the total cross section exp(1.891 + 0.205 L) - 2.157 + 1.264 L mb, L = log10(E/GeV); a meson that cannot lose energy is refused, no choice of random numbers makes the search endless, and other primaries are refused; signatures and an archived copy are the same.",
     ["inputs"], "6 mesons x 13 energies (1.0015 m to 1e9 m) x 6 directions x 24 x 24 (thorough: 60 x 60) pairs of words; 700 x 700 (2000 x 2000) pairs per meson and energy for the shares at 60 inelasticities; 221 inelasticities per energy for the density",
     "Weights divide by this density: a support or normalisation that differs from the sampler's biases every event silently, most near the threshold; the tests histogram a few energies within 4 sigma.",
     ["projects/interactions/private/DMesonELoss.cxx", "projects/interactions/public/SIREN/interactions/DMesonELoss.h"],
     [("DMesonELoss::SampleFinalState", "projects/interactions/private/DMesonELoss.cxx"), ("DMesonELoss::FinalStateProbability", "projects/interactions/private/DMesonELoss.cxx")],
     "exhaustive enumeration of the sampler's random words on a grid, on the real class, against the closed form of the cut Gaussian", "Exhaustive on the stated grids. Momentum is not conserved by design (massless collinear hadrons). Signatures of unsupported parents are not judged.")

prop("P42", "SBN frames agree and a composite places every part where its frame says",
     "For every pair and triple of the SBN frames the transforms are rigid, inverse to each other and independent of the way taken, the published survey anchors are met, and in any graph of frames exactly the connected ones can be reached. For every detector, with or without the LBNF beamline and the Earth model, and every history of loads, load_detector composes a geometry in which each beamline and the detector appear once at the position and orientation of their frame, with the geology layers at their levels, and reports the detector's origin and rotation in the frame of the composite. A load whose file operations fail, or that runs at the same time as other loads, leaves complete composites of the requested parts and no litter; files are fetched only with their url and checksum.",
     ["inputs", "histories", "faults", "schedules"], "9 frames: all pairs and triples; all graphs of up to 4 frames (5: one in 40, thorough: all); all histories of up to 2 (3) loads out of 8 choices, and of 2 with or without the Earth; every failing file operation of a load; two or three concurrent loads with all schedules of up to 4, 3, 2 or 1 context switches, depending on the pair (thorough: one more), at every file operation.",
     "A wrong sense of rotation or a truncated composite gives a plausible detector in the wrong place; batch jobs share one data folder and load at the same time, which no test does.",
     ["resources/detectors/SBN/SBN-v1/detector.py", "resources/detectors/SBN/SBN-v1/sbn_geometry.py", "resources/detectors/SBN/SBN-v1/sbn_loader.py"],
     [("load_detector", "resources/detectors/SBN/SBN-v1/detector.py"), ("FrameGraph", "resources/detectors/SBN/SBN-v1/sbn_geometry.py"), ("build_composite", "resources/detectors/SBN/SBN-v1/sbn_loader.py")],
     "exhaustive enumeration of frames, graphs, load histories, failing file operations and context-bounded interleavings of concurrent loads under a controlled scheduler, on the real modules", "Exhaustive within the bounds. The compiled model and the download are stand-ins; the contents of the detector descriptions are not judged (P27 to P29 cover their import), nor is the air left under the bedrock.")
