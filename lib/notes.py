# Text for DESIGN.md only.
NOTES = {
"P01": dict(oracle="set of all identifiers seen in the process family (children report through pipes); uniqueness and progress.", cost="20 s"),
"P02": dict(oracle="a reference particle with all 11 quantities known in closed form; a query must return its value, or throw exactly when it is not derivable.", cost="40 s"),
"P03": dict(oracle="the expected record, built field by field by a table of hand-over rules.", cost="40 s"),
"P04": dict(oracle="an abstract tree (parent array) stepped alongside; depth, path to root, daughters and copies compared.", cost="40 s"),
"P05": dict(oracle="structural equality with the saved trees; a damaged file must raise, never yield a tree.", cost="60 s"),
"P06": dict(oracle="the laws of equality and strict weak order, and parameter identity.", cost="100 s"),
"P07": dict(oracle="abstract lists of distributions and interactions.", cost="60 s"),
"P08": dict(oracle="the reported density: the cumulative weight of the words must match its integral; the chain's transition is compared with the Metropolis rule.", cost="60 s"),
"P09": dict(oracle="as P08 on directions, helicities, masses and table-driven samplers; bijection checks between words and outcomes.", cost="60 s"),
"P11": dict(oracle="independently written (bi)linear formulas on the declared axis transforms.", cost="20 s"),
"P12": dict(oracle="closed forms.", cost="30 s"),
"P13": dict(oracle="closed-form densities and Gauss-Legendre quadrature.", cost="30 s"),
"P14": dict(oracle="an abstract table of compositions; mass and particle fractions recomputed from nuclide data.", cost="40 s"),
"P15": dict(oracle="products of elementary rotation matrices.", cost="40 s"),
"P16": dict(oracle="conservation, mass shells, slots; words-to-density agreement on each channel.", cost="60 s"),
"P17": dict(oracle="independently written width formulae (two-body closed form, three-body quadrature), sum rules and thresholds.", cost="110 s"),
"P18": dict(oracle="conservation, mass shells; density agreement; integrals of differentials; table semantics.", cost="90 s"),
"P19": dict(oracle="an abstract multiset of interactions.", cost="80 s"),
"P20": dict(oracle="after every crash, fault or schedule: each final file is absent or complete; a retry succeeds; nothing outside the destination (the code runs in a scratch directory).", cost="80 s"),
"P21": dict(oracle="signed membership functions written from each shape's definition; crossings found by bisection of these along each line.", cost="50 s"),
"P22": dict(oracle="an abstract value (kind and parameters) and the answers of a fresh shape with these parameters.", cost="40 s"),
"P23": dict(oracle="highest level among the membership functions at the point; densities from closed forms; depths by Gauss-Legendre between bisected boundaries.", cost="60 s"),
"P24": dict(oracle="an interval on a line with a direction; depth-driven moves are accepted for any end whose depth is the requested one.", cost="50 s"),
"P25": dict(oracle="the interaction rate along the line from the sectors' densities, material fractions, cross sections and decay length; stretch from bisected boundaries; law, density and bounds derived from it.", cost="80 s"),
"P26": dict(oracle="rates of all channels from sector densities and material fractions; the log of what the fake interactions and distributions were asked; an abstract injector (counters, process map, stopping condition).", cost="40 s"),
"P27": dict(oracle="rates, line integrals and densities evaluated independently and combined into the ratio without any cancellation.", cost="45 s"),
"P28": dict(oracle="a recursive-descent evaluator written from the grammar, a table of units in SI, and an interpreter that executes the definition programs.", cost="25 s"),
"P29": dict(oracle="closed-form membership of each solid, an explicit frame transformation per placement, and a table of mass fractions computed from the description; the parser under test is only asked for the material and density at points.", cost="40 s"),
"P30": dict(oracle="closed-form membership, placements and densities of the described objects; for the shipped files an independent reader of the format.", cost="30 s"),
"P31": dict(oracle="a parser, normal form and order written from PEP 440; the search evaluated on the list of created folders.", cost="25 s"),
"P32": dict(oracle="a table from policy, headers and weighter to state and values; a list of the distinct files of the pooled sets; a list model of the controller.", cost="5 s"),
"P33": dict(oracle="a dictionary of the values last given, plus whether the compiled object exists and how many events it made; compared after every step with what the Python object reports and what the compiled object was told.", cost="10 s"),
"P34": dict(oracle="a walk over the requested layers from the inside out, PREM's published coefficients, exact rational integration of the mass of each shell, and a list model of the order of sectors.", cost="15 s"),
"P35": dict(oracle="the synthetic tables themselves, looked up by column name, and the list of requested primaries and processes.", cost="10 s"),
"P36": dict(oracle="a stand-in for the DarkNews process, linear in energy and z (which every interpolator reproduces exactly) or curved (within 5%).", cost="40 s"),
"P37": dict(oracle="the tree itself, field by field, on the HepMC3 objects and after reading back; sums and counts of the list.", cost="40 s"),
"P38": dict(oracle="the closed form of the tables, two-body kinematics, the lepton angle, detailed balance.", cost="30 s"),
"P39": dict(oracle="the closed form of the tables, slow-rescaling kinematics, the Peterson function integrated with 200000 cells, detailed balance.", cost="20 s"),
"P40": dict(oracle="a stand-in for the DarkNews decay with a constant width, a recorded count of integrations, and phase space maps that are inverted from the sampled momenta.", cost="5 s"),
"P41": dict(oracle="the error function, two-body arithmetic and the published parametrisation of the total cross section.", cost="21 s after the build"),
"P42": dict(oracle="rigid motion arithmetic, the published survey numbers, and an independent reading of the written GDML (passive rotations).", cost="6 s"),
}
CAUGHT = {}
