NOTES.update({
 'P02': 'TLC enumerates every declared type set x multivalue flag x offered value (scalars, containers up to 2 entries, enum spellings, None) and histories of two assignments; each is replayed through AviaryValues.set_val with a matching metadata entry. Random traces over the real metadata are judged by TLC. Numeric payloads are representatives of their class.',
 'P06': 'TLC enumerates every combination of given/missing totals, class counts, cargo, crew, range and tail inputs in six worlds for both mass methods (tens of thousands of cases), each replayed in preprocess_crewpayload or preprocess_options twice; random worlds judged by TLC. Counts come from representative values including all documented thresholds.',
 'P07': 'TLC enumerates fleets of 1-3 engine types with every combination of given and missing counts and scalar/vector sources; replayed twice through EngineModel and preprocess_propulsion with real variables, units and containers; random fleets over all 70 engine variables judged by TLC.',
'P05': 'TLC enumerates every file of up to 3 (thorough 4) lines over 10-13 line kinds x alias maps x metadata, rendered with random layout and read by read_data_file, and every small table x comments x labelling, written, parsed independently and read back. Random histories on shared alias maps and comment lists are judged by TLC. Numbers are multiples of 1/8.',
'P09': 'TLC enumerates every history of three add/update/merge calls on three dictionaries and a result slot, and every pair of variable hierarchies with up to two own variables extending nothing, Aircraft or Mission; replayed in the real functions with classes built at run time (arguments and core classes compared before/after and after using the result). Random longer histories and 1-4 hierarchies judged by TLC. Attribute equality is by 16 classes of attribute sets.',
'P18': 'TLC enumerates every layout over 2 cwd, 1 absolute, 2 package and 5 (thorough 7) models files and looks up 12 requests stage by stage; each layout is built in a scratch package directory (links to /repo/aviary with its own models folder) and looked up by the real get_path in a separate process. Random deeper layouts judged by TLC.',
'P22': 'TLC enumerates every list of up to two (thorough three) arguments in all accepted and malformed forms over worlds of two missions (with and without the default mission) and every mission x output x weight list of the advanced form, with order, scaling and refusal invariants; each is registered on a real multi-mission problem with stub missions, set up and evaluated. Larger random objectives over three missions are judged by TLC. Values are small integers.',
'P24': 'TLC enumerates every deck of up to 4-5 (thorough 6) lines over three menus of namelists, scalar, list, indexed, Boolean, dropped, unknown and Aviary names with units, checking that lists mean their elements and that assignments are local; every deck (sampled above the cap) is rendered with random layout, converted by fortran_to_aviary and its output file compared. Long random decks over all legacy names that are only renamed are judged by TLC. The legacy-specific reinterpretation of sentinel values after reading is outside the specification.',
 'P17': 'TLC builds every fleet of up to two (thorough three) engine types over seven engine models (own or duplicated maximum values, hybrid throttle, vector parameters, electric and shaft power, with and without pre-mission model and options) and checks that order and splitting of types do not matter; fleets are built with stub engine models and run in the real pre-mission and mission propulsion groups (declared units varied, promotion depth varied), and the derivatives of the sums compared. Allocation: every combination of shares in three modes with values and derivatives. Random larger fleets of random models judged by TLC.',
 'P11': 'TLC enumerates every sequence of up to three (thorough four) phases over seven kinds of phase (analytic or integrated, regular or reserve, fixed or free start/end of altitude, Mach and time, targets) in both mission methods and the external variables to link; each is replayed through AviaryGroup phase options, real dymos phases and link_phases with a recording trajectory, and joins, constraints and pins are compared. Random missions recorded from the code are evaluated by TLC. No optimisation is run.',
 'P12': 'TLC enumerates initial/final/bounds/reference/optimise/solve/order combinations per state and control and every combination of time options for the energy-state, two-dof and solved builders; each is replayed through AviaryGroup._get_phase and the options of the dymos phase built are compared. User boundary constraints on a throttle control start (refused by dymos) and multi-process two_dof time options are outside.',
 'P15': 'TLC enumerates option kind x given/default x engine index x engine count x mission; each is replayed through extract_options/setup_model_options on real OpenMDAO models, plus a multi-mission AviaryProblem with stub groups. Random models with 30 options and up to 3 engines are recorded and evaluated by TLC. An engine called propulsion is excluded.',
 'P19': 'TLC enumerates every option set of up to two (thorough three) options per builder kind with value, value-with-units, None, wrong type, wrong units and unknown names; replayed through every phase builder and AviaryOptionsDictionary. Documented options and defaults are a table committed beside the specification. Options that declare neither units, types nor values take anything.',
 'P03': 'TLC enumerates every deck of up to two lines (thorough: three lines of a smaller pool) over 21 kinds of line (known, refused, unknown, guesses, notes, verbosity) and callers, with last-wins, frame, order-free and decoration-free properties; each is rendered in random layout (blanks, comments, brackets, number notations, line ends, byte order mark) and loaded by create_vehicle, or given as an AviaryValues object. Random decks of up to 14 lines over all metadata variables and a user extension are judged by TLC. Units of initial guesses and names without values are outside.',
 'P13': 'TLC enumerates problem types x mission methods x objectives x reference values x subsystem design variables x payload/reserve settings and derives design variables, constraints, ties and the objective; each sampled case is set up as a real problem (small grids) and what OpenMDAO reports is compared, and for some the model is run and the fuel, residual and objective relations are evaluated on the outputs. Only a sample of the formulations is set up for real (2-4 s each); no optimisation is run.',
 'P16': 'TLC enumerates small engine decks (rows over Mach, altitude, throttle, hybrid throttle, missing columns, idle generation, limits, negative thrust, sources) and derives the processed table and the reference thrust; each is built by the real EngineDeck and its table and interpolated values compared. Random decks judged by TLC. Values are small dyadic numbers; geopotential decks, flat throttle ranges and empty decks are outside; thin grids may be refused or handled.',
 'P10': 'TLC enumerates every assignment of producers (core, second core with code preference, external) and user values to three variables, deriving what consumers see, the kept values and the number of sources; sampled worlds and random ones of up to six variables are built as a real AviaryGroup with stub builders (nested groups, aliases, units) and run. In addition every output of the real GASP and FLOPS core models is overridden in turn and its connections traced. Quick samples the enumeration. Fuel capacities (refused when inconsistent) are outside.',
 'P23': 'TLC enumerates one phase of each mission method under every combination of given, partly given and missing guesses, fixed and bounded end points and subsystem guesses, and derives every node value of every guessed variable and which guesses are refused, with invariants (end nodes hold the ends, nodes stay in range, one phase never changes another, applying twice changes nothing). The cases and larger random missions (units, profiles, unknown names, phase builders, several missions) are applied to real set-up problems with junk beforehand, and TLC judges every node read back.',
 'P04': 'TLC enumerates histories (up to four, thorough five, steps) of assignments, analyses that move the gross masses, saves to two deck or results files and loads, over numbers, lists, booleans, texts and enumeration members and units, with an explicit model of the rows of a deck, and checks that every set of inputs survives encoding and decoding, that files stay apart and saving changes no inputs. Each distinct saved state is replayed, together with random histories over all variables, every deck of the repository (saved and loaded again as an aircraft) and two set-up problems (saved, read and reloaded), and TLC judges what was loaded and what memory holds after each step.',
 'P14': 'TLC enumerates sized aircraft x requests (problem type, mission, payload totals and classes, cargo, ranges, gross mass, fill fuel, phase and driver settings) and derives the inputs, mission and formulation of the off-design problem, with frame invariants (original and arguments unchanged, later requests independent of earlier ones), and payload-range studies with their end points and refusals; each history is replayed on real problems with the optimisation replaced by prescribed results. Random histories of several requests judged by TLC. No optimisation is run; payload-range only for FLOPS masses.',
 'P20': 'TLC enumerates every way of choosing the verbosity (problem, call, deck; levels 0-3) for each family of operations, with the level in effect and independence of outcomes as invariants. Twelve families of real operations (preprocessing, engine decks, fleets, tables, legacy files, vehicles, formulations, off-design studies, odd subsystems, every component that reads the verbosity, whole models run) are performed on seeded random inputs through several of the enumerated choices, and TLC judges the fingerprints of results and the kinds of refusal. Inputs are sampled.',
 'P21': 'TLC enumerates every interleaving of two or three sessions of programs of up to three stages (and of two sessions up to six stages, by length), checking that results are those of the session alone, that registries stay as shipped and that a step of one session touches no other. The interleavings are performed, each in a process of its own, with 80 real programs (decks, tables, engines, metadata, hierarchies, conversions, fleets, legacy files, saved decks, phase options, objectives, whole problems stage by stage, studies); TLC compares every stage with what the program gave alone and watches every non-empty data table of the package. Programs are fixed; histories are sampled so that most ordered pairs meet.',
 'P08': 'TLC enumerates every combination of given and missing inputs of the option rules (nine flags and eight deciding values at, below and above their thresholds), of the initial guesses (all problem types, every sentinel range) and of the fuel capacities, checking that no rule overwrites another and that deriving twice changes nothing; each case is replayed through the real functions and through loading a deck in shuffled order and other units, derived numbers being evaluated from the terms of the specification. Random cases over wide values are judged by TLC. Analyses without any takeoff mass and the formula of the climb-time estimate are outside.',
})
NA = {}
