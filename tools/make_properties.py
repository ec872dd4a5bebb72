#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list is the source; the JSONL is generated from it."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    P.append(d)


p('P01', 'Value store: last write wins, reads convert units and change nothing',
  'After any sequence of set, update, delete, clear, copy and read operations on a collection of named values with units, reading a name in any compatible unit gives the last value set, converted, in the same kind of container (entries that are None stay None); reading a missing name raises KeyError. '
  'Reads, refused assignments and operations on a copy never change the collection, and equality, length, membership and iteration show exactly the names, values and units it holds.',
  ['histories', 'inputs'],
  'every sequence of store operations over every name, value shape (scalar, list, tuple, array, None entries) and unit, on an original and its copies',
  'The unit tests set a few names once and read them back; they do not interleave operations on originals and copies, failed operations, or conversions of containers.',
  ['aviary/utils/named_values.py', 'aviary/utils/aviary_values.py', 'aviary/utils/utils.py'],
  [('NamedValues.set_val/get_val/update/delete/copy', 'aviary/utils/named_values.py'),
   ('wrapped_convert_units', 'aviary/utils/utils.py')],
  ['NamedValues and AviaryValues public methods'],
  [('store', 'name -> (value, units)', 'NamedValues')])

p('P02', 'Variables only ever hold values of their declared type and unit dimension',
  'Assigning to a variable that the metadata knows either stores a value of one of its declared types (an enumeration member given by name in any case, by value or by member; numbers converted as documented; element by element for lists, tuples and arrays, keeping the container) or raises an error; units that cannot be converted to the declared ones are refused. '
  'A refused assignment leaves the stored value as it was.',
  ['inputs', 'histories'],
  'every declared type (bool, int, float, str, path, enum, array, combinations), multi-value or not, against every kind of value and unit assigned to it',
  'The tests assign a handful of values to real variables; the cross product of declared types, containers and offered values is never walked.',
  ['aviary/utils/utils.py', 'aviary/utils/aviary_values.py', 'aviary/utils/develop_metadata.py'],
  [('cast_type, check_type, enum_setter', 'aviary/utils/utils.py'),
   ('AviaryValues.set_val', 'aviary/utils/aviary_values.py')],
  ['AviaryValues.set_val with a metadata dictionary'])

p('P03', 'Input decks mean what their lines say, independent of layout',
  'Loading an aircraft input deck gives each named variable the value(s) and units of the last line that names it (metadata units when none are given), puts initial guesses among the guesses, and ignores comments, blank lines, surrounding blanks and unknown names without touching anything else. '
  'A deck whose lines for different variables are reordered, or that is decorated with comments, blanks and trailing commas, loads to the same result; verbosity passed by the caller wins over the deck.',
  ['inputs', 'programs'],
  'every deck built from known and unknown variables, scalar and list values, explicit and default units, comments, blanks, repeated names and initial guesses',
  'The tests load a few committed decks; the grammar of a deck (order, repetition, decoration) is not explored.',
  ['aviary/utils/process_input_decks.py', 'aviary/utils/functions.py'],
  [('create_vehicle, parse_inputs', 'aviary/utils/process_input_decks.py'),
   ('convert_strings_to_data', 'aviary/utils/functions.py')],
  ['create_vehicle(deck) -> (AviaryValues, initialization guesses)'])

p('P04', 'Saving inputs to a deck and loading them back restores them',
  'Any set of aircraft inputs written to a deck file and loaded again has the same variables, values and units (numbers, strings, booleans, enumerations, paths, lists and arrays of them), and saving a finished analysis for later reuse and reloading it restores the inputs it was saved from. '
  'Saving never changes the inputs being saved.',
  ['inputs', 'histories'],
  'every set of inputs over all types and shapes of variables, through save, load, save again',
  'The tests round-trip one or two fixed models and compare a few variables.',
  ['aviary/utils/aviary_inputs_to_csv.py', 'aviary/utils/process_input_decks.py', 'aviary/core/aviary_problem.py'],
  [('save_to_csv_file', 'aviary/utils/aviary_inputs_to_csv.py'),
   ('AviaryProblem.save_results, _read_sizing_json', 'aviary/core/aviary_problem.py')],
  ['saved file, reloaded AviaryValues, the in-memory AviaryValues after saving'])

p('P05', 'Data tables survive a write and read back, and aliases pick the right column',
  'A data table written to file and read back has the same columns in the same order with the same units, the same numbers and the same comments; when aliases or metadata are given, every column whose header is an alias is delivered under its proper name and every other column is delivered under its own header unless strict reading is asked for. '
  'Reading or writing never changes the table, alias map or comment list the caller passed in.',
  ['inputs', 'histories'],
  'every table over header spellings, units present or absent, input/output markings, comment lines, aliases and sequences of reads and writes in one process',
  'The tests use one file and one alias map; repeated use in one process and decorated headers are not covered.',
  ['aviary/utils/csv_data_file.py'],
  [('read_data_file, write_data_file', 'aviary/utils/csv_data_file.py')],
  ['read_data_file, write_data_file results and caller-owned arguments'])

p('P06', 'Passenger, cargo, crew and baggage inputs are completed consistently',
  'After preprocessing, the total number of passengers equals the sum of the first, business and economy class passengers for the design and for the mission wherever classes are given, missing design or mission counts are taken from the other, and passenger, cargo, baggage, cabin and flight crew numbers follow the documented rules for the mass method in use. '
  'Class counts win over a contradicting total, values the user supplied consistently are never replaced, cargo beyond the maximum is refused, and preprocessing a second time changes nothing.',
  ['inputs', 'configurations', 'histories'],
  'every combination of given and missing design and mission class counts, totals, cargo, ranges, crew counts, mass methods and problem types',
  'The tests check about ten hand-picked combinations out of thousands.',
  ['aviary/utils/preprocessors.py'],
  [('preprocess_crewpayload', 'aviary/utils/preprocessors.py')],
  ['AviaryValues after preprocess_crewpayload / preprocess_options'])

p('P07', 'Per-engine data are vectorised by engine type with consistent engine counts',
  'After propulsion preprocessing every per-engine variable that is given anywhere has one entry per engine type, taken for each engine from its own options first, else from the matching entry of the aircraft inputs, else from the metadata default. '
  'For each engine type the wing and fuselage mounted counts always add up to the number of engines (mounted counts beyond it raise the number; engines without a place go to the wing, a single one to the fuselage), aircraft totals are the sums over engine types, and preprocessing again changes nothing.',
  ['inputs', 'configurations', 'histories'],
  'every fleet of up to three engine types with every combination of specified, contradictory and missing counts and scalar or vector inputs',
  'The tests cover a few one and two engine fleets.',
  ['aviary/utils/preprocessors.py'],
  [('preprocess_propulsion', 'aviary/utils/preprocessors.py')],
  ['AviaryValues after preprocess_propulsion'])

p('P08', 'Dependent inputs and initial guesses are derived once and never clobber the user',
  'Loading a deck fills every value that is derived from other inputs (options implied by other options and the initial guesses for mass, payload, fuel, range, climb range and thrust) by the documented rules, for every combination of given and missing inputs. '
  'Values the user gave explicitly are kept unless they contradict another given value, in which case the documented choice is made, and the result does not depend on the order of the lines.',
  ['inputs', 'configurations'],
  'every combination of given and missing inputs of the derivation rules, for both mass methods and every problem type',
  'The tests load complete decks, in which most derivations never trigger.',
  ['aviary/utils/process_input_decks.py', 'aviary/utils/functions.py', 'aviary/utils/preprocessors.py'],
  [('update_GASP_options, update_dependent_options, initialization_guessing', 'aviary/utils/process_input_decks.py'),
   ('preprocess_fuel_capacities', 'aviary/utils/preprocessors.py')],
  ['create_vehicle result'])

p('P09', 'Merging metadata or hierarchies is a conflict-checked, side-effect-free union',
  'Merging metadata dictionaries yields exactly the union of their variables, each with the attributes it had; if two dictionaries give a variable materially different attributes the merge is refused, whatever the order of the arguments. '
  'Merging variable hierarchies likewise yields every variable of each and refuses conflicting assignments; neither merge, nor using its result, changes the dictionaries or hierarchies merged.',
  ['inputs', 'histories'],
  'every list of metadata dictionaries / hierarchies over shared and distinct variables, equal, numerically equal and different attributes, in every order',
  'The tests merge two or three fixed dictionaries in one order.',
  ['aviary/utils/merge_variable_metadata.py', 'aviary/utils/merge_hierarchies.py', 'aviary/utils/develop_metadata.py', 'aviary/utils/compare_hierarchies.py'],
  [('merge_meta_data', 'aviary/utils/merge_variable_metadata.py'),
   ('merge_hierarchies', 'aviary/utils/merge_hierarchies.py'),
   ('add_meta_data, update_meta_data', 'aviary/utils/develop_metadata.py')],
  ['return values and arguments of the merges'])

p('P10', 'User values override computed ones, with exactly one source per variable',
  'When a user gives a value for a variable that the core pre-mission models would compute, every consumer sees the user value. A variable that an external subsystem (propulsion included) computes is taken from there, whatever the user or the core models say; without either, consumers see the value of the core model (that of the preferred code where two compute it). The values set aside stay available under their override names. '
  'Variables nobody overrides keep their computed value, and exactly one source feeds each promoted name for every set of overrides.',
  ['configurations', 'inputs'],
  'every combination of user given / external / core producer per variable, over scalar and vector variables and nested groups',
  'The tests override one or two variables of one model.',
  ['aviary/variable_info/functions.py', 'aviary/subsystems/premission.py', 'aviary/core/static_group.py'],
  [('override_aviary_vars', 'aviary/variable_info/functions.py'),
   ('StaticGroup.configure, CorePreMission.configure', 'aviary/core/static_group.py')],
  ['values seen by a consumer component after run_model; promoted override names'])

p('P11', 'Mission phases are ordered, split into regular and reserve, and linked gaplessly',
  'For every mission definition, reserve phases may only follow all regular phases, target distances and durations become constraints of exactly the phases that ask for them, and every pair of consecutive phases is joined for time, distance, mass, altitude, Mach (as each phase carries them) and every variable that a subsystem asks to link. '
  'Each join is a value passed forward or a constraint exactly when the phase settings demand it, and a join is left out only when both sides are fixed or at the regular/reserve boundary where documented.',
  ['configurations', 'inputs'],
  'every sequence of up to four phases over analytic/integrated, regular/reserve, optimised or fixed altitude, Mach and time, and linked external states',
  'The tests check a few standard climb-cruise-descent missions.',
  ['aviary/core/aviary_group.py', 'aviary/mission/energy_state_problem_configurator.py', 'aviary/mission/two_dof_problem_configurator.py', 'aviary/mission/utils.py'],
  [('link_phases, _find_scaling, check_and_preprocess_inputs', 'aviary/core/aviary_group.py'),
   ('link_trajectories', 'aviary/mission'),],
  ['trajectory linkages and constraints of the built model'])

p('P12', 'Phase options turn into exactly the boundary conditions and controls they state',
  'For every phase definition, a state or control is fixed at its start only when an initial value (or a start-of-trajectory condition) is given, is constrained at its end only when a final value is given, carries the bounds, references, units and polynomial order given, and is a solved, fixed or optimised variable exactly as its options say. '
  'Phase time is fixed, bounded and scaled exactly by the time options given.',
  ['configurations', 'inputs'],
  'every combination of given and missing initial, final, bounds, references, optimise flags, polynomial orders and time options',
  'The tests look at a few complete phase definitions.',
  ['aviary/mission/phase_builder.py', 'aviary/mission/energy_state_problem_configurator.py'],
  [('PhaseBuilder.add_state, add_control', 'aviary/mission/phase_builder.py'),
   ('set_phase_options', 'aviary/mission')],
  ['options of the dymos phase that is built'])

p('P13', 'The optimisation problem matches the requested problem type and mission method',
  'For every problem type and mission method, the design variables, equality/inequality constraints and objective set up are exactly those documented for it, scaled and signed as documented, and subsystem-provided design variables are always included. '
  'The residuals, fuel bookkeeping and objectives are computed as documented from the mission flown. A deck without a problem type is a sizing problem; unknown problem types and objectives are refused, not silently replaced.',
  ['configurations'],
  'every problem type, mission method, objective choice, driver choice and set of subsystem design variables',
  'The tests run a few of the combinations end to end.',
  ['aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py'],
  [('add_design_variables, add_objective, add_driver', 'aviary/core/aviary_problem.py')],
  ['design variables, constraints, objectives and driver options of the problem'])

p('P14', 'Off-design studies inherit the sized aircraft and never change the original',
  'An off-design mission uses the sized aircraft inputs with only the overrides asked for, the caller-supplied or inherited mission, problem type, targets and payload, and refuses contradictory requests. '
  'Neither off-design missions nor payload-range studies, in any order and number, change the original problem, its mission definition or any object the caller passed in.',
  ['histories', 'configurations'],
  'every sequence of off-design and payload-range requests over problem types, payload and mass overrides',
  'The tests run one or two off-design missions after a sizing run and look only at the new results.',
  ['aviary/core/aviary_problem.py'],
  [('run_off_design_mission, run_payload_range', 'aviary/core/aviary_problem.py')],
  ['inputs and mission of the returned problem; inputs and mission of the original afterwards'])

p('P15', 'Every component receives the option values, units and engine slice it declares',
  'For every component or group that declares options from the aircraft inputs, building the model hands it the value the user gave (else the declared default), converted to the units it declares, with enumerations and vectors intact, at any depth of the model. '
  'Components that belong to one engine of several receive that engine\'s entry, and one mission\'s options never reach another mission\'s components.',
  ['configurations', 'inputs'],
  'every tree of groups and components over options given or missing, units, vectors, enumerations, engine indices and several missions',
  'The tests check single components with their options set by hand.',
  ['aviary/variable_info/functions.py', 'aviary/core/aviary_problem.py'],
  [('add_aviary_option, extract_options, setup_model_options', 'aviary/variable_info/functions.py')],
  ['option values seen inside components after setup'])

p('P16', 'Engine decks are checked, sorted and scaled without losing or altering data',
  'Every row of an engine deck that is not dropped for negative thrust appears unchanged in the processed deck, sorted by the chosen order, with throttles mapped monotonically onto the unit range per the chosen scope and flight-idle rows added only where requested. '
  'Net thrust, gross thrust, ram drag and tailpipe thrust are combined consistently or refused when they disagree, missing required columns are refused, and reference thrust, scale factor and scaled thrust always satisfy scaled = factor x reference or are refused.',
  ['inputs', 'configurations'],
  'every small deck over row orders, columns present, thrust decompositions, throttle scopes, negative thrust handling and scaling inputs',
  'The tests load a few shipped decks with complete columns.',
  ['aviary/subsystems/propulsion/engine_deck.py', 'aviary/subsystems/propulsion/utils.py'],
  [('EngineDeck._read_data/_check_data/_pack_data/_normalize_throttle/_generate_flight_idle/_set_reference_thrust', 'aviary/subsystems/propulsion/engine_deck.py')],
  ['data and options of the EngineDeck'])

p('P17', 'Fleet totals and throttle shares account for every engine exactly once',
  'For any fleet of engine types, aircraft thrust, maximum thrust, fuel flow, electric power and NOx are the sums over engine types of the per-engine value times the number of engines of that type, at every node, and each engine type gets its own throttle, parameters and options; total scaled sea level thrust is likewise the sum over all types, with or without a pre-mission model. '
  'Throttle allocation splits the aggregate throttle so that the shares of all engine types add up to it, in fixed, static and dynamic allocation.',
  ['inputs', 'configurations'],
  'every fleet of up to three engine types, count vector, allocation mode and node data',
  'The tests cover one or two fleets numerically.',
  ['aviary/subsystems/propulsion/propulsion_mission.py', 'aviary/subsystems/propulsion/propulsion_premission.py', 'aviary/subsystems/propulsion/throttle_allocation.py'],
  [('PropulsionSum, PropulsionMission.configure, ThrottleAllocator', 'aviary/subsystems/propulsion')],
  ['outputs of the propulsion groups after run_model'])

p('P18', 'Files are found in the documented order, the same one every time',
  'A path given by the user resolves to that file if it exists as given, else relative to the working directory, else inside the package, else inside its models folder: as given, then any entry of the same name, then an entry of the same stem, tables (.csv) before anything else, the first in sorted order each time. '
  'A file found in none of these places is refused, the file returned always exists, and string and Path requests at any verbosity give the same file.',
  ['inputs', 'configurations'],
  'every layout of present and absent candidate files against every form of given path',
  'The tests look up a few files that exist.',
  ['aviary/utils/functions.py'],
  [('get_path, get_model, get_aviary_resource_path', 'aviary/utils/functions.py')],
  ['returned paths'])

p('P19', 'Phase option dictionaries accept documented options only and round-trip',
  'Building a phase from a mission definition accepts exactly the documented options, gives every option the user set (with its units), fills the others with the documented defaults, and refuses unknown options, wrong types and incompatible units. '
  'Converting a phase back to a mission definition restores what was given, and neither direction changes the definition passed in.',
  ['inputs', 'configurations'],
  'every phase builder and every subset of options with value, value-with-units, None and wrong forms',
  'The tests round-trip one full definition per builder.',
  ['aviary/utils/aviary_options_dict.py', 'aviary/mission/phase_builder.py', 'aviary/mission/flight_phase_builder.py'],
  [('AviaryOptionsDictionary', 'aviary/utils/aviary_options_dict.py'),
   ('PhaseBuilder.from_phase_info, to_phase_info', 'aviary/mission/phase_builder.py')],
  ['phase builder user options, to_phase_info result and the caller\'s dictionary'])

p('P20', 'Verbosity changes messages, never results or accepted inputs',
  'For every input, running preprocessing, deck loading, engine setup and problem formulation at any verbosity gives the same values, the same model and the same refusals. '
  'Only printed text and warnings may differ.',
  ['configurations', 'inputs'],
  'every verbosity level against every branch of the preprocessing, deck, engine and formulation code that looks at verbosity',
  'The tests use one verbosity per case.',
  ['aviary/utils/preprocessors.py', 'aviary/utils/process_input_decks.py', 'aviary/subsystems/propulsion/engine_deck.py', 'aviary/core/aviary_problem.py', 'aviary/core/aviary_group.py'],
  [('verbosity guarded blocks', 'aviary/utils/preprocessors.py')],
  ['results at each verbosity'])

p('P21', 'Analyses in one process are independent of each other',
  'Whatever other decks, engines, problems or tables were created, loaded, merged or run before in the same process, an operation gives the result it gives in a fresh process. '
  'The shared variable metadata, default mission definitions, unit tables and alias tables shipped with the package never change.',
  ['histories'],
  'every sequence of public operations in one process',
  'Each test looks at one operation; nothing compares an operation after others with the operation alone.',
  ['aviary/utils/csv_data_file.py', 'aviary/subsystems/propulsion/engine_deck.py', 'aviary/core/aviary_group.py', 'aviary/variable_info/variable_meta_data.py', 'aviary/models/missions'],
  [('module-level defaults and registries', 'aviary/variable_info/variable_meta_data.py')],
  ['results of operations, fingerprints of shared registries'],
  [('registries', 'metadata, unit tables, alias tables, default mission definitions', 'module globals')])

p('P22', 'Weighted objectives combine exactly the quantities asked for, normalised',
  'For every composite objective, each named quantity enters exactly once with its weight divided by the sum of all weights and its reference, from the mission it was asked for, and missing weights or references take the documented defaults. '
  'Requests that name unknown missions or quantities, or are malformed, are refused.',
  ['inputs', 'configurations'],
  'every list of quantity/weight/mission arguments in all accepted forms over one to three missions',
  'The tests use two fixed combinations.',
  ['aviary/core/aviary_problem.py'],
  [('add_composite_objective, add_composite_objective_adv', 'aviary/core/aviary_problem.py')],
  ['the objective expression and its connections'])

p('P23', 'Initial guesses reach the phase variables they were given for',
  'Every guess in a mission definition sets exactly the time, state, control or parameter it names, in the units given, interpolated from its end points (or given profile) to the nodes of its phase, and missing guesses take the documented derived values. '
  'Guesses for unknown variables are refused, and a guess for one phase never changes another phase.',
  ['inputs', 'configurations'],
  'every set of guesses over scalars, pairs, profiles, units and phases',
  'The tests check a few guesses in full missions.',
  ['aviary/mission/utils.py', 'aviary/mission/initial_guess_builders.py', 'aviary/mission/energy_state_problem_configurator.py'],
  [('process_guess_var, set_phase_initial_guesses, InitialGuess builders', 'aviary/mission')],
  ['values in the problem after setting guesses'])

p('P24', 'Legacy input files convert to the equivalent Aviary inputs',
  'Converting a legacy namelist file gives every recognised variable its value(s), index by index (1-based inside namelists, 0-based outside), in the units given or else the legacy ones, under every Aviary name it stands for, keeps unrecognised ones aside, and ignores comments, blanks, letter case and layout. '
  'Several assignments on one line, comma lists and indexed assignments mean the same as one assignment per line.',
  ['inputs', 'programs'],
  'every namelist layout of scalar, list and indexed assignments with comments and blanks',
  'The tests compare a few converted files with stored ones.',
  ['aviary/utils/fortran_to_aviary.py'],
  [('parse_input_file, process_and_store_data, set_value', 'aviary/utils/fortran_to_aviary.py')],
  ['parsed vehicle data'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
