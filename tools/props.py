#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

S = "scripts/"
prop("C01", "Generated caps give each scheme argument the host quantity it names",
 "Whenever the code generator accepts a host, its schemes and a suite, the generated code compiles, and during every scheme call each argument presents the host quantity with the same standard name: the right elements (horizontal loop subset, array section or index, derived-type member), converted to the scheme's units, kind and vertical orientation, and absent exactly when it is optional and the host marks the quantity inactive. After the call every host quantity the scheme may write holds the scheme's result converted back to the host's units, kind and orientation, and every other host quantity is unchanged.",
 ["configurations", "inputs"],
 "all combinations, up to the stated bounds, of host and scheme declarations of one quantity (units, kind, dimensions, vertical orientation, intent, optional/active, container) and of the run-time extents",
 "Four fixed end-to-end suites exercise a handful of conversions with one host each; the product of unit, kind, flip, slicing, optionality and intent is never visited.",
 [S+"suite_objects.py", S+"var_props.py", S+"metavar.py", S+"ddt_library.py", S+"host_cap.py"],
 [("argument matching and transforms", "scripts/suite_objects.py SuiteObject.match_variable, Scheme.write, add_var_transform"),
  ("compatibility and transform description", "scripts/var_props.py VarCompatObj"),
  ("host-side call strings", "scripts/host_cap.py write_host_cap, scripts/metavar.py Var.call_string")])
prop("C02", "Schemes run in exactly the order and number the suite definition states",
 "For every accepted suite definition, a call of the run phase for a suite part executes exactly the schemes listed in that part, in the listed order, with every subcycle body repeated its declared number of times. Every other phase executes, for each scheme of the suite that provides that phase, its entry point in suite order and nothing else.",
 ["programs", "configurations"],
 "all suite-definition trees of groups, (nested) subcycles and schemes up to a size bound, with every assignment of provided phases to schemes",
 "The existing suites contain one shape each and compare final numbers, so a lost, repeated or swapped call in another shape is invisible.",
 [S+"ccpp_suite.py", S+"suite_objects.py", S+"host_cap.py"],
 [("suite parsing and phase groups", "scripts/ccpp_suite.py Suite.parse, Suite.write"),
  ("group/subcycle/scheme emission", "scripts/suite_objects.py Group.write, Subcycle.write, Scheme.write")])
prop("C03", "A scheme error stops the phase at once and reaches the host unchanged",
 "In code generated from any accepted configuration, once a scheme returns a nonzero error code during a phase call no further scheme entry point executes in that call, and the host receives exactly that code and that message. When no scheme reports an error and the call is legal, the host receives a zero code.",
 ["fault_sequences", "programs"],
 "every choice of the failing scheme call (phase, position, subcycle iteration) in every suite shape up to a bound",
 "Tests run schemes that succeed; the early exits in generated code are only traversed on failure.",
 [S+"suite_objects.py", S+"ccpp_suite.py", S+"host_cap.py"],
 [("error test around each call", "scripts/suite_objects.py Scheme.write, Group.write"),
  ("error propagation to the host", "scripts/host_cap.py write_host_cap")])
prop("C04", "Suite phases are accepted only in their legal order",
 "For every sequence of phase calls that a host issues to a generated suite, a call that is legal in the suite's current state runs and moves the suite to the next state; any other call, and any call with an unknown suite or part name, reports an error to the host, executes no scheme and leaves the state unchanged. Calling any phase but run from an OpenMP worker thread is likewise refused. Suites built into the same host keep independent states.",
 ["histories"],
 "all call sequences up to a length bound over all phases, suites and parts (valid and invalid names)",
 "Tests drive each suite once through the single legal order.",
 [S+"suite_objects.py", S+"ccpp_suite.py", S+"host_cap.py", S+"ccpp_state_machine.py", S+"state_machine.py"],
 [("state variable and checks", "scripts/suite_objects.py Group.write (state checks), scripts/ccpp_suite.py Suite.write"),
  ("state machine definition", "scripts/ccpp_state_machine.py")])
prop("C05", "Suite-internal data set by one scheme is what later schemes receive",
 "A quantity that the host does not provide but an earlier scheme of the suite produces is held by the suite with the extents its dimensions state, and each later scheme that names it receives the last value produced, across schemes, parts and phases, for as long as the suite is initialised. A configuration in which some scheme needs a quantity that neither the host nor an earlier scheme provides is refused.",
 ["programs", "configurations"],
 "all assignments of intents, phases and parts of two suite-internal quantities over suites of up to three schemes",
 "Tests contain a few fixed interstitial variables, always written and read in the easy order.",
 [S+"ccpp_suite.py", S+"suite_objects.py", S+"metavar.py"],
 [("variable promotion", "scripts/ccpp_suite.py Suite.analyze; scripts/suite_objects.py Group.manage_variable, add_call_list_variable")])
prop("C06", "Inconsistent host/scheme configurations are refused",
 "If a scheme argument and the quantity the host provides under the same standard name differ in type, rank (other than by a vertical dimension over which the framework calls the scheme level by level), incompatible character length, or in units or kinds with no defined conversion, or the host does not provide a required quantity, or a scheme would write a quantity the host protects, or the host provides a quantity twice, or a constituent tendency has no constituent or does not match its dimensions and units, generation ends with an error that identifies the problem. No generated code is produced for such a configuration, and consistent configurations are accepted.",
 ["configurations", "inputs"],
 "all pairs of host and scheme declarations over a catalogue of types, kinds, units, dimensions, intents and protection attributes",
 "Unit tests cover individual parse errors; the pairwise accept/refuse decision between host and scheme is not enumerated.",
 [S+"var_props.py", S+"metavar.py", S+"suite_objects.py", S+"ccpp_suite.py", S+"ccpp_capgen.py"],
 [("compatibility decision", "scripts/var_props.py VarCompatObj.__init__; scripts/suite_objects.py SuiteObject.match_variable")])
prop("C07", "Metadata that disagrees with the Fortran source is refused",
 "For every scheme entry point, derived type or host module described by metadata, generation is refused when the described variables differ from the Fortran declarations in presence, order, type, kind, intent, rank, optionality or dimension, and the error names the entry. Metadata that agrees with the Fortran source in all of these is accepted.",
 ["inputs", "programs"],
 "all argument lists up to a bound over a catalogue of declarations, and every single-field discrepancy at every argument position",
 "Unit tests hold one sample per error message, mostly at one argument position.",
 [S+"ccpp_capgen.py", S+"fortran_tools/parse_fortran_file.py", S+"fortran_tools/parse_fortran.py"],
 [("header comparison", "scripts/ccpp_capgen.py compare_fheader_to_mheader, check_fortran_against_metadata, dims_comp"),
  ("Fortran declarations", "scripts/fortran_tools/parse_fortran.py parse_fortran_var_decl")])
prop("C08", "Suite inspection reports match what was configured",
 "For every accepted configuration, the generated inspection routines and the database report tool list exactly the suites, the parts of each suite, the schemes each suite calls, and the host quantities each suite reads and writes, each once. An unknown suite name is reported as an error.",
 ["configurations"],
 "all configurations up to a bound over numbers of suites, parts, schemes, shared schemes, intents and derived-type members",
 "Tests compare one fixed list per example suite.",
 [S+"ccpp_suite.py", S+"host_cap.py", S+"ccpp_datafile.py"],
 [("generated inspection routines", "scripts/ccpp_suite.py API.write_*_sub"),
  ("database", "scripts/ccpp_datafile.py datatable_report, generate_ccpp_datatable")])
prop("C09", "The constituent registry behaves as a lockable, indexed map",
 "For every sequence of operations on a constituent registry (initialise, add, lock, lock data, query, copy in, copy out, reset), results equal those of a map from standard name to properties: additions succeed only while unlocked and only if consistent with an existing entry, locking gives every constituent a distinct index with advected ones first, data and defaults are stored under that index, and a reset registry can be reused from the start. Operations that are not possible in the current state report an error and change nothing.",
 ["histories"],
 "all operation sequences up to a length bound over three constituents with differing properties, with and without optional error arguments",
 "One example host registers its constituents once and never resets or misuses the registry.",
 ["src/ccpp_constituent_prop_mod.F90", "src/ccpp_hash_table.F90"],
 [("registry", "src/ccpp_constituent_prop_mod.F90 ccpp_model_constituents_t procedures"),
  ("properties", "src/ccpp_constituent_prop_mod.F90 ccpp_constituent_properties_t procedures")],
 state=[("locks", "properties locked / data locked"), ("index", "constituent index in the data array")])
prop("C10", "Constituents declared by schemes reach the registry and the schemes",
 "In code generated for any accepted configuration, after registration the registry holds exactly the constituents declared in scheme metadata, those returned by schemes' registration entry points and those supplied by the host, each once with its declared properties. Every scheme argument naming a constituent, a constituent tendency, the constituent array or their counts is given the storage of that constituent, and values start at the declared default.",
 ["configurations", "histories"],
 "all small sets of constituent declarations (static, run-time, host-supplied; advected or not; with and without default; several suites) and the registration call histories",
 "One example suite with four constituents in one suite.",
 [S+"constituents.py", S+"host_cap.py", S+"ccpp_suite.py", "src/ccpp_constituent_prop_mod.F90"],
 [("declared constituents", "scripts/constituents.py ConstituentVarDict"),
  ("registration in the host cap", "scripts/host_cap.py, constituents.py write_host_routines")])
prop("C11", "The Fortran hash table is a faithful map",
 "For every sequence of operations, lookup returns the value added under that key (ignoring trailing blanks) or nothing, adding a present key is reported as an error and changes nothing, the count equals the number of distinct keys, iteration visits every entry exactly once (also when keys collide or the table is empty), and clearing or re-initialising leaves a usable empty table.",
 ["histories"],
 "all operation sequences up to a length bound over a key set with and without collisions and all table sizes up to a bound",
 "The one test program inserts a fixed list and iterates once.",
 ["src/ccpp_hash_table.F90", "src/ccpp_hashable.F90"],
 [("table", "src/ccpp_hash_table.F90 hash_table_* procedures"), ("iterator", "src/ccpp_hash_table.F90 hash_iterator_* procedures")])
prop("C12", "Regeneration leaves exactly the output of a fresh generation",
 "After any history of edits, interruptions and earlier generator runs, a successful generator run leaves every generated file in the output directory with exactly the content a run into an empty directory would give. A generated Fortran file whose content does not change is not touched unless overwriting is forced, and a failed run does not leave the caller believing it succeeded.",
 ["histories", "crash_points"],
 "all histories up to a bound of input edits, tampering with or deleting generated files, interruption of a run at each file operation, and reruns with and without forced overwriting",
 "Tests always generate once into an empty build directory.",
 [S+"ccpp_capgen.py", S+"file_utils.py"],
 [("move into place", "scripts/file_utils.py move_modified_files; scripts/ccpp_capgen.py capgen")])
prop("C13", "Cleaning removes the generated files and nothing else",
 "After a generator run, the clean operation of the same tool with the same arguments removes every file that run generated. It never removes or alters any file the tool did not generate.",
 ["histories", "configurations"],
 "all combinations of configuration, output layout and pre-existing foreign or missing files up to a bound",
 "No test runs the clean operations.",
 [S+"ccpp_capgen.py", S+"file_utils.py", S+"ccpp_prebuild.py"],
 [("clean", "scripts/ccpp_capgen.py clean_capgen; scripts/ccpp_prebuild.py clean_files")])
prop("C14", "Generated output is a function of the input only",
 "Generating twice from the same inputs gives byte-identical files whatever the interpreter's hash seed, the working directory, the order in which the file system lists directories or the earlier contents of the output directory.",
 ["configurations", "schedules"],
 "a catalogue of configurations crossed with all enumerated orders of every unordered collection the tools iterate (hash seeds, directory listing orders)",
 "Tests run each example once under one hash seed.",
 [S+"suite_objects.py", S+"ccpp_datafile.py", S+"ddt_library.py", S+"mkstatic.py", S+"ccpp_prebuild.py", S+"file_utils.py"],
 [("iteration over sets", "scripts/suite_objects.py, scripts/ddt_library.py write_ddt_use_statements, scripts/ccpp_datafile.py, scripts/mkstatic.py")])
prop("C15", "Metadata tables are read as written and malformed ones are refused",
 "For every metadata file, the tables, sections and variable attributes obtained are exactly those the file states, with documented defaults for omitted attributes. Every departure from the format (unknown or missing attribute, bad value, duplicate name, misplaced section, section for a wrong table, text outside a table) is refused with an error naming the file and line.",
 ["inputs", "programs"],
 "all metadata files built from a line grammar up to a bound, including every single-line deletion, duplication, transposition and corruption of valid tables",
 "Unit tests hold about forty fixed files.",
 [S+"metadata_table.py", S+"metavar.py", S+"var_props.py", S+"parse_tools/parse_object.py"],
 [("table parser", "scripts/metadata_table.py parse_metadata_file, MetadataTable, MetadataSection"), ("attributes", "scripts/metavar.py Var, scripts/var_props.py VariableProperty")])
prop("C16", "Fortran source is read as a compiler reads it",
 "For every layout of the same Fortran statements in free or fixed form (continuation, comments, blank lines, several statements per line, letter case, strings containing comment, continuation or separator characters), the same modules, derived types, entry points and declarations are obtained, and they are those a Fortran compiler sees.",
 ["inputs", "programs"],
 "all layouts of a catalogue of statements generated by placing continuation, comment, separator and string tokens at every legal position up to a bound",
 "Sample files use one layout each.",
 [S+"fortran_tools/parse_fortran_file.py", S+"fortran_tools/parse_fortran.py", S+"parse_tools/preprocess.py"],
 [("line reader", "scripts/fortran_tools/parse_fortran_file.py read_file, scan_free_line, scan_fixed_line"), ("declarations", "scripts/fortran_tools/parse_fortran.py")])
prop("C17", "Preprocessor conditionals select the lines a C preprocessor selects",
 "For every nesting of conditional, define and undefine directives with any supported condition and any set of predefined symbols, the source lines considered active are exactly those a standard C preprocessor keeps. A malformed directive structure (unbalanced, misplaced else) is refused.",
 ["programs", "inputs"],
 "all directive programs up to a length bound over a condition grammar up to a size bound and all symbol settings",
 "Doctests evaluate a dozen conditions.",
 [S+"parse_tools/preprocess.py"],
 [("directive stack", "scripts/parse_tools/preprocess.py PreprocStack"), ("conditions", "scripts/parse_tools/preprocess.py PreprocStack.process_if_line")])
prop("C18", "Metadata generated from Fortran describes that Fortran",
 "For every supported Fortran source, the metadata skeleton the conversion tool writes can be completed only in its free-text fields and then passes the framework's own consistency check against the same source: every argument, in order, with its type, kind, intent, rank and optionality.",
 ["programs", "inputs"],
 "all argument lists and derived types up to a bound over a catalogue of declarations",
 "No test runs the conversion tool.",
 [S+"ccpp_fortran_to_metadata.py", S+"metadata_table.py", S+"metavar.py", S+"fortran_tools/parse_fortran_file.py"],
 [("conversion", "scripts/ccpp_fortran_to_metadata.py; scripts/metadata_table.py MetadataSection.write_to_file")])
prop("C19", "Emitted Fortran lines keep the statement intact within the line limit",
 "For every statement text, indentation and line-length setting, the lines written for it join back, by Fortran's continuation rules, to exactly that statement, comments stay comments, quoted strings are not altered, and every line respects the length limit whenever the statement offers a legal place to break.",
 ["inputs", "programs"],
 "all token sequences up to a length bound (names, operators, strings, comments of enumerated lengths), all indentations and all limits in a range",
 "One unit test compares one sample file.",
 [S+"fortran_tools/fortran_write.py", S+"code_block.py"],
 [("writer", "scripts/fortran_tools/fortran_write.py FortranWriter.write, find_best_break")])
prop("C20", "Names, units, dimensions and types are validated by their stated grammar",
 "Standard names, local names and Fortran references, units, dimension lists, types and kinds, default values, molar masses and diagnostic names are accepted exactly when they conform to the grammar documented for them, and an accepted value is returned unchanged up to the documented normalisation. A refused value yields an error when errors are requested and an explicit negative otherwise.",
 ["inputs"],
 "all strings up to a length bound over a reduced alphabet covering every character class, and all grammar derivations up to a depth bound",
 "Doctests show a few examples per checker.",
 [S+"parse_tools/parse_checkers.py", S+"var_props.py"],
 [("checkers", "scripts/parse_tools/parse_checkers.py check_*")])
prop("C21", "Variable dictionaries keep standard and local names unique and findable",
 "For every sequence of additions, lookups, removals and internal-name requests on nested dictionaries, a lookup by standard name finds the innermost visible entry and a lookup by local name (ignoring case) the entry that carries it now; no two entries of one dictionary share a standard name, nor (ignoring case) a local name unless the caller explicitly allows the clash; conflicting additions are refused and leave the dictionary unchanged; and a newly generated internal name clashes with no existing name.",
 ["histories"],
 "all operation sequences up to a length bound over two nested dictionaries and a set of variables with clashing names",
 "Unit doctests add a few variables in one order.",
 [S+"metavar.py"],
 [("dictionary", "scripts/metavar.py VarDictionary")])
prop("C22", "Unit conversions are physically right and mutually inverse",
 "For every pair of units with a defined conversion, applying the conversion to a number in the first unit gives the number that denotes the same physical quantity in the second unit, and the opposite conversion exists and restores the original number. The conversion is found from the metadata spelling of the units and is emitted in the kind of the variable.",
 ["inputs", "configurations"],
 "all defined conversions, and all ordered pairs of unit spellings occurring in them, over a set of values",
 "Tests check that a few conversions are emitted, not that factors are right or inverse.",
 [S+"conversion_tools/unit_conversion.py", S+"var_props.py", S+"mkcap.py"],
 [("conversions", "scripts/conversion_tools/unit_conversion.py"), ("lookup", "scripts/var_props.py VarCompatObj._get_unit_convstrs; scripts/mkcap.py Var.convert_to/convert_from")])
prop("C23", "Computed variable transforms invert each other and select matching elements",
 "For every pair of declarations judged compatible with a transformation (dimension order, horizontal subset, vertical orientation, kind, units), the forward and reverse transformation assign each element from the element with the same physical location, converted as needed, so that one after the other restores the data. The compatibility judgement does not depend on which declaration comes first, and a declaration is always compatible with itself without transformation.",
 ["inputs", "configurations"],
 "all pairs of declarations over a catalogue of dimension lists (all permutations up to rank 3), orientations, kinds and units",
 "Unit tests compare a few transform strings with expected text.",
 [S+"var_props.py"],
 [("transforms", "scripts/var_props.py DimTransform, VarCompatObj.forward_transform/reverse_transform")])
prop("C24", "Suite definition files are accepted exactly when they satisfy the schema",
 "A suite definition is accepted exactly when it is well formed, declares a supported schema version and satisfies that schema; everything else is refused with an error naming the file. An accepted definition that names a scheme or group inconsistently (unknown scheme, duplicate group) is refused before any code is generated.",
 ["inputs", "programs"],
 "all element trees up to a size bound over the schema's vocabulary plus foreign elements and attributes",
 "Tests use five valid suites and one invalid one.",
 [S+"ccpp_suite.py", S+"parse_tools/xml_tools.py", "schema/suite_v1_0.xsd"],
 [("validation", "scripts/parse_tools/xml_tools.py validate_xml_file, find_schema_version; scripts/ccpp_suite.py Suite.__init__, Suite.parse")])
prop("C25", "Prebuild caps give each scheme argument the host quantity it names",
 "Whenever the static cap generator accepts a host, its schemes and suites, the generated code compiles, and each scheme argument presents the host quantity with the same standard name (array section, blocked, chunked or contiguous data, derived-type member) in the scheme's units, and is absent exactly when it is optional and the host marks it inactive. After the call host quantities hold what the scheme wrote, converted back, and all others are unchanged.",
 ["configurations", "inputs"],
 "all combinations up to a bound of host and scheme declarations of one quantity, data layouts and stages",
 "Four fixed test suites cover single points of the product.",
 [S+"mkstatic.py", S+"mkcap.py", S+"ccpp_prebuild.py"],
 [("group cap writer", "scripts/mkstatic.py Group.write"), ("argument metadata", "scripts/mkcap.py Var")])
prop("C26", "Prebuild suites run schemes in order and enforce initialisation per instance",
 "For every sequence of stage calls on any instances, suites and groups, a prebuild-generated cap executes exactly the schemes of the requested suite (or group) that provide the stage, in suite order with subcycles repeated as declared, stops at the first error and reports it. Calls that require an initialised group report an error and run nothing when that instance is not initialised, and initialising or finalising one instance does not affect another.",
 ["histories", "programs", "fault_sequences"],
 "all stage-call sequences up to a length bound over two instances and the groups of several suite shapes, and every choice of failing scheme",
 "Each prebuild test drives one instance once through the legal order.",
 [S+"mkstatic.py"],
 [("initialisation flags and loops", "scripts/mkstatic.py Group.write, Suite.write, API.write")])
prop("C27", "Prebuild refuses inconsistent metadata",
 "If a scheme argument has no host quantity of the same standard name, or differs from it in type, kind or rank, or in units with no defined conversion, or mandatory error-reporting arguments are missing, prebuild ends with an error and a nonzero status. Consistent configurations are accepted.",
 ["configurations", "inputs"],
 "all pairs of host and scheme declarations over a catalogue of types, kinds, units, ranks, intents and optionality",
 "Only accepted configurations are run as tests.",
 [S+"ccpp_prebuild.py", S+"metadata_parser.py", S+"mkcap.py"],
 [("comparison", "scripts/ccpp_prebuild.py compare_metadata; scripts/mkcap.py Var.compatible")])
prop("C28", "Prebuild writes complete and current build lists and caps",
 "After any history of prebuild runs and input edits, the generated caps and the make, cmake and shell lists have exactly the content a run from scratch would give, and the lists name every generated cap, every scheme and dependency file and every type-definition file the suites need. A list whose content does not change is not touched.",
 ["histories", "configurations"],
 "all histories up to a bound of edits, tampering, deletions and reruns over several configurations",
 "Tests run prebuild once in a clean directory.",
 [S+"ccpp_prebuild.py", S+"mkcap.py", S+"mkstatic.py"],
 [("list generation", "scripts/ccpp_prebuild.py generate_*_makefile; scripts/mkcap.py *Makefile classes")])
prop("C29", "Variable tracking lists exactly the entry points that use the variable",
 "For every suite and variable, the tracking tool lists, per group and in calling order, exactly the entry points of the suite's schemes whose metadata names that variable, each with the intent stated there; when none does it says so and offers exactly the partially matching names.",
 ["configurations", "inputs"],
 "all suites up to a bound with all assignments of the variable and intent to scheme entry points",
 "The tests check three variables on one suite.",
 [S+"ccpp_track_variables.py", S+"mkstatic.py"],
 [("tracking", "scripts/ccpp_track_variables.py create_var_graph, track_variables")])
prop("C30", "Prebuild finds the tables and entry points present in the source",
 "For every layout of a host or scheme source file, prebuild associates each argument table with the module, derived type or entry point it annotates and lists that entry point's arguments in table order; tables without such an owner, duplicate or unterminated constructs are refused. Container and name encodings used on the way are reversible.",
 ["inputs", "programs"],
 "all source files up to a bound over a catalogue of module, type and subroutine constructs and layouts",
 "Tests parse a few well-formed files.",
 [S+"metadata_parser.py", S+"common.py"],
 [("source scan", "scripts/metadata_parser.py parse_variable_tables, parse_scheme_tables"), ("encodings", "scripts/common.py encode_container, decode_container, split_var_name_and_array_reference")])
prop("C31", "Lists of input files name exactly the files stated",
 "The host, scheme and suite files that the code generator reads are exactly the ones its options name, each once and in the order stated: relative and absolute names, directories, wildcards and list files (read relative to their own directory, with blank and comment lines skipped, nested and even cyclic) are expanded; files of other types are ignored. A named file or list file that does not exist is reported by name and nothing is generated.",
 ["inputs", "configurations"],
 "all lists of entries up to a bound over every way to name files, and all contents of (nested) list files up to a bound",
 "Tests pass one plain list of existing files in one directory.",
 [S+"file_utils.py", S+"framework_env.py", S+"ccpp_capgen.py"],
 [("expansion", "scripts/file_utils.py create_file_list, read_pathnames_from_file, add_unique_files"), ("use", "scripts/ccpp_capgen.py capgen")])
prop("C32", "Documentation written from metadata lists exactly its variables",
 "The documentation tools (metadata2html for a file or a configuration, and the HTML and LaTeX variable tables of prebuild) show every variable of the metadata exactly once, with its attribute values as they stand in the metadata whatever characters they contain, and no others: metadata2html one page per section with variables in their order, prebuild the variables in name order with their place in the host and exactly the entry points that request them.",
 ["inputs", "configurations"],
 "all combinations of attribute values over catalogues including texts with characters special to HTML and LaTeX, all arrangements of small tables, all assignments of variables to requesting entry points",
 "No test looks at the documentation.",
 [S+"metadata2html.py", S+"mkdoc.py", S+"metadata_table.py", S+"common.py"],
 [("pages", "scripts/metadata_table.py MetadataSection.to_html; scripts/metadata2html.py convert_to_html"), ("tables", "scripts/mkdoc.py metadata_to_html, metadata_to_latex; scripts/common.py escape_tex")])
prop("C33", "The code generator's options have exactly the stated effect",
 "For every combination of options: the kinds module gives every kind exactly the value its last option states (kind_phys is 64-bit by default) and generated code compiles with them, while a malformed kind option is reported and nothing is generated; conditional source is read under exactly the given preprocessor definitions in every accepted spelling; output goes to exactly the stated output root and data table, a host cap is written exactly when a host is named, and verbosity, forced overwriting and repetition do not change what is written.",
 ["inputs", "configurations"],
 "all lists of kind options up to a bound, all spellings of definitions crossed with conditions, all combinations of the output options",
 "Tests use one or two fixed option sets.",
 [S+"framework_env.py", S+"ccpp_capgen.py", S+"ccpp_suite.py", S+"host_cap.py"],
 [("options", "scripts/framework_env.py CCPPFrameworkEnv, parse_command_line"), ("kinds module and output", "scripts/ccpp_capgen.py create_kinds_file, capgen")])
prop("C34", "A scheme for one layer is called once for every layer",
 "A scheme that leaves out the vertical dimension of a quantity it names is called once for each layer of that dimension, from the first to the last, in its place in the suite (within its subcycles, before the schemes that follow it); each call gets exactly that layer of these quantities (wherever they live, also with unit or kind conversion, when optional, or when they belong to the suite) and the whole of its other arguments, what it modifies arrives in that layer, and a failing call is the last one. A scheme that would need two different layer loops at once is refused.",
 ["inputs", "configurations", "schedules"],
 "all combinations of dimensions, intents, conversions and phases, all pairs of argument forms, all sequences of whole-column and one-layer schemes up to a bound, every failing call",
 "No test in the repository has a scheme that is called in a vertical loop.",
 [S+"suite_objects.py", S+"metavar.py"],
 [("dimension match", "scripts/suite_objects.py SuiteObject.match_dimensions, Scheme.analyze, match_variable"), ("loop", "scripts/suite_objects.py VerticalLoop"), ("arguments", "scripts/suite_objects.py CallList.call_string, Scheme.transform_indices")])

prop("C35", "Debug caps stop before a scheme whose arguments do not have the stated size",
 "Caps generated with --debug check every active array argument before each call outside the run phase (where the cap passes explicit sections): if its number of elements differs from the product of the extents its metadata states, the scheme and those after it are not called, the code is nonzero, and the message gives the expected size, the size found and the scheme. Right sizes, sizes of inactive arrays, and code generated without --debug raise no error and change no call.",
 ["inputs", "configurations"],
 "all changes of every extent by one (whole product) for a catalogue of ranks, types, places, intents and conversions, in every phase, active or not",
 "The debug test in the repository only runs with right sizes.",
 [S+"suite_objects.py"],
 [("check", "scripts/suite_objects.py Scheme.add_var_debug_check, write_var_debug_check, replace_horiz_dim_debug_check")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(P, key=lambda q: q["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
