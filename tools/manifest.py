"""Regenerate MANIFEST.json from the list of built checks."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
REAL = "exhaustive bounded enumeration of executions of the real code"
CHECKS = {  # id: (level, technique, note)
 "C01": ("exploration", "bounded exhaustive enumeration of host-quantity x scheme-declaration cells, each generated by the real capgen, compiled, executed and compared with a reference value model",
         "all cells of the declared product; 1226 cells quick; one host layout per location kind, small extents"),
 "C02": ("exploration", "exhaustive enumeration of suite trees up to a size bound, real generation + compilation + execution, call trace compared with a reference interpreter of the tree",
         "suite trees up to 3 (quick) / 4 (thorough) schemes, nesting up to 3, every loop form"),
 "C03": ("fault_enumeration", "exhaustive fault injection: every scheme call position of every phase returns an error, over enumerated suite trees and argument wrappings of the real generated code",
         "every single-fault position of every enumerated suite"),
 "C04": ("model_checking", "explicit-state exploration: all phase-call sequences up to a depth from every reachable state, executed on the compiled generated code by forking before each call, against the documented state machine",
         "every transition of every reachable state for 67 configurations plus all sequences to depth 4 (5 thorough); worker-thread refusal in every state"),
 "C11": ("model_checking", "exhaustive enumeration of operation sequences on the compiled hash table module (process forked before every operation), every observable compared with a dictionary model after each operation",
         "all sequences to depth 6 over 7 operations, depth 4-5 over 10, table sizes 1..1024"),
    "C09": ("model_checking", "exhaustive enumeration of operation sequences on the compiled constituent registry and property objects (process forked before every operation), every observable compared with a map model after each operation",
        "registry: all sequences to depth 5 over 11 operations (metadata), depth 3 over 22 operations from 7 prepared states (data); objects: all sequences to depth 4 over 20 operations"),
    "C12": ("fault_enumeration", "explicit-state exploration of output-directory contents: the real generator run from every state over input versions, with interruption, torn writes and I/O errors at every file operation and damage to every file; contents compared with a fresh run",
        "4 input versions, every single interruption/error point (pairs in thorough), single damage, recovery to depth 2"),
    "C13": ("exploration", "exhaustive enumeration of histories of generator runs, clean runs and foreign files for both real tools and several output layouts, whole directory trees compared, escaping file operations blocked and recorded",
        "all histories to length 3 (5 thorough), every single foreign file position"),
 "C14": ("exploration", "controlled scheduler over every set iteration and directory listing of the real tools: every single deviation of every iteration order (pairs in thorough), output files and reports compared byte for byte; plus hash seeds, working directories and earlier contents in fresh interpreters",
         "4 configurations (6 thorough); sets above three elements get four orders"),
 "C05": ("exploration", "bounded exhaustive enumeration of data flows; generated caps compiled and executed against a last-value store; refusal oracle for illegal flows",
         "all access patterns of up to 3 (thorough 4) accesses at 8 places of a 3-scheme, 2-group suite; 11 kinds of quantity; default values; unit changes; local-name collisions; debug builds; two life cycles with column chunks"),
 "C19": ("exploration", "bounded exhaustive enumeration of statements x indentations x limits on the real writer; independent continuation-rule joiner as oracle",
         "all character sequences to length 6 (thorough 7) with tiny limits, all 3-item (thorough 4-item) token sequences, lengths 0-400 with the default limits; code block templates to 4 parts"),
 "C22": ("exploration", "exhaustive enumeration of unit pairs x kinds x generator; accepted conversions executed and compared with physical conversions",
         "all ordered pairs of 40 unit spellings for acceptance; all accepted pairs x 5 kind pairs (capgen) / 2 (prebuild) compiled and executed on 6 values as array and scalar; real types only"),
 "C20": ("exploration", "exhaustive enumeration of strings and token sequences per checker against character-level recognisers",
         "all strings up to length 5 (6 thorough) over reduced alphabets and all token sequences up to 3-5 per checker (3.7M/25M evaluations); aspects the documentation leaves open only checked for consistency"),
 "C17": ("model_checking", "Exhaustive enumeration of conditions and directive programs up to a bound, read by the framework's file reader and compared with a reference interpreter validated against cpp",
         "Every directive program up to 5 (thorough 6) directives and all conditions of the grammar up to size 2, under all settings of two symbols; every well formed one is also run through the real C preprocessor"),
 "C15": ("model_checking", "Exhaustive enumeration of edited metadata files (all single edits, pairs of edits, windows replaced by all short line sequences) read by the framework and compared with a reference reader",
         "Files, tables, sections, attributes and defaults compared exactly; every departure must be refused with file and line; duplicates across files decided through capgen's file readers"),
 "C16": ("model_checking", "exhaustive enumeration of source layouts and file structures, each validated against the compiler, read by the real parser",
         "every statement of two catalogue modules continued at every token boundary, name and string in 6 styles (free) and at every column (fixed), joined, commented, respaced, re-cased; every pair (thorough: triple) of 55 declaration and program-unit pieces with 4 END styles; gfortran's parse tree ties each layout to the plain one; tables compared with hand-stated ones"),
 "C07": ("model_checking", "exhaustive enumeration of pairs (metadata, Fortran declarations) derived by one and two changes, explicit reference comparison, real readers",
         "quick: all single changes in 9 declaration styles and all pairs of a class of changes (33k cases); thorough: all pairs of the rich class (59k)"),
 "C06": ("model_checking", "explicit-state enumeration of all host/scheme (and producer/consumer) declaration pairs against a reference compatibility predicate, decided by the real generator",
         "all pairs over catalogues of types, kinds, units, dimensions, intents, protection, placements and phases; combinations whose conversion is not documented (integer unit changes, non-real kinds, permuted dimensions, vertical loops) are left free"),
 "C08": ("model_checking", "explicit enumeration of suites (access roles x groups x phases x structures); generated inspection routines, datatable API and CLI compared with the set semantics of the suite",
         "1531 suites quick, 13.6k thorough; every selection of input/output/element flags, unknown names, CLI separators; intents of other suites of the same run: known finding"),
 "C24": ("exploration", "exhaustive enumeration of suite definition documents against an independent implementation of the schema",
         "all element trees up to a size bound over the schema vocabulary and foreign elements, attribute assignments, version strings, texts, encodings, every truncation and one-character edit of a document, pairs of files; each judged by a real capgen run (2.5k/20k documents)"),
 "C25": ("model_checking", "exhaustive enumeration of host data layouts x declarations of two schemes; generated static caps compiled and executed against a reference data model",
         "33 host forms (contiguous/chunked and blocked layouts, sections, elements, type members, thread-local) x active conditions x all pairs of (units, intent) of two schemes x optional; timestep_init and run quick, all stages, subcycles and --debug thorough"),
 "C26": ("model_checking", "explicit-state exploration of the compiled static caps: the process is forked before every stage call",
         "all stage-call sequences up to depth 3 (4 thorough) over two instances, groups and suites with a fault at every scheme call; model state = initialised flags per suite, group, instance"),
 "C27": ("exploration", "exhaustive enumeration of host/scheme metadata and entry-point argument-list disagreements for prebuild, each run through ccpp_prebuild.py against an independent consistency judgement",
         "Every single disagreement (units, type, kind, rank, dimension, active, standard name, missing host variable, argument lists, tables) over a small host/scheme configuration, alone and in both declaration orders; bounded to one or two schemes"),
 "C18": ("exploration", "exhaustive enumeration of argument lists, member lists and layouts; conversion tool run on each; skeleton compared with the source and completed skeleton re-read by the framework",
         "types, kinds, ranks, intents, optionality, order; nine source styles"),
 "C23": ("exploration", "exhaustive enumeration of ordered pairs of declarations; transforms executed on every element and compared with physical location and physical conversion",
         "dimension lists up to rank 4; index and statement transforms; symmetry and reflexivity of the judgement"),
 "C28": ("model_checking", "explicit enumeration of run histories, interruption points and damaged output states of prebuild on the real tool, each compared with the state of a fresh run",
         "all pairs of input versions, every interruption point of a rewrite, every missing or damaged output"),
 "C29": ("exploration", "exhaustive enumeration of suite/scheme/variable sets; tracker output compared with an independent reading of suites and metadata",
         "calling order, sections, matches"),
 "C30": ("exploration", "exhaustive enumeration of Fortran layouts; tables and entry points found by prebuild compared with the layout's construction",
         "layouts, spellings, nesting, faulty layouts"),
 "C10": ("model_checking", "exhaustive exploration of constituent configurations, each generated, compiled and run through registration histories compared with a registry model",
         "every subset up to a size of a library of ten schemes (static, run-time, tendency, array consumers) in one or two suites; all run-time list lengths, seven host lists, two-cycle and out-of-order histories; registry, properties, indices, array contents and the storage handed to schemes are compared"),
 "C21": ("model_checking", "explicit exploration of operation histories of nested variable dictionaries on the real class against a reference table",
         "all histories of up to three operations and every transition out of every content reachable within four, on two nested dictionaries built in five ways"),
 "C31": ("model_checking", "model checking: exhaustive enumeration of input file lists and (nested) list files, expanded by the real code and compared with a reference expansion; command-line runs observed as they open their inputs",
         "lists, list files, directories with unusual names, missing files"),
 "C32": ("exploration", "model checking: exhaustive enumeration of attribute values, table arrangements and requests; documents written by the real tools read back and compared with the metadata",
         "attribute texts, tables, files, requests"),
 "C33": ("exploration", "model checking: exhaustive enumeration of kind options, preprocessor definition spellings x conditions and output option combinations; each run with the real command line, compiled and executed or compared with cpp and with the described directory tree",
         "options"),
 "C34": ("exploration", "bounded exhaustive enumeration of argument forms, scheme sequences and failing calls, each generated by the real capgen, compiled, executed and compared with a reference model which calls the scheme layer by layer",
         "492 cells quick (every 7th also with debug checks), all cells with debug checks and all column windows thorough; one extent per dimension"),
 "C35": ("exploration", "bounded exhaustive enumeration of array shapes, extents, phases and activity in debug builds, each generated by the real capgen, compiled, executed and compared with the product of the stated extents",
         "quick: 113 quantities; thorough: all combinations of rank, place, intent, conversion"),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            lv, tech, note = CHECKS[i]
            f = "checks/%s.py" % i.lower()
            checks.append({"property": i,
                "quick_cmd": "/opt/venv/bin/python -W ignore %s quick" % f,
                "thorough_cmd": "/opt/venv/bin/python -W ignore %s thorough" % f,
                "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + tech,
                "level": lv, "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks drive the tools' entry points, the generated code and the Fortran modules from outside."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
NA = {}
main()
