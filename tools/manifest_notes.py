E_ = "model_checking"
SMALL = "small-scope exhaustive exploration of the real code against an independent oracle"
NOTES.update({
    "C14": (SMALL, E_, "Exhaustive over a grammar of snippets that puts every expression/statement/pattern form into every hole of every form to the stated depth; parse(unparse(t)) == t."),
    "C15": (SMALL, E_, "Exhaustive over the same grammar plus markers, deleted fields, node lists, indents; eval(dump(t)) == t."),
    "C16": ("explicit-state model of walk/state semantics, every action plan up to a size replayed on the real walkers", E_, "Every assignment of up to k user actions (recurse, replace, drop, splice, set state, raise, ...) to nodes of small trees; visits, states, collected values and results compared with a reference model."),
    "C18": (SMALL, E_, "Exhaustive over the snippet grammar x context corruptions x node sharing patterns; the parser's contexts are the oracle."),
    "C19": (SMALL, E_, "Exhaustive over assignments of location states to the nodes of trees x modes x reference nodes; reference rules and the compiler are the oracle."),
})
NOTES.update({
    "C17": (SMALL, E_, "Every placement of up to k markers of several classes (nested, in lists, around suites) in small trees; find/delete/check compared with a reference on independent traversal."),
    "C20": (SMALL, E_, "Every identifier of every grammar snippet renamed to a fresh or an existing name and back; token-level substitution in the source is the oracle."),
    "C21": (SMALL, E_, "Every placement of paste indicators in the snippet grammar's positions, and every module layout of template x user code over docstring/future/__all__/imports/rest blocks; reference assembly and the compiler are the oracle."),
    "C23": (SMALL, E_, "Every combination of file location x import path list (relative, ~, symlinked, nested, prefix-sharing entries) up to a length; the longest resolved parent and the import system are the oracle."),
    "C26": ("exhaustive enumeration of directory trees and fault points, deletions recorded and contained", "fault_enumeration", "Every tree layout over a set of entry kinds (cache dirs, symlinks, lookalikes, read-only) x entry point x failing system call; the reference set of removals is the oracle. Runs as an unprivileged user in scratch."),
    "C27": ("explicit-state exploration of operation sequences against a dict model", E_, "Breadth-first over all operation sequences to a depth, states memoised; real bunch compared with a dict model after each operation."),
    "C28": (SMALL, E_, "Every sequence/shape up to a bound for gensym, scrub_uuid, flatten, extract_bindings, split_futureimports, getdocstring, NestingLevelTracker."),
})
REF = "small-scope exhaustive exploration of the real expander in lock-step with an independent reference expander"
NOTES.update({
    "C01": (REF, E_, "Every chain, sibling pair, with header and decorator list over a macro library to a depth, in every entry mode; result and trace of macro applications compared with the reference expander."),
    "C02": (REF, E_, "Every variable of every grammar snippet bound to macros of each kind, locally and globally, plus families of argument forms; keyword arguments, result and collector compared with a reference detector."),
    "C03": (REF, E_, "Macros that build context- and location-less, shared, foreign-located or marked nodes in every position; contexts compared with the parser's, locations with the reference model, compiled by the compiler."),
    "C04": ("exhaustive fault injection at every position of nested macro expansions, and exploration of histories of failing operations, against a reference stack and a failure-free process", E_, "Every failing position x failure kind x chain of explicit expansions; then probes; process-level histories of 1-2 failing operations, each probe compared with a process without failures."),
})
NOTES.update({
    "C10": ("small-scope exhaustive exploration of quasiquotes against a reference semantics of quoting and unquoting", E_, "Every unquote operator in every position of every grammar snippet (and pairs, nested quotes and levels), expression and block quotes; the tree built at run time compared with a reference evaluator of quoting."),
    "C11": ("small-scope exhaustive exploration of unquote operands and positions", E_, "Every operator x operand shape x position x misuse; splices, literal trees, sequences, names and rejections compared with the reference semantics."),
    "C12": ("explicit-state exploration of capture histories against a copy-at-capture model, and of process sequences over cached bytecode", E_, "Every sequence to a depth of bind/modify/capture/evaluate/mutate/drop/re-create; every captured kind x shadowing x sequence of fresh and cached processes; every placement for detection."),
})
NOTES.update({
    "C05": ("small-scope exhaustive exploration of macro-import statements against a reference model of binding, on real imports", E_, "Every sequence of up to 2 (3) macro-import forms (absolute, relative, renamed, overlapping, wrong) x level of the module in a package tree x placement; binding by use, run-time names, error type and place."),
    "C13": (REF, E_, "Every program over the macro library x expand tool x form x route of the tree (static, run-time, quoted before) compared with the reference expander; astify/unastify round trip over the snippet grammar; every block x set of macros expanded first."),
    "C29": (REF, E_, "Every program x debug aid x argument set x place: result, macro applications and the report compared with the reference; histories of failing debug runs before a probe."),
})
NOTES.update({
    "C06": ("explicit-state model checking of a project on disk (files, time stamps by rank, caches), transitions executed by real imports in fresh processes", E_, "Breadth-first over histories of edits, imports with and without bytecode writing, and cache deletions, states memoised; value, macro and dialect runs and time stamps compared with a model that knows only the sources."),
    "C07": ("exhaustive fault and crash-point enumeration on the file system operations of an import, and every truncation of each cache", "fault_enumeration", "Every operation x killed before/after/partial write x error codes (once, or from then on), every prefix and foreign content of each cache, each followed by every continuation; values, repaired caches and no further expansion."),
    "C30": ("explicit-state exploration of activation and post-processor histories in fresh processes against a one-bit and a list model", E_, "Every sequence to a depth of activations, deactivations, imports of every module kind, reloads; of adding, removing post-processors and expansions."),
})
NOTES.update({
    "C08": ("explicit-state exploration of multi-phase programs against a reference interpreter of phases", E_, "Every layout of up to three phases x phase contents (definitions, macro uses from higher phases, from __self__ imports, futures, docstrings) x entry (import, run, expand); definitions, macro results, what remains in sys.modules, error kinds compared with the reference."),
    "C09": ("small-scope exhaustive exploration of dialect stages against a reference model of the transform loop", E_, "Every behaviour of each stage of one dialect, every pair of two dialects, every layout of dialect-imports incl. injected ones, text and AST input; log of stages with contents, instance and line, and the result."),
    "C22": ("explicit-state exploration of sequences of run-time compiler operations, with importing as the oracle", E_, "Every content x source form x target module x file x optimize; every sequence to a depth of create/run/temporary/leave/fail operations over a few module names, compared with a model of the module tables."),
    "C24": ("explicit-state exploration of console sessions against a model of the session", E_, "Breadth-first over all input sequences to a depth over an alphabet of inputs (macro-imports, definitions, reloads of a changing macro file, errors, help queries, incomplete input) in the console and in IPython, states memoised by the model."),
})
NOTES.update({
    "C25": ("exhaustive exploration of program layouts, launch modes and outcomes, with Python's own launcher as the oracle", E_, "Every script and module target (nested, namespace, oddly named, missing) x current directory x launcher x program or outcome; output, status and errors compared with Python running the hand-expanded program; every sequence of runs, imports, edits and cleaning over the caches; options."),
})
NOTES.update({
    "C31": ("stateless model checking: systematic schedule exploration of the real code in two threads under a controlled scheduler, bounded preemptions", E_, "Every pair of workloads x every single preemption at each executed line (first occurrences) of mcpyrate and macro code, instructions and pairs of preemptions for some; results, printed output and generated names compared with running alone."),
})
NOTES.update({
    "C32": ("small-scope exhaustive exploration of the real compile pipeline with Python's own compiler as the oracle", E_, "Every grammar snippet in several contexts x form and encoding of the source x optimisation level x entry point, each text with one token deleted or doubled, and standard library modules: code objects compared completely, errors and warnings too; identity macros keep positions."),
    "C33": ("explicit-state exploration of operation histories in fresh processes, with a process that did nothing else as the oracle", E_, "Every sequence to depth 3 (4) of importing, re-expanding, running 20 modules and programs with conflicting names; code objects and computed values compared."),
})
