#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

M = "mcpyrate/"

prop("C01", "Macros expand in the documented order, to the documented result",
 "Expanding a module applies each macro invocation exactly once and in the documented order - outer before inner, the leftmost macro of a `with` header first, the innermost decorator first, macro output expanded again until no invocation is left unless the macro or the caller asked for a single layer or marked the tree as done - and the result is the program obtained by substituting each macro's output at its use site. A macro may return nothing, one node or any iterable of nodes, may expand its own input explicitly (continuing the current mode, recursively, or one layer only), and the expansion mode of the surrounding code is the same before and after such an explicit expansion. Code that contains no macro invocation comes out unchanged.",
 ["programs"], "all module bodies built from nested expr/block/decorator/name invocations of a library of macros that drop, wrap, duplicate, reorder, chain, and explicitly expand (in each mode) their input, up to a node budget",
 "the tests expand a handful of fixed demo programs; nesting order, deletion, list results and mode switching interact combinatorially",
 [M+"core.py", M+"expander.py"],
 [("apply one macro, post-process, re-visit output", M+"core.py: expand, _visit_expansion"),
  ("one-layer / recursive expansion modes", M+"core.py: visit_once, visit_recursively"),
  ("popping block and decorator macros", M+"expander.py: visit_With, visit_ClassDef, visit_FunctionDef")],
 [("recursive mode flag", "whether macro output is expanded again", M+"core.py")],
 ["expansion result", "sequence of macro calls with their inputs"])

prop("C02", "Exactly the declared invocation forms are macro calls, with the right arguments",
 "A piece of syntax is treated as a macro invocation if and only if it has one of the documented forms (subscript, `with` item, decorator of a class, function or async function, bare name) for a name bound to a macro in the expander or globally: bare names only for macros declared as name macros, macro arguments only for macros declared parametric, in brackets or in the parenthesised positional form. Each invoked macro gets the documented keyword arguments (invocation type, expander, an invocation that looks like the original source, the macro argument list, the as-part of a `with` item, and the tree without the invocation), and everything else is left untouched. The scanner that lists the macro invocations in a tree reports exactly the invocations of the bound macros that occur in that tree, once per name and kind.",
 ["programs", "configurations"], "all single and doubly nested candidate forms x all declaration combinations (plain/name/parametric/both) x bound locally, globally, under an as-name, or unbound x argument shapes",
 "existing tests use each macro only in its intended form; the matrix of form x declaration x binding is not sampled",
 [M+"expander.py", M+"core.py"],
 [("destructuring candidates", M+"expander.py: destructure_candidate"),
  ("call test", M+"expander.py: ismacrocall"),
  ("scanner mirrors expander", M+"expander.py: MacroCollector")],
 None, ["kwargs received by macro functions", "collected list", "expanded tree"])

prop("C03", "Expanded code is ready to compile: no markers, right contexts, locations",
 "After a module has been macro-expanded, the tree contains no expander-internal marker, every name-like node has the Load/Store/Del context its position requires (also when a macro puts the same node object in several places or builds nodes without contexts), and every statement and expression has a source location. Nodes that came from the user's source keep their own location; nodes a macro created without one get the location of that macro's invocation. A marker left by a macro is reported as an error and never reaches the compiler.",
 ["programs"], "all expansions of the bounded program space with macros that build location-less/ctx-less nodes, share nodes, assign through name macros and leave markers",
 "tests only look at final values of a few programs, not at contexts, locations and markers of every node",
 [M+"core.py", M+"astfixers.py", M+"markers.py", M+"compiler.py"],
 [("local fix-up after each macro", M+"core.py: _visit_expansion"),
  ("global fix-up", M+"core.py: global_postprocess"),
  ("marker check", M+"compiler.py: singlephase_expand")],
 None, ["the final AST"])

prop("C04", "A failing macro gives one complete error report and leaves no state behind",
 "When a macro raises, or returns something that is not AST, the expansion raises a single macro application error whose cause is the original exception and whose text lists the use site (file, line, macro) of every enclosing invocation being explicitly expanded, outermost first. The failure leaves nothing behind: expanding further code in the same process, or with the same expander object, gives exactly what it would have given without the failed expansion. The same holds for errors in dialects, macro-imports and higher phases, which leave the table of loaded modules as it was apart from modules legitimately imported.",
 ["fault_sequences", "programs"], "every position at which a macro application can fail in the bounded nested programs x kind of failure (exception, wrong return type) x subsequent expansion on the same and on fresh expanders",
 "the tests contain no failing expansion at all",
 [M+"core.py", M+"quotes.py", M+"debug.py", M+"utils.py", M+"multiphase.py", M+"metatools.py"],
 [("error telescoping", M+"core.py: expand"), ("restoring context managers", M+"core.py: _recursive_mode, debughook; "+M+"utils.py: NestingLevelTracker.set_to"),
  ("restoring sys.modules", M+"multiphase.py: multiphase_expand")],
 [("recursive mode", "of the expander", M+"core.py"), ("quote level", "process wide", M+"quotes.py"), ("sys.modules", "entry of the module being compiled", M+"multiphase.py")],
 ["raised exception chain", "later expansions"])

prop("C05", "Macro-imports bind exactly the named macros and vanish at run time",
 "A macro-import at the top level of a module binds each listed name (under its as-name if given, later imports overriding earlier ones) to the callable of that name in the absolute or relative module it names, for that module only. At run time the statement is an absolute import of the macro definition module, so its names do not exist in the importing module. A missing module, missing name, non-callable, missing module part or relative self-import is reported as an error that names the file and line of the statement; macro-imports elsewhere than at the top level bind nothing.",
 ["programs", "configurations"], "all sequences of up to three import statements over a small package tree (absolute/relative levels, as-names, overlaps, errors, placement) ",
 "tests use only plain absolute macro-imports that succeed",
 [M+"expander.py", M+"coreutils.py"],
 [("collect and transform macro-imports", M+"expander.py: find_macros"), ("resolve module and names", M+"coreutils.py: get_macros, ismacroimport")],
 None, ["bindings", "module namespace after import", "raised errors"])

prop("C06", "Importing a module always reflects the current macro definitions",
 "Whatever sequence of edits to source files, imports from fresh processes, deletions of cache files and switching bytecode writing on and off has happened before, importing a module gives the result of expanding its current source with the current source of every macro and dialect definition module it uses, directly or through other macro definitions (provided each edit gives the file a modification time that is in a later second than all earlier ones). When nothing changed since the last import that wrote bytecode, the cached bytecode is used and no macro or dialect runs again. The time stamp reported for a source file is the newest of its own and those of its macro and dialect dependencies, recursively.",
 ["histories"], "all histories of edit(file)/import/import-without-bytecode/clear-cache up to a depth over dependency graphs (chain, diamond, package-relative, dialect, with-phase nested imports)",
 "the suite only runs each test program once fresh and once from cache, with no edits in between",
 [M+"importer.py", M+"activate.py"],
 [("recursive mtime", M+"importer.py: path_stats"), ("macro-import statement cache", M+"importer.py: path_stats"), ("loader patching", M+"activate.py")],
 [("bytecode file", "compiled expansion", "__pycache__/*.pyc"), ("import cache", "macro-import statements by mtime", "__pycache__/*.mcpyrate.pickle")],
 ["values computed by the imported module", "macro run counters"])

prop("C07", "Crashes while writing caches, or damaged caches, never change an import",
 "If the process is killed at any point while it compiles a module and writes its caches, or if any cache file is missing or empty, or a macro-import cache file is truncated or holds data of another structure (bytecode files are written atomically, and read, by Python itself), the next import of the module succeeds with the same result as an import with no caches at all, and repairs the caches. An import that cannot write its caches (read-only or missing directory, failing writes) still succeeds with the same result.",
 ["crash_points", "fault_sequences"], "every file-system operation boundary and every byte-prefix of each cache file written during an import of a module with direct, indirect and relative macro dependencies; every failing open/write",
 "no test interrupts an import or damages a cache file",
 [M+"importer.py"],
 [("cache validation and fallback", M+"importer.py: path_stats")],
 [("import cache", "pickle with statements and mtime", "__pycache__/*.mcpyrate.pickle")],
 ["result of the following import"])

prop("C08", "Multi-phase compilation runs each phase in order and lifts its code",
 "A module with `with phase[n]` blocks is compiled from its highest phase down to 0: the code of phase k is the code of its own blocks with the code of all higher phases lifted in at the place where it appeared, and it can use macros defined in any higher phase through a self-macro-import. Each phase sees its own number as `__phase__`, `__future__` imports apply to every phase and stay first together with the module docstring, and the finished module contains the definitions of all phases, executed in source order. While compiling, the temporary module is visible under the module's own name; afterwards the table of loaded modules is as it was before, whether or not compilation succeeded, and a misplaced or malformed `with phase` is an error rather than silently ignored.",
 ["programs"], "all module layouts of up to four top-level items over phases 0..3 with definitions, macros, uses, future imports and docstrings in all orders",
 "the suite has one multi-phase demo and one test layout",
 [M+"multiphase.py", M+"compiler.py", M+"coreutils.py"],
 [("phase extraction and lifting", M+"multiphase.py: extract_phase"), ("phase loop", M+"multiphase.py: multiphase_expand"), ("injection after future imports", M+"coreutils.py: inject_after_futureimports")],
 [("temporary module", "higher-phase definitions", "sys.modules[self_module]")],
 ["trace of executed phase code", "final module namespace", "sys.modules"])

prop("C09", "Dialects transform a module in the documented order, each exactly once",
 "For a module with dialect-imports, all source transformers run first on the full text, in order of appearance (rescanning after each import so a transformer's output can pull in further dialects), each unique dialect-import once; then, after parsing, the AST transformers in order of appearance before any macro expansion, and after macro expansion the AST postprocessors in the order in which the dialects' AST stage ran. A dialect may decline any stage; its other stages still run, in the same instance for the AST transformer and postprocessor, with the location of its dialect-import. Dialect-imports are replaced by absolute imports, and a failing transformer, one without a usable result, or a dialect-import of something that is not a dialect is an error naming the dialect and the file and line.",
 ["programs", "configurations"], "all combinations of up to three dialects x implemented/declined/failing stages x layouts of dialect-imports including ones injected by source or AST transformers, for text and AST input",
 "tests exercise a fixed set of seven dialect files",
 [M+"dialects.py", M+"compiler.py"],
 [("transform loop", M+"dialects.py: _transform"), ("finding dialect-imports", M+"dialects.py: find_dialectimport_source, find_dialectimport_ast"), ("postprocessing", M+"dialects.py: postprocess_ast")],
 None, ["stage log", "transformed module"])

prop("C10", "Quoting code yields exactly the AST of that code",
 "Evaluating a quasiquote without unquotes, in expression or block form and for any Python syntax, yields an AST equal to the one the parser produces for the quoted code (contexts and locations aside), a fresh one on each evaluation, which when compiled behaves as that code. Nested quotes quote the inner quote operators themselves, and only unquotes that bring the quote level to zero are evaluated. Macro invocations inside a quote are kept unexpanded, and a misused quasiquote operator is reported as an error.",
 ["programs", "inputs"], "all expressions and statements of a grammar covering every AST node type of the running Python at least once in each field, nested to a depth bound",
 "tests quote about a dozen snippets; there are over 90 AST node types, and None/str/list-valued fields are the error-prone ones",
 [M+"quotes.py"],
 [("quasiquote compiler", M+"quotes.py: astify"), ("quote level tracking", M+"quotes.py: q, u, n, a, s, t, h"), ("run-time splicing pass", M+"quotes.py: splice_ast_literals")],
 [("quote level", "nesting depth of quotes", M+"quotes.py")],
 ["run-time AST value"])

prop("C11", "Unquotes interpolate exactly the given value at exactly that place",
 "In a quoted tree each unquote is replaced by what its operand evaluates to when the quote is evaluated: a lifted value (numbers, strings, bytes, booleans, None, Ellipsis and nested lists, tuples, dicts and sets of them evaluate back to an equal value of the same type), the AST of a source string, an AST node, or a list/tuple display of given nodes. A list of nodes given to the ast-unquote is spliced, flattened and in order, into the surrounding list position (call arguments, displays, statement suites and so on) at any depth, including the empty list, and the rest of the quoted tree is as without the unquote. Operands of the wrong type are rejected with a type error (which names the operator, for operands that must be nodes or strings).",
 ["programs", "inputs"], "all placements of each unquote operator in every list-valued and single-valued expression/statement slot x value shapes up to size 3 x quote levels up to 3",
 "tests interpolate single values at top level or directly in call arguments",
 [M+"quotes.py"],
 [("compile unquote markers", M+"quotes.py: astify"), ("run-time parts", M+"quotes.py: ast_literal, ast_list, ast_tuple, lift_sourcecode, splice_ast_literals")],
 None, ["run-time AST value", "errors raised"])

prop("C12", "Hygienic unquotes always denote the captured value or macro",
 "A value captured hygienically evaluates, wherever and whenever the resulting code is run - in another module, after the captured variable was rebound or its defining module changed or unloaded, after any other captures of the same name, or from cached bytecode in another process - to a value equal to the one captured at that particular capture, the same object each time that capture is evaluated, independent of other captures. A hygienically captured macro expands as the captured macro function in any module regardless of what the name means there, also from another process. Detecting captures in a tree reports the name and frozen value of exactly the captured nodes.",
 ["histories", "programs"], "all sequences of capture / evaluate / drop / re-create operations over a few names and values, in one process and across a process restart, and all capture placements for macros",
 "tests capture one value once in one process; a lookup keyed wrongly shows only over a longer history",
 [M+"quotes.py"],
 [("freezing values", M+"quotes.py: capture_value, lookup_value"), ("global macro bindings", M+"quotes.py: capture_macro, capture_as_macro, lookup_macro; "+M+"core.py: global_bindings"), ("detection", M+"quotes.py: is_captured_value, is_captured_macro")],
 [("lookup cache", "thawed values", M+"quotes.py"), ("global bindings", "captured macros under unique names", M+"core.py")],
 ["values of evaluated captures"])

prop("C13", "The expand-a-quoted-tree tools agree with each other and with the expander",
 "For any quoted tree, expanding it statically, at run time, or quote-then-expand in either way gives the tree the expander itself gives for the unquoted code: completely expanded for the recursive variants, exactly one layer of macros for the one-layer variants, with the macro bindings of the place where the tool was used. Un-quoting the output of the quasiquote compiler gives back the original tree and re-quoting it is the identity, unquote operators included. Forcing given macros to expand first expands exactly the invocations of those macros inside the block and leaves all other macros to the surrounding expansion.",
 ["programs"], "all trees of the bounded macro program space x all eight expand tools and the stepping variant, in expression and block form, with and without unquotes",
 "tests use a few of the variants on a single expression",
 [M+"metatools.py", M+"quotes.py"],
 [("static and run-time expansion macros", M+"metatools.py"), ("uncompiler", M+"quotes.py: unastify")],
 None, ["resulting ASTs"])

prop("C14", "Unparsed code parses back to the same AST",
 "For every AST that the parser can produce, rendering it to source text succeeds and parsing that text gives an equal AST (locations aside); this also holds for a list of statements and for a bare expression or statement. Rendering never changes the tree it is given. Colored or debug renderings contain the same program text with only escape sequences or bracketed annotations added, and rendering for error messages never raises, whatever the (possibly invalid) tree.",
 ["programs", "inputs"], "all expressions and statements generated from a grammar covering every node type, operator and field combination, nested pairwise (every construct inside every slot of every other)",
 "no test exercises rendering beyond printing; precedence and rarely used syntax are quadratic in the number of constructs",
 [M+"unparser.py"],
 [("source renderer", M+"unparser.py: Unparser, unparse"), ("fallbacks", M+"unparser.py: unparse_with_fallbacks")],
 None, ["rendered text re-parsed"])

prop("C15", "An AST dump evaluates back to the same AST",
 "For every AST, with or without AST markers, lists of nodes or nodes with missing fields, the multi-line dump lists every field of every node in order, so that evaluating the dump text with the AST classes in scope gives an equal tree; with attributes requested, it also shows each location attribute present. The dump does not modify the tree, indentation affects white space only, and the colored dump is the same text plus color escapes.",
 ["inputs"], "all trees of the all-node-types grammar x include-attributes x color x indentation",
 "no test evaluates a dump",
 [M+"astdumper.py"],
 [("recursive dumper", M+"astdumper.py: dump")], None, ["dump text"])

prop("C16", "AST walkers visit in order with correctly scoped state",
 "A walker visits the nodes its user recurses into, each once, in field order, and collected values appear in visiting order. State set for a subtree, for a statement suite or for all children of a node is in force exactly while those nodes are being visited and is the updated copy of the state at the time it was set; outside, also after exceptions and in later walks after a reset, the previous state is in force, and in-place state changes are seen by later nodes of the same extent only. Transformers replace a node by what the user returns, removing it for nothing and splicing lists into suites.",
 ["programs", "histories"], "all trees up to a size x all assignments of actions (set state for subtree/children/suite, mutate, rebind, delete, replace, splice, raise) to nodes",
 "the walkers are only exercised indirectly through the astfixers",
 [M+"walkers.py", M+"bunch.py"],
 [("state stack and overrides", M+"walkers.py: withstate, generic_withstate, visit")],
 [("state stack", "current dynamic state", M+"walkers.py"), ("subtree overrides", "pending states by node", M+"walkers.py")],
 ["visit log", "collected values", "resulting tree"])

prop("C17", "Marker utilities find and remove exactly the requested markers",
 "For any tree with AST markers of several classes nested anywhere (in single-node slots, lists, inside each other, around lists of statements), finding markers returns every marker of the requested class including subclasses, once per occurrence in walk order; deleting replaces each such marker by its contents, leaves all other markers and nodes in place and leaves no marker of the class; checking raises an error that names the file if and only if one is present. None of them alters anything else.",
 ["inputs"], "all placements of up to three markers from a three-class hierarchy in a set of template trees",
 "tests only meet the expander's own markers in the positions it creates",
 [M+"markers.py"],
 [("marker utilities", M+"markers.py: get_markers, delete_markers, check_no_markers_remaining")], None, ["returned lists and trees"])

prop("C18", "Context fixing gives every node the context the parser would give it",
 "For every valid tree, whatever (wrong or missing) contexts its nodes carry, fixing contexts results in exactly the Load/Store/Del the Python parser assigns for that source, and changes nothing else. If the same node object occurs several times, the copying mode gives each occurrence its own correct context.",
 ["inputs"], "all statements/expressions of the all-node-types grammar and all assignment-target shapes nested to a depth x all shared-node placements",
 "tests never compare contexts; target shapes nest arbitrarily",
 [M+"astfixers.py"],
 [("context fixer", M+"astfixers.py: fix_ctx")], None, ["ctx of every node"])

prop("C19", "Location fixing fills, inherits or overwrites locations exactly as specified",
 "Filling locations from a reference node gives missing positions the reference's and never changes existing ones (reference mode), inherits missing positions from the nearest located ancestor as the standard library does (update mode), or sets every position to the reference's (overwrite mode), for single nodes and lists; without location info on the reference, or without a tree, nothing changes. Afterwards code built from located and unlocated nodes compiles.",
 ["inputs"], "all trees up to a size x all subsets of nodes with missing line/column (and end) info x the three modes x reference with/without info and end info",
 "no test looks at locations",
 [M+"astfixers.py"],
 [("location fixer", M+"astfixers.py: fix_locations")], None, ["location attributes of every node"])

prop("C20", "Renaming changes every occurrence of a name and nothing else",
 "Renaming a name in a tree changes each name-like occurrence (variables, attributes, function, class, parameter and keyword names, import modules, names and as-names, exception and pattern-match captures, global/nonlocal declarations) of exactly that name to the new one, in place, and leaves every other node, string and name untouched; renaming to a fresh name and back restores the tree.",
 ["inputs"], "all single-construct trees with a name in every identifier position of the grammar, and all pairs of them, x renamed name present in each subset of positions",
 "one test renames one tree",
 [M+"utils.py"],
 [("renamer", M+"utils.py: rename")], None, ["resulting tree"])

prop("C21", "Splicing puts the body at every paste marker and nowhere else",
 "Splicing an expression, a statement list or a module body into a template replaces every paste indicator (in a statement position for statements) by the given code - the first by the given nodes, later ones by independent copies - and leaves the rest of the template as it was. For dialect templates the result is a valid module ordered as documented: one combined docstring, future-imports, the body's `__all__`, dialect-imports, macro-imports, and the rest, with template parts before body parts, nothing lost or duplicated, and the template's code located at the dialect-import.",
 ["inputs"], "all templates up to a size with up to three paste positions at any depth x bodies composed of docstring, future-, dialect-, macro-import, `__all__` and plain statements in all arrangements",
 "tests splice one body into one template",
 [M+"splicing.py", M+"coreutils.py"],
 [("splicers", M+"splicing.py"), ("future import splitting", M+"coreutils.py: split_futureimports")], None, ["resulting statement list"])

prop("C22", "Run-time compiling behaves as importing the same code would",
 "Expanding, compiling or running macro-enabled code given as text, bytes, a module node, a statement list or a code object gives the same result as importing a file with that content: definitions appear in the given or newly created module, its docstring is the code's (or none), and dialects, macros and phases are supported. Modules created at run time have the requested name, file and parent package, are registered under that name before the code runs (and in the parent if requested), and temporary modules - named or anonymous - exist exactly for the extent of their context, also when it ends by an exception. Wrong inputs are rejected with type, value or module-not-found errors before any of the code is run.",
 ["histories", "inputs"], "all sequences of create/run/temporary-module operations up to a depth over a few module names x source forms x success/failure of the code",
 "tests call the run-time compiler a few times with fixed code",
 [M+"compiler.py"],
 [("run-time compiler", M+"compiler.py: expand, compile, run"), ("module creation", M+"compiler.py: create_module, temporary_module")],
 [("sys.modules", "module table", "process")], ["module namespaces", "sys.modules"])

prop("C23", "File names resolve to the package and sys.path entry they really lie under",
 "For every source file and import path configuration, the file is matched to the deepest import path entry that is a parent directory of it (by whole path components, after resolving relative entries, `~` and symlinks), its relative path and dotted package name are derived from that entry, and so a relative macro-import in it resolves to the module a relative import would. A file at the top level of an entry is reported as not being in a package, and a file under no entry as not importable.",
 ["configurations", "inputs"], "all sys.path lists of up to three entries from a family of nested, prefix-sharing, relative, empty and symlinked directories x all files of a small tree",
 "tests run with one fixed sys.path",
 [M+"coreutils.py"],
 [("path matching", M+"coreutils.py: match_syspath, relativize, resolve_package")], None, ["returned paths and names"])

prop("C24", "An interactive macro session behaves like a module entered piece by piece",
 "In the interactive console (and its IPython counterpart) every complete input runs exactly once with the macros bound so far - by macro-imports, including ones from the session itself, and by binding a function as a macro - and has the effect and printed value the same code has in a module; incomplete input asks for more. An input that fails to parse, expand or run reports its error, keeps the session alive and leaves variables and macro bindings as they were apart from what ran before the error. Rebinding or reloading a macro takes effect for later inputs, and the help queries change nothing.",
 ["histories"], "all sequences up to a depth over an alphabet of inputs: definitions, macro definitions and bindings, macro-imports (good, missing, edited on disk), uses, errors at each stage, incomplete input, help queries",
 "there is no test for the consoles",
 [M+"repl/console.py", M+"repl/iconsole.py", M+"repl/utils.py"],
 [("console input loop", M+"repl/console.py: MacroConsole.runsource"), ("IPython transformer and magics", M+"repl/iconsole.py")],
 [("session namespace and macro bindings", "carried across inputs", M+"repl/console.py")], ["printed output", "namespace", "bindings"])

prop("C25", "The launcher runs programs as Python itself would, with macros enabled",
 "Running a script or a module or package with the launcher has the same observable effects as running it with Python's own script or -m mode after enabling macros: it runs once, as `__main__`, with the same package and import-path context so absolute and relative imports and macro-imports work, packages run their initialisation and then their main program, and a missing file, module or main program or an exception in the program ends in an error exit. Options that are not about running (version, cache listing, cache cleaning) do not run anything.",
 ["configurations", "programs"], "all project layouts from a small family (script, package, nested package, with/without __init__/__main__) x launch mode x working directory x outcome (ok, exception, sys.exit, macro error)",
 "tests are launched one way only",
 [M+"repl/macropython.py"],
 [("import as main", M+"repl/macropython.py: import_module_as_main"), ("argument handling", M+"repl/macropython.py: main")], None, ["process output and exit status"])

prop("C26", "The cache cleaner deletes exactly the bytecode cache directories",
 "Listing returns every bytecode cache directory below the given directory, at any depth, and nothing else; cleaning deletes exactly those with all their contents, never follows a symbolic link out of them, leaves every other file and directory untouched, is idempotent and tolerates files that vanish meanwhile. A path that is not a directory is an error and nothing is deleted.",
 ["inputs", "fault_sequences"], "all directory trees up to a size with plain, cache and similarly named entries, nested caches and symlinks, x a file vanishing before each deletion step",
 "no test covers the cleaner",
 [M+"pycachecleaner.py"],
 [("cleaner", M+"pycachecleaner.py: getpycachedirs, deletepycachedirs")], None, ["directory tree before/after"])

prop("C27", "A bunch is a mapping whose items are also attributes",
 "After any sequence of attribute, item and mapping-method operations a bunch holds exactly what a dict would hold after the corresponding operations and returns or raises alike; attribute access and item access always agree. Names of its own methods cannot be overwritten by attribute assignment, copies are independent, replacing takes over a copy of the other's contents, and a bunch made from a mapping shares that mapping's storage.",
 ["histories"], "all operation sequences up to a depth over two bunches, two keys and two values, from empty and non-empty states, compared with a dict model",
 "only indirectly used by the walkers",
 [M+"bunch.py"],
 [("bunch", M+"bunch.py: Bunch, bunchify")], [("storage", "the underlying mapping", M+"bunch.py")], ["return values", "contents"])

prop("C28", "Macro-writing helpers are exact: fresh names, flattening, levels, docstrings",
 "Generated names are pairwise different in any history of calls, valid identifiers when the base name is one, and scrubbing a generated name returns its base (and leaves any other string alone). Flattening keeps order and drops only the empty items; extracting bindings returns exactly the bindings of the given functions; docstring and future-import splitting recognise exactly what Python recognises and lose no statement; a nesting level is in force exactly within its context, also after exceptions.",
 ["histories", "inputs"], "all call histories / nested lists / statement lists / context nestings up to a size, compared with reference definitions",
 "the helpers are exercised by single calls inside other tests, if at all",
 [M+"utils.py", M+"coreutils.py"],
 [("helpers", M+"utils.py"), ("future imports", M+"coreutils.py: split_futureimports, inject_after_futureimports")], None, ["return values"])

prop("C29", "Debugging aids never change what the program means",
 "Wrapping code in the step-expansion macro (any output mode or detail level, nested, at macro-expansion or run time), enabling dialect stepping or phase stepping, showing or snapshotting the bindings or any other debug aid leaves the expanded program, the set of macro applications and the run-time behaviour as without it; it only prints. The report shows the tree before, after every step and at completion, with as many steps as there are layers of expansion.",
 ["programs", "configurations"], "all programs of the bounded macro program space x all debug aids and argument combinations",
 "tests do not enable the debugging aids",
 [M+"debug.py", M+"dialects.py", M+"multiphase.py", M+"metatools.py"],
 [("stepper", M+"debug.py: step_expansion"), ("dialect stepping", M+"dialects.py: StepExpansion"), ("phase stepping", M+"multiphase.py: step_phases"), ("run-time stepping", M+"metatools.py: stepr")], None, ["expanded programs", "stderr report"])

prop("C30", "Activation and post-processors take effect exactly while registered",
 "Modules are macro-expanded on import exactly while the importer is activated: in any sequence of activations, deactivations and imports, deactivation restores the plain import machinery exactly and activation is idempotent, and non-source and standard-library modules are not affected. Custom post-processors run once per top-level expansion, in registration order, on the fully expanded tree, exactly while registered; registering twice or removing an unknown one has no effect.",
 ["histories"], "all sequences of activate/deactivate/import/add/remove operations up to a depth, compared with a model",
 "tests only activate once per process",
 [M+"activate.py", M+"core.py", M+"importer.py"],
 [("loader patching", M+"activate.py"), ("post-processor list", M+"core.py: add_postprocessor, remove_postprocessor, global_postprocess")],
 [("loader hooks", "patched importlib methods", M+"activate.py"), ("post-processor list", "process wide", M+"core.py")], ["imported modules", "calls of post-processors"])

prop("C31", "Concurrent expansions in different threads do not affect each other",
 "When several threads expand or import macro-using modules at the same time, under any interleaving each gets exactly what it would get alone: quotes and unquotes keep their nesting, hygienic captures and generated names stay distinct, and no expansion fails because of another one.",
 ["schedules"], "all interleavings, up to a bound on preemptions, of two threads each expanding a program that uses nested quotes, unquotes, hygienic captures, explicit expansion and debugging aids, preempted at every macro boundary and at every line of the quasiquote/expander code",
 "the tests are single-threaded",
 [M+"quotes.py", M+"core.py", M+"utils.py", M+"debug.py"],
 [("nesting level", M+"utils.py: NestingLevelTracker"), ("global tables", M+"quotes.py, core.py")],
 [("quote level", "shared by quote/unquote operators", M+"quotes.py"), ("global bindings / lookup cache", "process-wide tables", M+"core.py, "+M+"quotes.py")], ["expanded trees of both threads"])

prop("C32", "Code that uses no macros compiles exactly as without mcpyrate",
 "Source code or a tree that uses no macros, dialects or phases, compiled through mcpyrate - by its run-time compiler or the import hook, from text, bytes or a tree, at any optimization level - gives exactly the code object that Python's own compiler gives: the same instructions, constants, names, flags, exception tables and source positions, and the same compiler warnings. A macro-import contributes an ordinary import and nothing else; the code around a macro invocation, and an input that an expression macro returns unchanged, keep their source positions. What Python rejects is rejected, with Python's own error, or that error as the cause.",
 ["programs", "configurations"], "all programs of a grammar covering every syntax of Python, alone and in context, with every single token deleted or doubled, x form and encoding of the source x optimization level x entry point; and the modules of the standard library",
 "each construct passes through the scanner, the expander and the fixers, and each can be altered by a slip in any of them; tests look at values only, and of a few constructs",
 [M+"compiler.py", M+"importer.py", M+"expander.py", M+"core.py", M+"astfixers.py"],
 [("compile pipeline", M+"compiler.py: expand, _compile, singlephase_expand"), ("import hook", M+"importer.py: source_to_xcode"), ("macro-import to import", M+"expander.py: find_macros")],
 None, ["code objects", "errors", "warnings"])

prop("C33", "Expansion does not depend on what was expanded before in the process",
 "What a module or a program expands to, and what its code computes, is the same whatever other modules have been imported, expanded again, compiled at run time, or have failed to expand, earlier in the same process, and in whatever order: macros, dialects, phases and captures of other modules never leak in, even if they have the same names. (Generated names differ, but stay consistent.)",
 ["histories"], "all sequences, to a depth, of importing, re-expanding and running the members of a set of modules with conflicting names, with macros, dialects, phases, captured values and macros, explicit and run-time expansion, and failures",
 "a test process imports its modules in one order, once; the process-wide tables of captured macros and values, of loaded modules and of modes are shared by everything that is expanded later",
 [M+"core.py", M+"quotes.py", M+"expander.py", M+"multiphase.py", M+"coreutils.py"],
 [("captured macros", M+"core.py: global_bindings; "+M+"quotes.py: capture_macro, lookup_macro"), ("bindings of a module", M+"expander.py: find_macros"), ("temporary modules", M+"multiphase.py: multiphase_expand")],
 [("global bindings, lookup cache", "process-wide tables", M+"core.py, "+M+"quotes.py"), ("sys.modules", "loaded macro modules", "process")], ["code objects", "computed values"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
