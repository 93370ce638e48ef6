#!/usr/bin/env python3
"""Write known_findings.txt: repaired defects (with the hash of their commit), and findings recorded but not repaired."""
import os
import subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [  # property, first words of the commit subject, what failed
    ("C12", "fix: hygienic capture lookup", "hygienic captures: a capture whose frozen bytes object happened to get the id of an earlier one evaluated to that one's value (lookup cache keyed by id)"),
    ("C11", "fix: quasiquotes: splice", "a[list of nodes] nested deeper than the top level of the quote was left as a list inside the tree; str items of AST list fields (Global.names, MatchMapping...) crashed the splicer"),
    ("C28", "fix: split_futureimports", "a suite consisting of future-imports only raised IndexError / lost statements; an empty docstring was not recognised"),
    ("C28", "fix: getdocstring", "any constant expression as first statement was reported as the docstring"),
    ("C22", "fix: temporary_module", "an anonymous temporary module stayed in sys.modules after its context"),
    ("C23", "fix: match_syspath", "a path entry that is a string prefix of the file's directory name (not a parent directory) was matched; the deepest entry was not always chosen"),
    ("C21", "fix: splice_statements: a single", "a template given as one statement crashed"),
    ("C21", "fix: splice_dialect: combined", "the combined docstring was inserted as a bare Constant, not a statement"),
    ("C02", "fix: MacroCollector rejected", "regular code f(x)[y] made MacroCollector raise"),
    ("C02", "fix: expand decorator macros also", "decorator macros on async functions were left unexpanded"),
    ("C08", "fix: restore sys.modules", "an error in a phase left the temporary module in sys.modules under the module's name"),
    ("C09", "fix: a source dialect-import", "of two consecutive dialect-imports the second was swallowed, or the first applied again"),
    ("C09", "fix: import of a module whose", "a module whose text is Python only after its source dialects ran could not be imported"),
    ("C14", "fix: unparser: f-strings", "f-strings with braces, backslashes, control characters, or an expression starting with a brace unparsed to something else"),
    ("C14", "fix: unparser: dictionary", "{**d} unparsed to an error"),
    ("C14", "fix: unparser: empty tuple", "a[()] unparsed to a[]"),
    ("C14", "fix: unparser: type param", "type parameters were lost"),
    ("C14", "fix: unparser: top-level", "unparse(Expression(..)) failed"),
    ("C14", "fix: unparser: a tuple as", "with (a, b): ... with a tuple unparsed as two items"),
    ("C14", "fix: unparser: negative", "negative and complex numbers in match patterns unparsed to invalid code"),
    ("C14", "fix: unparser: as-pattern", "as-patterns and or-patterns nested in or-patterns lost their parentheses"),
    ("C20", "fix: rename:", "names in MatchMapping.rest, MatchClass keywords and type parameters were not renamed"),
    ("C31", "fix: nesting level", "quote levels were shared between threads"),
    ("C16", "fix: walkers: a temporarily", "withstate/generic_withstate with an empty resulting state was ignored"),
    ("C18", "fix: fix_ctx:", "one node object in positions requiring different contexts got only one of them in copy mode"),
    ("C19", "fix: fix_locations:", "a reference without end position left nodes without end positions, which do not compile when patterns or type parameters"),
]
FIX += [tuple(x) for x in eval(open(os.path.join(here, "tools", "known_more.txt"), encoding="utf-8").read())] if os.path.exists(os.path.join(here, "tools", "known_more.txt")) else []
FINDINGS = []  # (property, key, description)
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
with open(os.path.join(here, "known_findings.txt"), "w", encoding="utf-8") as f:
    for prop, subj, what in FIX:
        h = [x.split()[0] for x in log if x.split(" ", 1)[1].startswith(subj)]
        assert len(h) == 1, (subj, h)
        f.write(f"fixed: property={prop} {h[0]} {what}\n")
    for prop, key, what in FINDINGS:
        assert " " not in key
        f.write(f"finding: property={prop} key={key} {what}\n")
