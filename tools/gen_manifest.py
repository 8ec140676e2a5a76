#!/usr/bin/env python3
"""Single source for MANIFEST.json."""
import json
AI = "abstract interpretation of the compiler's MIR"
LEXT = AI + " of the tokenizer over character classes, in lock-step with a reference lexer"
T = {
 "P01": AI + "; cycle search in the call/token progress graph",
 "P02": AI + "; reachability of panics on every path of every grammar rule",
 "P03": AI + "; error-flow along every path of every grammar rule",
 "P04": AI + "; ownership (linearity) of tokens and sub-trees along every path",
 "P05": AI + "; order of stored children along every path",
 "P06": AI + "; construct table over every tree-node construction",
 "P07": AI + "; precedence-ladder shape of the operator rules",
 "P08": AI + "; language equality with a reference grammar (regular-expression derivatives)",
 "P09": AI + "; language equality with a reference grammar (regular-expression derivatives)",
 "P10": AI + "; language equality with a reference grammar (regular-expression derivatives)",
 "P11": AI + "; language equality with a reference grammar (regular-expression derivatives)",
 "P12": AI + "; language equality of the entry rules up to end of input",
 "P13": AI + "; symbolic positions along every path",
 "P14": AI + "; typestate of the handler mode, with the language of handler sequences",
 "P16": "type-based query over the MIR call graph: copying operations on types that own syntax tree nodes",
 "P18": AI + "; positions followed into the text of every error return",
 "P17": "abstract interpretation of each Clone implementation on every variant with symbolic parts",
 "P15": "effect analysis over the MIR call graph, static and unsafe-code queries",
}
NOTE_P = ("Every path of every grammar rule's MIR is followed on sets of token kinds, each rule against the contracts of the rules it calls "
          "(assume/guarantee); holds for token sequences of any length. Trusted: the reference grammar in va/pygrammar.py, std, the compiler's MIR. "
          "Paths the interpreter cannot model are listed as undecided in the evidence, not claimed.")
NOTE_L = ("Every path of the tokenizer's MIR is followed on character classes for sources of any length; positions, indentation columns and stacks are "
          "abstracted. Trusted: the reference lexer in va/, std, the compiler's MIR. Undecided paths are listed in the evidence.")
NOTE_C = ("Each implementation of Clone is interpreted on every variant and every presence of optional parts; list lengths by induction over iterator models. "
          "Trusted: Clone of std types (String, Vec, Box, Option), the compiler's MIR. Undecided shapes are listed in the evidence.")
LEX = ["L%02d" % i for i in range(1, 13)]
CLAIM_L = LEX
checks = []
for p in [x for x in LEX if x in CLAIM_L] + sorted(T):
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                   "technique": T.get(p, LEXT), "level": "other", "level_note": NOTE_L if p[0] == "L" else NOTE_C if p == "P17" else NOTE_P})
na = [{"property": x, "reason": "not covered yet: the tokenizer analysis is being built"} for x in LEX if x not in CLAIM_L]
na += [
 {"property": "N01", "reason": "recursion depth is a quantity of the run (source nesting against the stack a build happens to have); a recursive-descent parser has no static bound on it, and no static rule distinguishes a sufficient stack from an insufficient one"},
 {"property": "N02", "reason": "a linear bound on total work depends on amortised run-time quantities (copying of tokens with their trivia at every look at the current symbol, growth of vectors and strings, the standard library's own costs); no sound static argument in reach bounds it; the part that is decidable, copying of sub-trees, is P16"},
]
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
