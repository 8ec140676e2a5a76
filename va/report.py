"""Which analysis decides which property, what it reports and how a finding is matched with the known ones."""
import os
import shlex
from . import copies, faithful, mir, parser_run, progress, purity, rx
from .interp import Unsupported

KNOWN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")

ASSUMPTIONS = [
    "the MIR the nightly compiler builds for a crate (debug assertions and overflow checks on) has the same meaning as the program users build",
    "the functions of std behave as documented (Vec, Box, String, Option, Result, str comparison, char classification)",
    "the reference grammar and token rules in /verif/va describe the intended language (Python 3.10 as documented in the repository's rule comments)",
    "memory allocation does not fail and the thread's stack suffices",
]

LEX = ("Every path of the tokenizer's MIR is followed over character classes, from the start of a source and from every state a returned token leaves behind, "
       "in lock-step with a reference lexer; sources of any length. ")

WHAT = {
    "L01": LEX + "Reported: a cycle of abstract states on which the read position never advances, a token that covers nothing.",
    "L02": LEX + "Reported: a reachable panic, failed assertion (index bound, overflow), or unwrap of nothing.",
    "L03": LEX + "Reported: an operator or delimiter of another kind or extent than the longest match, or rejected or accepted wrongly.",
    "L04": LEX + "Reported: a name or keyword with another kind or extent, or rejected or accepted wrongly.",
    "L05": LEX + "Reported: a number accepted, rejected or delimited differently from the number automaton.",
    "L06": LEX + "Reported: a string literal accepted, rejected or delimited differently from the string automaton.",
    "L07": LEX + "Reported: a closing bracket accepted or rejected against the stack of open brackets, or a stack that differs after a token.",
    "L08": LEX + "Reported: an indent, dedent or error that is not due, one that is due and missing, or recorded levels that differ after a token.",
    "L09": LEX + "Reported: a Newline or EOF token that is not due, a significant line end skipped, a line end delimited differently.",
    "L10": LEX + "Reported: a start, end or text of a token, or a get_position, that differs from the reference's.",
    "L11": LEX + "Reported: trivia that is missing, misplaced, of another kind, extent, text or order than the reference's, or attached to another token.",
    "L12": LEX + "Reported: an error whose message names a position outside the text that is rejected, or after which get_position answers a place outside it.",
    "P01": "Progress graph over (rule, current token kind): an edge for each call a rule makes before it has consumed a token; a cycle is unbounded recursion. Inside a rule, every cycle of abstract states must contain a consumed token.",
    "P02": "Every path of every rule on every token kind and sub-rule outcome is followed; a reachable panic, failed assertion, unimplemented code or out-of-range access is reported.",
    "P03": "Every path: after a failed sub-rule or a passed-over tokenizer error no tree may be returned.",
    "P04": "Ownership of every consumed token and sub-tree along every path: each must end up in the returned tree exactly once.",
    "P05": "For every node built: individually stored children in source order, each list in one direction, the same on all paths.",
    "P06": "For every node built: its fields against the construct table of the node kind (token kinds, child kinds, presence of optional parts).",
    "P07": "For every operator rule: which rules its operands come from, how it loops, and which node kind it builds for which operator, against the precedence ladder.",
    "P08": "Language equality of each expression rule with the reference grammar, by running both in lock-step (regular-expression derivatives with rule names as symbols).",
    "P09": "Language equality of each simple-statement rule with the reference grammar, in lock-step.",
    "P10": "Language equality of each compound-statement rule with the reference grammar, in lock-step.",
    "P11": "Language equality of the definition and function-type rules with the reference grammar, in lock-step.",
    "P12": "Language equality of the entry rules with the reference grammar, including the end of the source.",
    "P13": "For every node built: its start is the start of its first part and its end the start of the current token after it.",
    "P14": "The except-mode field followed along every path of every rule: handlers of one try statement agree, and every rule leaves the mode as it found it.",
    "P15": "Effect analysis over the call graph from all grammar rules and the tokenizer; tokens constructed by grammar rules are reported.",
    "P16": "Type-based query over the call graph from all grammar rules: every copying operation applied to a value whose type owns syntax tree nodes is reported.",
    "P17": "The copy operation (Clone) of tokens, trivia and nodes is interpreted for every variant with symbolic parts, optional parts present and absent; a copy that is not the same variant with equal parts is reported.",
    "P18": "Every error return of every grammar rule: the values written into the error's text are followed from where they were read to the return; a text that names no position of the construct, and does not pass on the text of an inner error, is reported.",
}

_cache = {}


def program():
    if "p" not in _cache: _cache["p"] = mir.dump()
    return _cache["p"]


def parser():
    if "r" not in _cache: _cache["r"] = parser_run.analyse(program())
    return _cache["r"]


def run(prop, tier):
    if prop.startswith("P"): return run_parser(prop)
    from . import lexer_report
    return lexer_report.run(prop, tier, program())


def run_parser(prop):
    if prop == "P17":
        o, und, st = faithful.analyse(program())
        cov = {"explanation": WHAT[prop], **st, "functions": ["clone of Token", "clone of ASTNode", "clone of Trivia"]}
        return [finding(prop, ty, "unfaithful copy", text, sp, []) for ty, text, sp in o], cov, und
    prog = program()
    pm, results, empties = parser()
    fs = {}; und = []
    states = paths = events = nodes = shapes = 0
    rules = {}; errs = set()
    for (nt, s), r in results.items():
        for (p, k, at), pr in r.problems.items():
            if p == prop:
                f = finding(p, pr.rule, pr.cat, pr.detail, pr.span, pr.trace, pr.kinds, pr.at)
                fs.setdefault((k, at), f)
        for u in r.undecided:
            und.append("%s: %s (%s)" % (u[0], u[1], u[2]))
        if prop == "P18": und += ["%s: %s (%s)" % u for u in sorted(r.erropen)]
        errs |= r.errtexts
        states += r.states; paths += r.oks + r.errs + r.panics; events += r.events; nodes += r.nodes_built; shapes += r.shapes
        rules[nt] = rules.get(nt, 0) + r.states
    cov = {"explanation": WHAT[prop], "rules_analysed": len(rules), "rule_variants": len(results), "abstract_states": states,
           "returns_reached": paths, "events_followed": events, "nodes_checked": nodes, "node_shapes_checked": shapes,
           "grammar_rules": len(pm.g.r), "functions": sorted(f.short for f in pm.rules.values())}
    out = list(fs.values())
    if prop == "P18": cov["error_texts"] = len(errs)
    if prop == "P01":
        o, st = progress.analyse(pm, results, rx.kinds_text)
        cov.update(st)
        out += [finding(prop, *x) for x in o]
    if prop == "P15":
        roots = list(pm.rules.values()) + [f for f in prog.local if f.has_body and ("tokenizer" in f.path.lower() or "source_buffer" in f.path.lower())]
        o, st = purity.analyse(prog, roots)
        cov.update(st)
        out += [finding(prop, "effect", "effect", k, sp, ["reached through " + " -> ".join(ch)] if ch else []) for k, sp, ch in o]
    if prop == "P16":
        o, st = copies.analyse(prog, list(pm.rules.values()))
        cov = {"explanation": WHAT[prop], "rules_analysed": len(pm.rules), **st, "functions": sorted(f.short for f in pm.rules.values())}
        und = []
        out += [finding(prop, fn, "copied sub-tree", "%s a value that owns syntax tree nodes" % what, sp, ["reached through " + " -> ".join(ch)]) for fn, what, sp, ch in o]
    return out, cov, und


def finding(prop, rule, cat, detail, span, trace, kinds=None, at=None):
    return {"property": prop, "rule": rule, "category": cat, "text": "%s: %s: %s" % (rule, cat, detail), "span": span, "trace": trace,
            "kinds": kinds, "at": at}


def load_known(path):
    out = []
    try: lines = open(path).read().splitlines()
    except FileNotFoundError: return out
    for l in lines:
        if not l.startswith("finding:"): continue
        head, text = l[len("finding:"):].split("::", 1)
        d = dict(x.split("=", 1) for x in shlex.split(head))
        d["text"] = text.strip()
        d["kinds"] = set(d["kinds"].split(",")) if "kinds" in d else None
        out.append(d)
    return out


def matches(k, f):
    if k["property"] != f["property"] or k["rule"] != f["rule"] or k["category"] != f["category"] or k.get("at") != f["at"]: return False
    if k["kinds"] is None: return not f["kinds"]
    return bool(f["kinds"]) and set(f["kinds"]) <= k["kinds"]


def replay_text(prop, f):
    l = ["property: " + prop, "what: " + f["text"], "where: " + f["span"]]
    if f["kinds"]: l.append("token kinds: " + ", ".join(f["kinds"]))
    if f["at"]: l.append("at: " + f["at"])
    l.append("path through the source:")
    l += ["  " + x for x in f["trace"]]
    return "\n".join(l) + "\n"


def summary(cov):
    return ", ".join("%s %s" % (v, k.replace("_", " ")) for k, v in cov.items() if type(v) is int)
