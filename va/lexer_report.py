"""Findings of the tokenizer analysis, per property."""
from . import lexer_an, report
from .interp import Unsupported

LIMIT = {"quick": 400000, "thorough": 1500000}

RULE = {
    "L01": "no cycle of abstract states without a consumed character; every token covers a character, an owed indentation change, or is the end of input",
    "L02": "no reachable panic, failed overflow or bounds assertion, or unwrap of nothing",
    "L03": "operators and delimiters: kind and extent equal the reference's longest match on every character class that can follow",
    "L04": "names and keywords: kind and extent equal the reference's",
    "L05": "numbers: accepted and rejected with the reference automaton, same extent",
    "L06": "strings: accepted and rejected with the reference automaton, same extent",
    "L07": "closing brackets accepted exactly against the reference stack; the recorded stack equals the reference's after every token",
    "L08": "indents, dedents and errors at line starts equal the reference's; the recorded levels equal the reference's after every token",
    "L09": "Newline and EOF tokens, skipped line ends and continuations equal the reference's",
    "L10": "start, end and text of every token equal the reference's; get_position equals the start of the latest token",
    "L11": "every piece of trivia collected, and every token's trivia list, equals the reference's",
    "L12": "the position named in an error's text, and the position offered after an error, lie between the start of the offending text and what was read",
}


def found(p): return report.finding(p.prop, p.rule, p.cat, p.detail, p.span, p.trace, None, p.at)


def run(prop, tier, prog):
    cov = {"explanation": report.WHAT[prop], "rule": RULE[prop]}
    gmap = {}
    und = []
    known = report.load_known(report.KNOWN)
    lexer_an.configure(prog)
    while True:
        lx = lexer_an.Lexer(prog, gmap)
        lx.goal = lambda p: p.prop == prop and not any(report.matches(k, found(p)) for k in known)
        try:
            lx.run(LIMIT.get(tier, LIMIT["quick"])); break
        except lexer_an.Restart: continue
        except Unsupported as e:
            und.append("the tokenizer as a whole: %s" % e); break
    out = [found(p) for p in lx.problems.values() if p.prop == prop]
    if prop == "L01" and getattr(lx, "e", None) is not None:
        seen = set()
        for c in lx.loops():
            # the state of the cycle that comes first
            fn, bb, span = lx.node_span[min(c)]
            if (fn, span) in seen: continue
            seen.add((fn, span))
            tr = ["%s, block %s, at %s" % lx.node_span[x] for x in sorted(c)][:60]
            out.append(report.finding("L01", fn, "endless loop", "a cycle of %d abstract states in which nothing is consumed" % len(c), span, tr, None, fn))
        for n in lx.endless:
            fn, bb, span = lx.node_span[n]
            if (fn, span) in seen: continue
            seen.add((fn, span))
            out.append(report.finding("L01", fn, "endless loop", "%d abstract states in a row in which nothing is consumed while a number grows" % lx.spin[n], span,
                                      ["%s, block %s, at %s" % lx.node_span[n]], None, fn))
    und += [u if type(u) is str else ": ".join(str(x) for x in u) for u in lx.undecided]
    e = getattr(lx, "e", None)
    cov.update({"abstract_states": lx.nodes, "merged_paths": e.memo_hits if e else 0, "state_transitions": len(lx.edges),
                "tokens_compared": lx.stats["tokens"], "errors_compared": lx.stats["errors"], "trivia_compared": lx.stats["trivia"], "error_positions_compared": lx.stats.get("error positions", 0),
                "calls_modelled": lx.stats["calls"], "character_classes": len(getattr(lx, "classes", ())),
                "token_kinds_seen": len(lx.kinds), "token_kinds": sorted(lx.kinds),
                "functions": sorted(set(f.short for f in getattr(lx, "fns", ())))})
    return out, cov, und
