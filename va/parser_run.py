"""Runs the parser analysis over all rules and combines the per-rule results."""
from . import mir, parser_an, pygrammar
from .interp import Unsupported


DEBUG = False


def runs(pm):
    out = []
    for nm in sorted(pm.rules):
        try: vs = pm.variants(nm)
        except Unsupported as e:
            out.append((nm, None, None, str(e))); continue
        for nt, arg in vs:
            if nm in pm.modes and not pm.mode_is:
                out.append((nt, None, None, "which field tells the kinds of exception handlers apart is not known"))
            elif nm in pm.modes:
                for s in range(3): out.append((nt, arg, s, None))
            else: out.append((nt, arg, None, None))
    return out


def analyse(prog):
    pm = parser_an.ParserModel(prog)
    if not pm.xfin and not pm.xint: return analyse_once(pm)
    # fields of the parser beyond the known ones: which values each rule is entered with and leaves
    init = tuple(pm.xinit[i] for i in pm.xfin)
    for rnd in range(250):
        pm.vals = {nm: {init} for nm in pm.rules if nm in pygrammar.INPUTS} if rnd == 0 else pm.vals
        r = analyse_once(pm)
        results = r[1]
        vals = {k: set(v) for k, v in pm.vals.items()}
        for (nt, s), x in results.items():
            if nt not in pm.vals: continue          # not known to be entered yet
            for name, v in x.entered: vals.setdefault(name, set()).add(v)
        exits = {}
        for (nt, s), x in results.items():
            for v in pm.vals.get(nt, ()): exits.setdefault((nt, v), set())
            for a, b in x.left:
                if nt in pm.vals: exits.setdefault((nt, a), set()).add(b)
        exits = {k: v for k, v in exits.items() if v}
        grown = pm.grown | growing(pm, results)
        if DEBUG: print(rnd, sum(map(len, vals.values())), sum(map(len, exits.values())), grown)
        moved = pm.moved | {i for x in results.values() for _, i, _ in x.gains}
        if vals == pm.vals and exits == pm.exits and grown == pm.grown and moved == pm.moved: return r
        pm.vals, pm.exits, pm.grown, pm.moved = vals, exits, grown, moved
    for x in results.values(): x.undecided.append((x.name, "the values of the parser's fields are not settled", "?"))
    return r


def growing(pm, results):
    """number fields that get larger and larger along nested calls, or from one use of a rule to the next"""
    out = set()
    for i in pm.xint:
        gain = {}
        calls = {}
        for (nt, s), r in results.items():
            for c in r.calls + [(0, 0, n, None) for n, _ in r.entered]: calls.setdefault(nt, set()).add(c[2])
            for name, k, n in r.gains:
                if k != i or n < 0: continue
                if name is None: out.add(i)
                else: gain.setdefault(nt, set()).add(name)
        for a in gain:
            todo = list(gain[a]); seen = set(todo)
            while todo:
                x = todo.pop()
                for y in calls.get(x, ()):
                    if y not in seen: seen.add(y); todo.append(y)
            if a in seen: out.add(i)
    return out


def analyse_once(pm):
    results = {}
    kinds = dict(pm.kinds0)
    empties = set(pm.empties0)
    todo = runs(pm)
    first = True
    while True:
        redo = []
        for nt, arg, s, err in todo:
            nm = nt.split("(")[0]
            if err:
                r = parser_an.RuleResult(nt); r.undecided.append((nt, err, pm.rules[nm].span))
            elif nt in pm.g.r or nt in pm.modes or nt in pm.g.opaque:
                old = pm.cache.get((nt, s))
                key = (set(pm.vals.get(nt, ())), set(pm.grown), set(pm.moved), empties)
                if old is not None and old[0] == key and (old[1] == kinds or not old[3].forked_nodes) and \
                        all(pm.exits.get(q) == x for q, x in old[2].items()): r = old[3]
                else:
                    r = parser_an.analyse_rule(pm, nt, pm.rules[nm], arg, s, kinds, empties)
                    pm.cache[(nt, s)] = (key, dict(kinds), {q: pm.exits.get(q) for q in r.asked}, r)
            else:
                r = parser_an.RuleResult(nt); r.undecided.append((nt, "no reference for this rule", pm.rules[nm].span))
            results[(nt, s)] = r
        # node kinds each rule can return
        k2 = {}
        ch = True
        while ch:
            ch = False
            for (nt, s), r in results.items():
                v = set(k2.get(nt, ()))
                v |= r.kinds
                for p in r.passes: v |= k2.get(p, set())
                if v != k2.get(nt): k2[nt] = v; ch = True
        e2 = {nt for (nt, s), r in results.items() if r.returns_noprogress}
        again = [x for x in runs(pm) if results[(x[0], x[2])].forked_nodes] if k2 != kinds else []
        if e2 != empties: again = runs(pm)
        kinds = k2; empties = e2
        if first and again: todo = again; first = False; continue
        if e2 == empties and not again or not first: break
    pm.kinds0 = kinds; pm.empties0 = empties
    return pm, results, empties
