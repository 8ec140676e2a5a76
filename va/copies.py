"""P16: where a grammar rule copies a syntax tree.

From every grammar rule the crate's own functions are followed (calls, closures and functions handed to library code); every
call of an operation that builds a second copy of its operand (clone, to_vec, repeat ...) on a type that owns tree nodes is
reported.  Operations that only move, borrow or compare a tree are not."""
from .purity import fn_values

WALKS = {"clone": "copies", "clone_from": "copies", "to_owned": "copies", "cloned": "copies", "to_vec": "copies", "extend_from_slice": "copies",
         "from_elem": "copies", "resize": "copies", "repeat": "copies", "concat": "copies", "extend_from_within": "copies",
         "clone_into": "copies", "repeat_n": "copies", "cycle": "copies", "fill": "copies", "clone_from_slice": "copies", "make_mut": "copies",
         "unwrap_or_clone": "copies"}
SHARED = ("std::rc::Rc", "std::sync::Arc", "std::rc::Weak", "std::sync::Weak")


def owns(prog, t, memo):
    """Does a value of type t own syntax tree nodes (rather than borrow or share them)?"""
    if t in memo: return memo[t]
    memo[t] = False
    x = prog.types[t]
    k = x["k"]
    r = False
    if k in ("slice", "array", "pat"): r = owns(prog, x["t"], memo)
    elif k == "tuple": r = any(owns(prog, f, memo) for f in x["f"])
    elif k == "adt":
        if x["name"].endswith("::ASTNode"): r = True
        elif x["name"] in SHARED or "ManuallyDrop" in x["name"]: r = False
        else:
            r = any(isinstance(a, int) and owns(prog, a, memo) for a in x["args"]) or any(owns(prog, f[1], memo) for v in x["v"] for f in v["f"])
    memo[t] = r
    return r


def operand_type(f, o):
    if o[0] == "k": return o[1]
    if o[0] in ("c", "m"):
        l = f.locals[o[1][0]]
        if not o[1][1]: return l if isinstance(l, int) else l[0]
    return None


def analyse(prog, roots):
    """-> (findings [(function, what, span, chain)], stats)"""
    memo = {}
    seen = {f.id: None for f in roots}
    work = list(roots)
    n = {"functions": 0, "library_bodies_followed": 0, "calls_examined": 0, "copying_operations_seen": 0, "on_tokens_or_text_only": 0}
    out = {}

    def chain(fid):
        p = []
        while fid is not None:
            p.append(prog.fns[fid].short); fid = seen[fid]
        return list(reversed(p))

    def reach(i, frm):
        if i not in seen and i in prog.fns:
            seen[i] = frm; work.append(prog.fns[i])
    while work:
        f = work.pop()
        if not f.has_body: continue
        n["functions" if f.local else "library_bodies_followed"] += 1
        for blk in f.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    for g in fn_values(prog, s[2][1][1], set()): reach(g, f.id)
            t = blk["t"]
            if t[0] != "call": continue
            for o in t[3] + [t[2]]:
                if o[0] == "k":
                    for g in fn_values(prog, o[1], set()): reach(g, f.id)
            g = prog.fns.get(t[1]) if isinstance(t[1], int) else None
            path = g.path if g is not None else t[1] if isinstance(t[1], str) else None
            if path is None: continue
            n["calls_examined"] += 1
            short = path.rsplit("::", 1)[-1].split("<")[0]
            what = WALKS.get(short)
            if what:
                # reached only from an operation reported where it is used
                if f.short in WALKS: continue
                n["copying_operations_seen"] += 1
                if any(path.startswith(p) or path.startswith("<" + p) for p in SHARED): continue
                ts = [a for a in g.args if isinstance(a, int)] if g is not None else []
                for o in t[3][:1]:
                    ty = operand_type(f, o)
                    if ty is not None:
                        x = prog.types[ty]
                        ts.append(x["t"] if x["k"] == "ref" else ty)
                if any(owns(prog, a, memo) for a in ts):
                    if f.local:
                        sp = blk.get("sp") or f.span
                        out.setdefault((f.short, what, sp), (f.short, what, sp, chain(f.id)))
                    continue
                n["on_tokens_or_text_only"] += 1
            if g is not None: reach(g.id, f.id)
    return list(out.values()), n
