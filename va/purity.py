"""P15: which state outside the source text the tokenizer and the parser can reach.

A whole-crate effect scan over the MIR: from every grammar rule, the tokenizer and their constructors, follow the call graph
through the crate's own functions; report every reference to mutable or interior-mutable static state, every call into
parts of the standard library that read or write the outside world, every way to observe an address, and every use of
unsafe code."""

import re

# parts of the standard library whose functions observe or change something outside their arguments
IMPURE = [
    ("std::env::", "the process environment"), ("std::fs::", "the file system"), ("std::net::", "the network"),
    ("std::os::", "the operating system"), ("std::process::", "processes"), ("std::thread::", "thread state"),
    ("std::time::Instant", "the clock"), ("std::time::SystemTime", "the clock"),
    ("std::io::stdin", "standard input"), ("std::io::Stdin", "standard input"), ("std::io::Read", "an input stream"),
    ("std::sync::atomic::", "shared mutable state"), ("std::sync::OnceLock", "shared mutable state"),
    ("std::sync::LazyLock", "shared mutable state"), ("std::sync::Mutex", "shared mutable state"),
    ("std::sync::RwLock", "shared mutable state"), ("std::sync::mpsc", "shared mutable state"), ("std::sync::Once", "shared mutable state"),
    ("std::collections::hash_map::RandomState::", "random state"), ("std::hash::RandomState::", "random state"),
    ("std::random::", "random state"), ("std::backtrace::", "the call stack"), ("std::panic::Location", "the call site"),
    ("std::alloc::", "the allocator"),
]
HASH_ORDER = re.compile(r"std::collections::(hash::)?(hash_)?(map|set)::Hash(Map|Set)<.*>::(iter|iter_mut|keys|values|values_mut|into_iter|drain|retain|into_keys|into_values)"
                        r"|std::collections::Hash(Map|Set).*IntoIterator")
ADDR = ("as_ptr", "addr", "ptr_eq", "as_mut_ptr", "from_ref")


def operands(blk):
    for s in blk["s"]:
        if s[0] == "=":
            r = s[2]
            for x in (r[1:] if r[0] != "agg" else r[2]):
                if isinstance(x, list) and x and x[0] == "k": yield x, s[-1]
    t = blk["t"]
    if t[0] == "call":
        for x in t[3] + [t[2]]:
            if x[0] == "k": yield x, blk.get("sp")
    elif t[0] in ("switch", "assert"):
        if t[1][0] == "k": yield t[1], blk.get("sp")


INTERIOR = re.compile(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|OnceLock|LazyLock|Once|Mutex|RwLock|Atomic|Atomic[A-Z]\w*|SyncUnsafeCell)$")


def interior(prog, t, seen):
    """Does a value of type t contain state that can change behind a shared reference?"""
    if t in seen: return False
    seen.add(t)
    x = prog.types[t]
    k = x["k"]
    if k in ("ref", "ptr", "slice", "array", "pat"): return interior(prog, x["t"], seen)
    if k == "tuple": return any(interior(prog, f, seen) for f in x["f"])
    if k == "adt":
        if INTERIOR.search(x["name"]): return True
        return any(interior(prog, f[1], seen) for v in x["v"] for f in v["f"]) or any(
            isinstance(a, int) and interior(prog, a, seen) for a in x["args"])
    return False


def fn_values(prog, ty, seen):
    """The functions a value of this type stands for (function items and closures, also inside other types)."""
    if ty in seen: return
    seen.add(ty)
    x = prog.types[ty]
    if x["k"] in ("fndef", "closure"):
        if x.get("inst") is not None: yield x["inst"]
        for a in x.get("args", []):
            if isinstance(a, int): yield from fn_values(prog, a, seen)


def analyse(prog, roots):
    """-> (findings [(key, span, chain)], stats)"""
    work = list(roots)
    seen = {f.id: None for f in roots}
    n = {"functions": 0, "library_bodies_followed": 0, "calls": 0, "operands": 0, "static_references": 0, "casts": 0}
    ext = set()
    out = {}

    def chain(fid):
        p = []
        while fid is not None:
            p.append(prog.fns[fid].short); fid = seen[fid]
        return list(reversed(p))

    def add(key, span, fid):
        out.setdefault(key, (key, span, chain(fid)))

    def reach(i, frm):
        if i not in seen and i in prog.fns:
            seen[i] = frm; work.append(prog.fns[i])
    while work:
        f = work.pop()
        if not f.has_body: continue
        if not f.local:
            # library code is trusted; it is followed only to find this crate's functions it calls back
            n["library_bodies_followed"] += 1
            for blk in f.blocks:
                t = blk["t"]
                if t[0] == "call" and t[1] is not None: reach(t[1], f.id)
            continue
        n["functions"] += 1
        for i in range(len(f.locals)):
            for g in fn_values(prog, f.locals[i] if isinstance(f.locals[i], int) else f.locals[i][0], set()): reach(g, f.id)
        for blk in f.blocks:
            for o, sp in operands(blk):
                n["operands"] += 1
                for g in fn_values(prog, o[1], set()): reach(g, f.id)
                c = o[2]
                if isinstance(c, dict) and "static" in c:
                    n["static_references"] += 1
                    x = prog.types[o[1]]
                    if x["k"] == "ptr": add("%s uses the mutable static %s" % (f.short, c["static"]), sp, f.id)
                    elif interior(prog, o[1], set()): add("%s uses the static %s, whose content can change" % (f.short, c["static"]), sp, f.id)
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "cast":
                    n["casts"] += 1
                    if "Expose" in str(s[2][1]): add("%s turns an address into a number" % f.short, s[-1], f.id)
            t = blk["t"]
            if t[0] != "call" or t[1] is None: continue
            n["calls"] += 1
            g = prog.fns.get(t[1])
            if g is None: continue
            reach(g.id, f.id)
            if g.local: continue
            ext.add(g.path)
            for pre, what in IMPURE:
                if g.path.startswith(pre) or "<" + pre in g.path or " " + pre in g.path or g.name.startswith(pre) or g.name.startswith("<" + pre):
                    add("%s reaches %s (%s)" % (f.short, what, g.path), t[-1] if isinstance(t[-1], str) else blk.get("sp"), f.id); break
            if HASH_ORDER.search(g.name) or HASH_ORDER.search(g.path):
                add("%s depends on the random iteration order of a hash table" % f.short, blk.get("sp"), f.id)
    starts = sorted((f.span.rsplit(":", 1)[0], int(f.span.rsplit(":", 1)[1]), f.id in seen, f.short, f.id) for f in prog.local if ":" in f.span)
    for file, line in prog.unsafe:
        cand = [s for s in starts if s[0] == file and s[1] <= line]
        if not cand or cand[-1][2]:
            w = cand[-1] if cand else None
            add("%s uses unsafe code" % (w[3] if w else file), "%s:%d" % (file, line), w[4] if w else None)
    n["library_functions_called"] = len(ext)
    n["unsafe_uses_in_crate"] = len(prog.unsafe)
    return list(out.values()), n
