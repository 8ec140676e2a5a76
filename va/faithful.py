"""P17: copying a token, a piece of trivia or a node gives an equal one.

The `clone` of each of the three data types is interpreted on a value of every variant whose parts are symbolic (an optional part
both present and absent); the result must be the same variant with each part equal to the original's.  A copy of a part is
equal to the part: by the documented behaviour of std for its types, by induction on the size of the value for the three types."""
import itertools
from .interp import Client, Engine, Fork, State, Stop, Unsupported, NOTHANDLED, UNIT

SAME = ("::clone", "::to_owned", "::to_string", "::to_vec", "::copied", "::cloned", "::into", "::from", "::as_ref", "::as_deref", "::borrow")
SAME += ("::as_str", "::as_slice", "::deref", "::as_bytes", "::iter", "::into_iter", "::collect", "::into_boxed_str", "::into_string", "::as_mut", "::chars")
CHANGED = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase",
           "to_ascii_uppercase", "replace", "replacen", "repeat", "rev", "skip", "take", "filter", "step_by", "first", "last")
MUTATED = ("truncate", "retain", "clear", "reverse", "dedup", "push", "push_str", "insert", "remove", "pop", "make_ascii_lowercase", "make_ascii_uppercase",
           "drain", "split_off", "swap", "sort")
OWNED = ("::boxed::", "::string::", "::vec::", "::option::", "str>::", "slice::", "::clone::", "::convert::", "::borrow::", "::iter::", "::ops::", "::string::")


class World:
    __slots__ = ("tests",)

    def copy(self):
        w = World(); w.tests = self.tests
        return w


class CloneClient(Client):
    def __init__(self, fn, ty, h0, out):
        self.fn = fn; self.ty = ty; self.out = out

    def call(self, st, fn, path, args):
        if fn is not None and fn.local:
            if path.endswith("::clone") and len(args) == 1:
                v = self.e.load(st, args[0])
                if type(v) is tuple and v[0] == 'fld': return v
            return NOTHANDLED
        if len(args) == 1 and path.endswith(SAME) and any(o in path for o in OWNED):
            a = args[0]
            while type(a) is tuple and a[0] == 'R': a = self.e.load(st, a)
            if type(a) is tuple and a[0] in ('fld', 'chg'): return a
        last = path.rsplit("::", 1)[-1]
        if last in ("new", "with_capacity", "default") and ("::string::String" in path or "::vec::Vec" in path): return ('emp',)
        if last in ("push_str", "extend_from_slice", "extend", "append") and len(args) == 2:
            ref = a = args[0]
            while type(a) is tuple and a[0] in ('R', 'B', 'P'): ref = a; a = self.e.load(st, a)
            b = args[1]
            while type(b) is tuple and b[0] in ('R', 'B', 'P'): b = self.e.load(st, b)
            if a == ('emp',) and type(b) is tuple and b[0] in ('fld', 'chg'):
                self.e.store(st, ref, b); return UNIT
        if last == "len" and args: return ('len', args[0])
        if args and (last in CHANGED or last in MUTATED) and any(o in path for o in OWNED):
            a = args[0]; ref = None
            while type(a) is tuple and a[0] in ('R', 'B', 'P'): ref = a; a = self.e.load(st, a)
            if type(a) is tuple and a[0] in ('fld', 'chg'):
                if last in CHANGED: return ('chg', last, a[1:])
                if ref is not None:
                    self.e.store(st, ref, ('chg', last, a[1:]))
                    return ('chg', last + " of", a[1:])
        if "panicking::" in path:
            self.out.append(("panic", None, self.e.span(st))); raise Stop()
        return NOTHANDLED

    def clone(self, st, v): return v

    def deref(self, st, v):
        if type(v) is tuple and v[0] in ('fld', 'chg', 'emp'): return ('V', v), ()
        return None

    def test(self, st, key, n):
        """a decision on a part of unknown value: each outcome occurs"""
        for k, o in st.world.tests:
            if k == key: return o

        def take(o):
            def f(z): z.world.tests = z.world.tests + ((key, o),)
            return f
        raise Fork([take(o) for o in range(n)])

    def switch(self, st, v, values, exhaustive):
        outs = list(range(len(values))) + ([] if exhaustive else [-1])
        return outs[self.test(st, ("switch", v, tuple(values)), len(outs))]

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return self.test(st, (op, a, b), 2)
        raise Unsupported("%s of parts" % op)

    def discr(self, st, v): return ('discr', v)

    def canon(self, st, v, ren): return v

    def world_canon(self, st, ren): return st.world.tests

    def on_return(self, st, v): self.out.append(("value", self.norm(st, v), None, repr(st.world.tests)))

    def norm(self, st, v):
        if type(v) is tuple and v:
            if v[0] == 'B': return ('box', self.norm(st, st.heap[v[1]]))
            if v[0] == 'A': return ('A', v[1], v[2], tuple(self.norm(st, x) for x in v[3]))
            if v[0] == 'T': return ('T', tuple(self.norm(st, x) for x in v[1]))
        return v


def shapes(prog, st, ty, name, depth=0):
    """symbolic values of a type: optional parts both ways, boxes opened, everything else opaque"""
    t = prog.types[ty]
    if t["k"] == "adt":
        if t["name"].endswith("option::Option"):
            return [('A', ty, 0, ())] + [('A', ty, 1, (x,)) for x in shapes(prog, st, t["v"][1]["f"][0][1], name, depth + 1)]
        if t["name"].endswith("boxed::Box"):
            inner = next(i for i in t["args"] if isinstance(i, int))
            return [('B', ('new', x)) for x in shapes(prog, st, inner, name, depth + 1)]
    if t["k"] == "tuple":
        return [('T', c) for c in itertools.product(*[shapes(prog, st, f, name + (i,), depth + 1) for i, f in enumerate(t["f"])])]
    return [('fld',) + name]


def place(st, v):
    """allocate the boxes of a symbolic value"""
    if type(v) is tuple and v:
        if v[0] == 'B': return ('B', st.alloc(place(st, v[1][1])))
        if v[0] == 'A': return ('A', v[1], v[2], tuple(place(st, x) for x in v[3]))
        if v[0] == 'T': return ('T', tuple(place(st, x) for x in v[1]))
    return v


def analyse(prog, names=("Token", "ASTNode", "Trivia")):
    """-> (findings [(type, text, span)], undecided, stats)"""
    out = {}; und = []
    n = {"types": 0, "variants": 0, "shapes": 0, "results_compared": 0}
    for nm in names:
        tys = [i for i, t in enumerate(prog.types) if t["k"] == "adt" and t["name"].startswith("python_core_rust") and t["name"].endswith("::" + nm)]
        fns = [f for f in prog.local if f.short == "clone" and f.has_body and f.argc == 1 and tys and f.locals[0] == tys[0]
               and prog.types[f.locals[1]]["k"] == "ref"]
        if len(tys) != 1 or len(fns) != 1:
            und.append("no single clone function of %s" % nm); continue
        n["types"] += 1
        ty = tys[0]; fn = fns[0]
        for vi, var in enumerate(prog.types[ty]["v"]):
            n["variants"] += 1
            for fs in itertools.product(*[shapes(prog, None, f[1], (vi, k)) for k, f in enumerate(var["f"])]):
                n["shapes"] += 1
                st = State(World()); st.world.tests = ()
                got = []
                c = CloneClient(fn, ty, None, got)
                e = Engine(prog, c, 20000)
                val = place(st, ('A', ty, vi, fs))
                want = c.norm(st, val)
                h = st.alloc(val)
                try:
                    e.push(st, fn, [('R', ('H', h), ())], None, None)
                    e.run(st)
                except Unsupported as x: e.unsupported.append((str(x), nm, fn.span))
                for m, _, sp in e.unsupported:
                    u = "clone of %s::%s: %s (%s)" % (nm, var["name"], m, sp)
                    if u not in und: und.append(u)
                for g in got:
                    if g[0] == "panic":
                        out.setdefault((nm, var["name"], "panic"), (nm, "%s: copying it panics" % var["name"], g[2])); continue
                    n["results_compared"] += 1
                    v = g[1]
                    if v == want: continue
                    if not (type(v) is tuple and v[0] == 'A' and v[1] == ty): und.append("clone of %s::%s: result not known (%s)" % (nm, var["name"], fn.span)); continue
                    if v[2] != vi:
                        out.setdefault((nm, var["name"], "kind"), (nm, "%s: its copy is a %s" % (var["name"], prog.types[ty]["v"][v[2]]["name"]), fn.span)); continue
                    for k, (a, b) in enumerate(zip(v[3], want[3])):
                        if a == b: continue
                        if known(a) and not any(x in g[3] for x in leaves(b)): out.setdefault((nm, var["name"], k), (nm, "%s: part %d of its copy is not equal to the original's" % (var["name"], k), fn.span))
                        else: und.append("clone of %s::%s: part %d of the result not known (%s)" % (nm, var["name"], k, fn.span))
    return list(out.values()), sorted(set(und)), n


def leaves(v):
    if type(v) is tuple and v:
        if v[0] == 'fld': return [repr(v)]
        if v[0] in ('A', 'T'): return [y for x in v[-1] for y in leaves(x)]
        if v[0] == 'box': return leaves(v[1])
    return []


def known(v):
    """a value the analysis understands completely: parts of the original, constants, or combinations"""
    if type(v) is int: return True
    if type(v) is tuple and v:
        if v[0] in ('fld', 'str', 'chg', 'emp'): return True
        if v[0] in ('A', 'T'): return all(known(x) for x in v[-1])
        if v[0] == 'box': return known(v[1])
    return False
