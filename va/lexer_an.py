"""Lock-step analysis of the tokenizer against the reference lexer of lexspec.py.

The tokenizer's MIR is interpreted over abstract inputs: a character of the source is a set of character classes that
is split only as far as the tokenizer's tests and the reference need it; positions are kept up to their order and small
distances; the stack of open brackets and of indentation levels is a shared unknown base plus what was pushed and
popped since; columns and counts are kept up to the largest constant the source compares anything with.  The reference
advances on every character the tokenizer makes known.  Whatever the tokenizer hands out (token, error, trivia) is
compared with what the reference says about the same abstract input."""
import hashlib
from collections import deque
import marshal

from . import srcbuild
from .interp import Client, Engine, Fork, State, Stop, Unsupported, NOTHANDLED, UNIT
from . import lexspec as L

BASE = 1500000000
LO, HI = 1200000000, 2000000000
CAP = 6
TAB = 4
INF = 10 ** 6
NEOF = L.ALL & ~(1 << L.EOF)
EOFM = 1 << L.EOF
SKIP = ("BOL", "MID", "WS", "COM", "CR", "NL", "BS", "BSCR")


def ispos(x): return type(x) is int and LO <= x < HI


class World:
    __slots__ = ("cells", "eof", "front", "d", "core", "nxt", "item", "lex", "quote", "mark", "code", "C", "P", "rP", "I", "rI", "rel",
                 "owed", "popped", "q", "n", "m", "k0", "decn", "outc", "errok", "imp", "hist", "com", "phase", "lim", "start", "tok",
                 "orc", "gen", "fin", "col", "part", "last", "steps", "tvn", "bs", "bsn", "pk", "pbig", "pl", "wide")

    def __init__(self):
        self.cells = {}; self.eof = None; self.front = self.d = BASE; self.core = ("BOL",); self.nxt = None
        self.item = self.lex = self.quote = self.mark = None; self.code = False; self.C = 0
        self.P = ((), True); self.rP = (0, ()); self.I = (1, True); self.rI = (0, ()); self.rel = {}
        self.owed = 0; self.popped = False; self.q = (); self.n = self.m = self.k0 = 0; self.decn = None
        self.outc = None; self.errok = False; self.imp = None; self.hist = (); self.com = None; self.phase = "new"; self.lim = None
        self.start = BASE; self.tok = None; self.orc = None; self.gen = self.col = self.part = None; self.fin = False; self.last = None; self.steps = 0; self.tvn = None; self.bs = self.bsn = None
        self.pk = (); self.pbig = (); self.pl = self.wide = None

    def copy(self):
        w = World.__new__(World)
        for s in World.__slots__: setattr(w, s, getattr(self, s))
        w.cells = dict(self.cells); w.rel = dict(self.rel)
        return w


def riu_(w): return bool(w.rI[1])


class Restart(Exception):
    pass


class Problem:
    __slots__ = ("prop", "rule", "cat", "detail", "at", "span", "trace")


OPT_X = ('X',)
MANYC = 1                 # numbers kept in the tokenizer above this, that grew during tokenizing, are only known to be large
HUGE = (1 << 31) - 16     # sources are taken to have fewer characters than this
LENGTH = "the length of a text"
CASE = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case", "make_ascii_lowercase", "make_ascii_uppercase"}
BLANKS = 1 << 32 | 1 << 9
RAW_KEYS = False


def configure(prog):
    """Atoms for the non-ASCII characters that the tokenizer compares with.  The module is loaded again when they change."""
    import importlib, sys
    fns = prog_client(prog).reachable([f for f in prog.local if f.has_body and "PythonCoreTokenizer" in f.path])
    vals = set()

    def c(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 3 and x[0] == "k" and type(x[1]) is int and isinstance(x[2], dict) and type(x[2].get("s")) is int and \
                    0 <= x[1] < len(prog.types) and prog.types[x[1]]["k"] == "char": vals.add(x[2]["s"])
            for v in x: c(v)
        elif isinstance(x, dict):
            for v in x.values(): c(v)
    for f in fns:
        for b in f.blocks:
            c(b["s"]); c(b["t"])
            if b["t"][0] == "switch":
                for x in b["t"][2]: vals.add(x[0])
    vals = {v for v in vals if type(v) is int and 128 <= v < 0x110000}
    if len(vals) > 12: vals = set()
    if not vals and L.NATOMS == 134: return
    L.setup(vals)
    importlib.reload(srcbuild)
    importlib.reload(sys.modules[__name__])


def prog_client(prog):
    l = Lexer.__new__(Lexer); l.p = prog
    return l


class Lexer(Client):
    OVER = OPT_X

    def __init__(self, prog, gmap):
        self.p = prog; self.gmap = gmap
        lits = set(); ints = set()
        self.fns = self.reachable([f for f in prog.local if f.has_body and "PythonCoreTokenizer" in f.path])
        for f in self.fns: self.constants(f, lits, ints)
        # functions that disregard case: the case variants of every known word are told apart too
        if any(q.rsplit("::", 1)[-1] in CASE for q in self.called()):
            import itertools
            for x in list(lits):
                if len(x) <= 2 and x.isalpha(): lits.update("".join(y) for y in itertools.product(*((ch.lower(), ch.upper()) for ch in x)))
                elif x.isidentifier() and len(x) <= 12: lits.update((x.lower(), x.upper(), x.capitalize()))
        self.spec = L.Spec(lits)
        self.T = max([8] + [i + 2 for i in ints if i < 16])
        self.OT = min(max([3] + [i + 1 for i in ints if i < 12 and i > 4]), 12)
        self.problems = {}; self.undecided = []; self.fewgmap = False
        self.pending = deque()
        self.goal = None
        self.edges = []; self.nodes = 0; self.node_span = []; self.unsure = set(); self.spin = []; self.fronts = []; self.endless = []
        self.spinmax = max([4000] + [40 * i for i in ints if i < 2000])
        self._ch = set(); self._m = {}; self._usesC = False
        self.stats = {"returns": 0, "tokens": 0, "errors": 0, "trivia": 0, "calls": 0}
        self.kinds = set(); self.visited = set()
        self.tables = {}; self.tables_l = []
        self.handlers = {}; self.composed = False
        self.classes = self.char_classes(); self.coarse_cache = {}
        self.TOK = None
        self.tok_entry = {}

    def constants(self, f, lits, ints):
        def c(x):
            if isinstance(x, dict):
                if "str" in x and isinstance(x["str"], str): lits.add(x["str"])
                if "s" in x and type(x["s"]) is int and x["s"] > 0: ints.add(x["s"])
                for v in x.values(): c(v)
            elif isinstance(x, list):
                for v in x: c(v)
        for b in f.blocks:
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("bin", "cbin") and r[1] not in ("Mul", "Div", "Rem"):
                        for o in (r[2], r[3]):
                            if o[0] == "k" and self.p.types[o[1]]["k"] == "int" and isinstance(o[2], dict) and type(o[2].get("s")) is int: ints.add(o[2]["s"])
                    tmp = set()
                    self.strs(r, lits)
            self.strs(b["t"], lits)
            t = b["t"]
            if t[0] == "switch":
                pl = t[1]
                ty = None
                if pl[0] in ("c", "m") and not pl[1][1]: ty = self.p.types[f.locals[pl[1][0]]]["k"]
                if ty == "int":
                    for x in t[2]: ints.add(x[0])

    def reachable(self, todo):
        """local functions reachable from the tokenizer's own (closures are reached with the function they are written in)"""
        seen = {}
        todo = list(todo)
        while todo:
            f = todo.pop()
            if f.id in seen: continue
            seen[f.id] = f
            for b in f.blocks:
                if b["t"][0] == "call" and b["t"][1] in self.p.fns:
                    g = self.p.fns[b["t"][1]]
                    if g.local and g.has_body: todo.append(g)
            todo += [g for g in self.p.local if g.has_body and g.path.startswith(f.path + "::")]
        return list(seen.values())

    def called(self):
        """paths of the functions called"""
        for f in self.fns:
            for b in f.blocks:
                if b["t"][0] == "call":
                    t = b["t"][1]
                    if type(t) is str: yield t
                    elif t in self.p.fns: yield self.p.fns[t].path

    def char_classes(self):
        """the characters the functions' own tests can tell apart"""
        vals = set(); preds = list(PREDS)

        def c(x):
            if isinstance(x, (list, tuple)):
                if len(x) == 3 and x[0] == "k" and type(x[1]) is int and isinstance(x[2], dict) and type(x[2].get("s")) is int and \
                        0 <= x[1] < len(self.p.types) and self.p.types[x[1]]["k"] in ("char", "int"): vals.add(x[2]["s"])
                for v in x: c(v)
            elif isinstance(x, dict):
                for v in x.values(): c(v)
        for f in self.fns:
            for b in f.blocks:
                c(b["s"]); c(b["t"])
                if b["t"][0] == "switch":
                    for x in b["t"][2]: vals.add(x[0])
                elif b["t"][0] == "call" and b["t"][1] in self.p.fns:
                    q = self.p.fns[b["t"][1]].path
                    if "<impl char>::" in q:
                        q = q.split("::")[-1]
                        if q in PREDS_X: preds.append(PREDS_X[q])
                        elif q not in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_whitespace"): vals.update(range(128))
        cl = {}
        vs = sorted(v for v in vals if type(v) is int and 0 <= v < 128)
        import bisect
        for a in range(L.NATOMS):
            k = (bisect.bisect_left(vs, a), a in vs) if a < 128 else a
            if a < 128: k += tuple(bool(m >> a & 1) for m in preds)
            cl[k] = cl.get(k, 0) | 1 << a
        return list(cl.values())

    def strs(self, x, lits):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str): lits.add(x["str"])
            for v in x.values(): self.strs(v, lits)
        elif isinstance(x, list):
            for v in x: self.strs(v, lits)

    # --- reports ----------------------------------------------------------------------------------------------------
    def report(self, st, prop, rule, cat, detail, at=None):
        w = st.world
        if w.imp is not None:
            self.undecided.append("%s may be violated: %s: %s; not decided because of %s" % (prop, cat, detail, w.imp)); return
        key = (prop, rule, cat, at)
        if key in self.problems: return
        p = Problem()
        p.prop = prop; p.rule = rule; p.cat = cat; p.detail = detail; p.at = at; p.span = self.e.span(st); p.trace = self.trace_text(st)
        self.problems[key] = p

    def note(self, st, text): st.trace = (st.trace, text)

    def trace_text(self, st):
        ev = []
        t = st.trace
        while t is not None:
            ev.append(t); t = t[0]
        ev.reverse()
        masks = {}; order = []
        for e in ev:
            if len(e) == 3: masks[e[1]] = e[2]
        seen = set(); out = []
        pos = []

        def flush():
            if pos:
                out.append("characters " + " ".join("[%d] %s" % (p - BASE, L.mask_text(masks[p])) for p in pos)); pos.clear()
        for e in ev:
            if len(e) == 3:
                if e[1] not in seen and e[1] > 15: seen.add(e[1]); pos.append(e[1])
            else:
                flush(); out.append(e[1])
        flush()
        return out

    def on_panic(self, st, what, span):
        self.report(st, "L02", self.fname(st), "panic", "%s at %s" % (what, span), None)

    def fname(self, st): return st.frames[-1].fn.short if st.frames else "?"

    def on_unsupported(self, st, msg):
        self.undecided.append("%s: %s (%s)" % (self.fname(st), msg, self.e.span(st)))

    # --- reference machine ------------------------------------------------------------------------------------------
    def restrict(self, p, m):
        def alt(s):
            s.world.cells[p] = m
            s.trace = (s.trace, p, m)
        return alt

    def newcell(self, m):
        def alt(s):
            w = s.world
            w.cells[w.front] = m
            if m == EOFM: w.eof = w.front
            s.trace = (s.trace, w.front, m)
            w.front += 1
        return alt

    def settle(self, st):
        """the reference catches up with the tokenizer's read position"""
        ix = self.index(st)
        if ix and st.world.phase == "call": self.pump(st, min(ix))

    def step(self, st):
        """the reference advances until it has completed a piece of trivia"""
        w = st.world
        while w.m >= w.n and self.one(st): pass

    def pump(self, st, lim=INF * INF):
        """the reference advances over known characters, up to position lim"""
        w = st.world
        while (w.d < lim or w.core[0] == "DEC" or w.core[0] == "BOL" and w.d == lim and not w.cells.get(w.d, BLANKS) & BLANKS) and self.one(st): pass

    def one(self, st):
        """one transition of the reference; False when it has to wait"""
        w = st.world
        c = w.core
        if c[0] == "DONE": return False
        if c[0] == "DEC":
            if not self.pempty_R(st):
                w.core = ("MID",); return True
            return self.dec_step(st)
        m = w.cells.get(w.d)
        if m is None: return False
        parts = self.spec.partition(c, m)
        if len(parts) > 1: raise Fork([self.restrict(w.d, x[0]) for x in parts])
        core2, acts, cons = parts[0][1]
        self.act(st, core2, acts, cons)
        return True

    def act(self, st, core2, acts, cons):
        w = st.world
        # questions that need a fork come first
        sig = None; top = None
        for a in acts:
            if type(a) is not tuple: continue
            if a[0] == "newline": sig = w.code and self.pempty_R(st)
            if a[0] == "close": top = self.ptop_R(st)
        w.steps += 1
        nxt = None
        for a in acts:
            k = a if type(a) is str else a[0]
            if k == "col": w.C += 1
            elif k == "tab": w.C = (w.C // TAB + 1) * TAB
            elif k == "zero": w.C = 0; w.rel = {}; self.forget(w, "C", "O")
            elif k == "item": w.item = w.d
            elif k == "emit":
                e = w.d + a[2]
                if a[1] == "Comment": w.com = (w.item, e, w.core[2])
                self.emit(w, (a[1], w.item, e, a[3]))
            elif k == "com": pass
            elif k == "newline":
                e = w.d + a[1]
                if sig:
                    w.outc = ("tok", "Newline", w.item, e, "", a[2]); core2 = ("DONE",); w.nxt = ("BOL",); w.bsn = w.bs
                else:
                    self.emit(w, ("Newline", w.item, e, a[2])); core2 = ("BOL",)
                w.code = False; w.C = 0; w.rel = {}; w.popped = False; w.bs = None; self.forget(w, "C", "O")
            elif k == "tok":
                off = a[2]
                kind = a[1]
                end = w.mark if off == "e" else w.d + off
                start = w.item if kind == "TypeComment" else w.d if kind == "EOF" else w.lex
                if kind == "TypeComment":
                    w.com = (w.item, end, w.core[2]); w.code = True; w.bs = None
                w.nxt = ("MID",)
                w.outc = ("tok", kind, start, end, a[3] if len(a) > 3 else "", None)
            elif k == "err": w.outc = ("err", a[1], a[2])
            elif k == "unspecified": w.outc = ("any",)
            elif k == "errok": w.errok = True
            elif k == "bs": w.code = True; w.bs = "only"
            elif k == "lex": w.lex = w.d; w.code = True; w.bs = w.item = w.com = None; w.C = 0; w.rel = {}; w.hist = ()
            elif k == "quote": w.quote = w.d
            elif k == "mark": w.mark = w.d
            elif k == "text": w.hist = (w.hist + ((w.d + cons, a[1]),))[-3:]
            elif k == "open": w.rP = (w.rP[0], w.rP[1] + (a[1],))
            elif k == "close":
                if top == a[1]:
                    if w.rP[1]: w.rP = (w.rP[0], w.rP[1][:-1])
                    else: w.rP = (w.rP[0] + 1, ())
                    w.outc = ("tok", a[2], w.lex, w.d + 1, "", None); w.nxt = ("MID",)
                else:
                    w.outc = ("err", "L07", "the innermost open bracket is %s" % (top[0] if top else "none"))
            else: raise Unsupported("reference action " + k)
        if core2 == ("NL",): core2 = ("BOL",)
        if w.core[0] == "COM" and core2[0] != "COM": w.item = w.item
        w.core = core2
        w.d += cons

    def emit(self, w, it):
        w.q = w.q + (it,); w.n += 1

    # brackets: base knowledge P = (kinds from the top of the base, '?' where only its existence is known; closed)
    def pexists(self, st, k):
        """has the base an element k?"""
        known, closed = st.world.P
        if k < len(known): return True
        if closed: return False
        raise Fork([self.pset(known, True), self.pset(known + ('?',), False)])

    def pknow(self, st, k):
        """kind of base element k, or None when the base has no such element"""
        if not self.pexists(st, k): return None
        known, closed = st.world.P
        if known[k] != '?': return known[k]
        if len(self.gmap) < 3:
            # not all three kinds of bracket have been seen being remembered yet (the analysis starts over when one is)
            self.fewgmap = True
            if not self.gmap: raise Stop()
        raise Fork([self.pset(known[:k] + (x,) + known[k + 1:], closed) for x in sorted(self.gmap)])

    @staticmethod
    def pset(known, closed):
        def alt(s): s.world.P = (known, closed)
        return alt

    def pempty_R(self, st):
        n, pu = st.world.rP
        return not pu and not self.pexists(st, n)

    def ptop_R(self, st):
        n, pu = st.world.rP
        if pu: return pu[-1]
        return self.pknow(st, n)

    # levels: base knowledge I = (number of elements known to exist, closed)
    def iexists(self, st, k):
        n, closed = st.world.I
        if k < n: return True
        if closed: return False

        def a1(s): s.world.I = (s.world.I[0], True)

        def a2(s): s.world.I = (s.world.I[0] + 1, False)
        raise Fork([a1, a2])

    def interval(self, st, k):
        """what is known about C - level k"""
        w = st.world
        r = w.rel.get(k)
        if r is not None: return r
        if not self.iexists(st, k): raise Unsupported("level below the lowest")
        if not self.iexists(st, k + 1): return (w.C, w.C)
        hi = w.C - 1 if w.C < self.T + TAB else INF
        lo = -INF
        if k - 1 in w.rel and w.rel[k - 1][0] > -INF: lo = w.rel[k - 1][0] + 1
        return (lo, hi)

    def split(self, st, k, t):
        """sign of (C - level k) - t; forks when not known"""
        lo, hi = self.interval(st, k)
        if hi < t: return -1
        if lo > t: return 1
        if lo == hi == t: return 0
        alts = []
        for a, b in ((lo, t - 1), (t, t), (t + 1, hi)):
            if a <= b: alts.append(self.setrel(k, max(a, lo), min(b, hi)))
        raise Fork(alts)

    @staticmethod
    def setrel(k, a, b):
        def alt(s): s.world.rel[k] = (a, b)
        return alt

    def dec_step(self, st, force=False):
        """One step of the indentation decision; False when it has to wait for the tokenizer to compare columns."""
        w = st.world
        n, pu = w.rI
        if pu: raise Unsupported("reference level state")
        if n not in w.rel and not force and not self.known_bottom(w, n) and w.I[0] <= n + 1:
            return False
        if force: s = self.split(st, n, 0)
        else:
            lo, hi = self.interval(st, n)
            if hi < 0: s = -1
            elif lo > 0: s = 1
            elif lo == hi == 0: s = 0
            else: return False
        if w.decn is None: w.decn = w.n
        if s == 0:
            w.core = ("MID",); w.popped = False
            if not w.owed: w.decn = None
        elif s < 0:
            w.rI = (n + 1, ()); w.owed -= 1; w.popped = True; w.bs = w.bs and "level"
        elif w.popped:
            w.outc = ("err", "L08", "the column matches no enclosing level"); w.core = ("DONE",); w.nxt = None
        else:
            w.rI = (n, (w.C,)); w.owed += 1; w.core = ("MID",); w.bs = w.bs and "level"
        return True

    def known_bottom(self, w, k): return w.I[1] and k == w.I[0] - 1

    # --- revealing the source ---------------------------------------------------------------------------------------
    def reveal(self, st, p):
        w = st.world
        if w.eof is not None and p >= w.eof or p < w.front: return
        if w.eof is not None: raise Unsupported("read beyond the end")
        raise Fork([self.newcell(EOFM), self.newcell(NEOF)])

    def iseof(self, st, p):
        w = st.world
        if p < w.d: return False
        self.reveal(st, p)
        return w.eof is not None and p >= w.eof

    def mask(self, st, p):
        w = st.world
        m = w.cells.get(p)
        if m is not None: return m
        if p >= w.front: self.reveal(st, p)
        m = w.cells.get(p)
        if m is None:
            self.imprecise(st, "a character read again long after it was passed")
            m = w.cells[p] = NEOF
        return m

    def imprecise(self, st, why):
        if st.world.imp in (None, LENGTH): st.world.imp = why

    def choose(self, st, why, n=2):
        w = st.world
        if w.orc is not None:
            v = w.orc; w.orc = None; return v

        def mk(i):
            def alt(s):
                s.world.orc = i
                self.imprecise(s, why)
            return alt
        raise Fork([mk(i) for i in range(n)])

    def free(self, st, why, n): return self.feasible(st, n)

    def feasible(self, st, n=2):
        """like choose, for an outcome every one of which does occur for some text leading here"""
        w = st.world
        if w.orc is not None:
            v = w.orc; w.orc = None; return v

        def mk(i):
            def alt(s): s.world.orc = i
            return alt
        raise Fork([mk(i) for i in range(n)])

    def passes(self, st, key, t, why):
        """Is a quantity that can grow without bound, counted from a base of unknown size, at least t?  Its first time of being so
        occurs for sources that repeat what made it grow; what happens to it afterwards is not followed."""
        w = st.world
        lo = hi = None
        for k, a, b in w.pk:
            if k == key: lo, hi = a, b
        if t >= HUGE: return False             # sources have fewer characters than that
        if lo is not None and t <= lo: w.orc = None; return True
        if hi is not None and t >= hi: w.orc = None; return False
        big = bool(self.choose(st, why) if key in w.pbig else self.feasible(st))
        if big:
            lo = t
            if key not in w.pbig: w.pbig = tuple(sorted(w.pbig + (key,)))
        else: hi = t
        w.pk = tuple(sorted([x for x in w.pk if x[0] != key] + [(key, lo, hi)], key=lambda x: x[0]))
        return big

    @staticmethod
    def forget(w, *keys):
        if w.pk: w.pk = tuple(x for x in w.pk if x[0] not in keys)
        if w.pbig and keys[0] in "COL": w.pbig = tuple(x for x in w.pbig if x not in keys)

    def growing(self, st, v):
        """(name, repetition) when the number v stands for larger ones too"""
        w = st.world
        if w.C >= self.T and abs(v - w.C) <= 4 and v >= self.T - 4: return "C", "a column"
        if w.owed <= -self.OT and (abs(v - w.owed) <= 1 or abs(v + w.owed) <= 1): return "O", "the number of dedents owed"
        return None

    def narrow(self, st, a, it):
        """a number converted to (or computed in) a type of few bits"""
        if it[1] >= 32: return None
        if ispos(a): return OPT_X
        g = self.growing(st, a)
        if g is None: return None
        n = 1 << it[1] - (1 if it[0] else 0)
        if abs(a) >= n: return OPT_X
        if self.passes(st, g[0], n - abs(a), "%s converted to %d bits" % (g[1], it[1])): return OPT_X
        return None

    def overflow(self, st, op, n, it):
        if it[1] >= 32: return False
        g = self.growing(st, n)
        m = 1 << it[1] - (1 if it[0] else 0)
        if g is None or abs(n) >= m: return False
        return self.passes(st, g[0], m - abs(n), "%s counted in %d bits" % (g[1], it[1]))

    def threeway_ok(self, a, b):
        if type(a) is int and type(b) is int and ispos(a) != ispos(b): raise Unsupported("three-way comparison of a position")

    # --- scalar operations ------------------------------------------------------------------------------------------
    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
           "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
    FLIP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}

    def int_hook(self, st, op, a, b, ty):
        if type(a) is not int or type(b) is not int: return None
        pa = LO <= a < HI; pb = LO <= b < HI
        if not pa and not pb:
            if op not in self.CMP or st.world.C < self.T and st.world.owed > -self.OT: return None
            ga = self.growing(st, a); gb = self.growing(st, b)
            if (ga is None) == (gb is None): return None
            if ga is None: a, b, op, ga = b, a, self.FLIP[op], gb
            if ga[0] == "O" and a < 0: a, b, op = -a, -b, self.FLIP[op]
            if b < (self.T if ga[0] == "C" else self.OT): return None
            why = "%s compared with %d" % (ga[1], b)
            if op in ("Lt", "Ge"): r = self.passes(st, ga[0], b - a, why)
            elif op in ("Le", "Gt"): r = self.passes(st, ga[0], b + 1 - a, why)
            elif not self.passes(st, ga[0], b - a, why): r = 1
            else: r = self.passes(st, ga[0], b + 1 - a, why)
            return int(r) if op in ("Ge", "Gt", "Ne") else int(not r)
        if pa and pb:
            if op in self.CMP: return None
            if op[:3] == "Sub":
                d = a - b
                return None if d < 2 or d < CAP and b >= self.near(st) else ('BIG',)
            raise Unsupported("%s of two positions" % op)
        if op in self.CMP:
            if pb: a, b, op = b, a, self.FLIP[op]
            off = a - BASE
            if off < 4 or off < 0: return int(self.CMP[op](off, b))
            if b < 4: return int(self.CMP[op](1 << 40, b))
            why = "a position compared with the constant %d" % b
            if b < 16 or op in ("Eq", "Ne"): return self.choose(st, why)
            return int(self.passes(st, "X", b + (op in ("Le", "Gt")) - off, why) == (op in ("Ge", "Gt")))
        if op[:3] in ("Add", "Sub") and (pa or op[:3] == "Add"): return None
        raise Unsupported("%s of a position" % op)

    def chset(self, op, c):
        """(true, false, unknown) masks of `character op c`"""
        t = f = u = 0
        cls = L.category(c) if 128 <= c < 0x110000 and not 0xd800 <= c < 0xe000 else None
        for a in range(L.NATOMS):
            if a == L.EOF: continue
            if a < 128: r = self.CMP[op](a, c)
            elif c < 128: r = self.CMP[op](1 << 20, c)
            else:
                lo, hi = L.RANGE[a][0]
                if op in ("Eq", "Ne"):
                    if L.CATS.get(a, a) == cls and lo <= c <= hi:
                        if lo < hi: u |= 1 << a; continue
                        r = op == "Eq"
                    else: r = op == "Ne"
                else:
                    r = self.CMP[op](lo, c)
                    if r != self.CMP[op](hi, c): u |= 1 << a; continue
            if r: t |= 1 << a
            else: f |= 1 << a
        return t, f, u

    def chtest(self, st, p, sets, why):
        """result index of a test on the character at p given the masks of its outcomes (last mask: unknown)"""
        m = self.mask(st, p)
        parts = [(i, m & s) for i, s in enumerate(sets) if m & s]
        if not parts: raise Stop()
        if len(parts) > 1: raise Fork([self.restrict(p, x) for i, x in parts])
        i = parts[0][0]
        if i == len(sets) - 1: return (self.choose if p > 15 else self.free)(st, why, len(sets) - 1)
        return i

    def chcmp(self, st, op, p, c):
        t, f, u = self.chset(op, c)
        return 1 - self.chtest(st, p, (t, f, u), "a comparison with a non-ASCII character")

    def binop(self, st, op, a, b, ty):
        if type(a) is tuple and a[0] == 'EP':
            if op == "Offset" and type(b) is int: return a[:2] + (a[2] + b,)
            if op in self.CMP and type(b) is tuple and b[:2] == a[:2]:
                return int({"Eq": a[2] == b[2], "Ne": a[2] != b[2], "Lt": a[2] < b[2], "Le": a[2] <= b[2], "Gt": a[2] > b[2], "Ge": a[2] >= b[2]}[op])
            raise Unsupported("%s of element pointers" % op)
        if op in self.CMP:
            if type(a) is int and type(b) is tuple: a, b, op = b, a, self.FLIP[op]
            k = a[0] if type(a) is tuple else None
            if k == 'ch':
                if type(b) is int: return self.chcmp(st, op, a[1], b)
                if type(b) is tuple and b[0] == 'ch':
                    if a[1] == b[1]: return int(op in ("Eq", "Le", "Ge"))
                    m1 = self.mask(st, a[1]); m2 = self.mask(st, b[1])
                    if bin(m1).count("1") > bin(m2).count("1"): a, b, op = b, a, self.FLIP[op]; m1, m2 = m2, m1
                    l = [x for x in range(128) if m1 >> x & 1]
                    if m1 >> 128 or len(l) > 16: return self.choose(st, "a comparison of two characters")
                    if len(l) > 1: raise Fork([self.restrict(a[1], 1 << x) for x in l])
                    return self.chcmp(st, self.FLIP[op], b[1], l[0])
            if k == 'LEN' or type(b) is tuple and b[0] == 'LEN':
                if k == 'LEN': a, b, op = b, a, self.FLIP[op]
                if ispos(a): return self.poslen(st, op, a - b[1])
                if type(a) is int and type(b) is tuple:      # constant compared with the number of characters
                    n = a - b[1]
                    # position BASE + n against the end
                    if n < 0: return int(op in ("Lt", "Le", "Ne"))
                    if n < 4 and st.world.d - BASE < 4: return self.poslen(st, op, BASE + n)
                    why = "the number of characters compared with a constant"
                    if n < 16 or op in ("Eq", "Ne"): return self.choose(st, why)
                    # n against the number of characters
                    return int(self.passes(st, "N", n + (op in ("Lt", "Ge")), why) == (op in ("Lt", "Le")))
                if type(a) is tuple and a[0] == 'LEN': return int(self.CMP[op](a[1], b[1]))
            if k == 'BLEN' or type(b) is tuple and b[0] == 'BLEN':
                if k == 'BLEN': a, b, op = b, a, self.FLIP[op]
                return self.bytelen(st, op, a)
            if k == 'BIG':
                if type(b) is int and b < CAP: return int(self.CMP[op](CAP, b))
                return self.choose(st, "a distance compared with a constant")
            if k == 'lv':
                if type(b) is int:
                    w = st.world
                    self.settle(st)
                    if b == w.C and w.core[0] in SKIP + ("DEC",) or b != 0 and abs(b - w.C) <= 4:
                        s = self.split(st, a[1], w.C - b)
                        # s = sign of (C - level) - (C - b) = sign of b - level
                        self.settle(st)
                        return int(self.CMP[op](0, s))
                    if b == 0:
                        bot = not self.iexists(st, a[1] + 1)
                        return int(self.CMP[op](0 if bot else 1, 0))
                    return self.lvconst(st, op, a[1], b)
                if type(b) is tuple and b[0] == 'lv':
                    return int(self.CMP[op](b[1], a[1]))
            if k == 'VL':
                if type(b) is int: return self.lencmp(st, op, a, b)
                if b == a: return int(op in ("Eq", "Le", "Ge"))
            if k == 'MANY':
                if type(b) is int and b <= 1: return int(self.CMP[op](2, b))
                if type(b) is int and b == 2 and op in ("Lt", "Ge"): return int(op == "Ge")
                if type(b) is int and b <= 5: return self.feasible(st)
                return self.choose(st, "the number of collected trivia compared with a constant")
            if k == 'CT' and type(b) is int:
                if b < MANYC: return int(self.CMP[op](MANYC, b))
                why = "a counter compared with %d" % b
                if op in ("Eq", "Ne"):
                    return int((self.passes(st, "K", b, why) and not self.passes(st, "K", b + 1, why)) == (op == "Eq"))
                return int(self.passes(st, "K", b + (op in ("Le", "Gt")), why) == (op in ("Ge", "Gt")))
            if k == 'BL' and type(b) is int:
                w = st.world
                lo, hi = a[1:]
                if b < 32 or hi - lo < CAP or op in ("Eq", "Ne"): return self.choose(st, LENGTH)
                if w.pl != lo: self.forget(w, "L"); w.pl = lo
                return int(self.passes(st, "L", b + (op in ("Le", "Gt")) - (hi - lo), LENGTH) == (op in ("Ge", "Gt")))
            if k == 'X' or type(b) is tuple and b[0] == 'X':
                return self.choose(st, "an unknown value")
        else:
            if type(a) is tuple and a[0] in ('LEN', 'VL') and type(b) is int and op[:3] in ("Add", "Sub"):
                s = b if op[:3] == "Add" else -b
                return a[:-1] + (a[-1] + s,)
            if ispos(a) and type(b) is tuple and b[0] == 'LEN' and op[:3] == "Sub": return OPT_X
            if type(a) is tuple and a[0] == 'LEN' and ispos(b) and op[:3] == "Sub":
                w = st.world
                p = b - a[1]
                for i in range(CAP):
                    if self.iseof(st, p + i): return i
                return ('BIG',)
            if type(a) is tuple and a[0] == 'CT' and type(b) is int and abs(b) < 8 and op[:3] in ("Add", "Sub"): return a
            if type(a) is tuple and a[0] in ('BIG', 'X', 'MANY', 'BL', 'CT', 'BLEN') or type(b) is tuple and b[0] in ('BIG', 'X', 'MANY', 'BL', 'CT', 'BLEN'): return OPT_X
        raise Unsupported("%s of %r and %r" % (op, a, b))

    def lvconst(self, st, op, k, b):
        """Level k of the enclosing blocks compared with a constant that is far from the column."""
        why = "an indentation level compared with %d" % b
        if b < 16: return self.choose(st, why)
        if not self.iexists(st, k + 1): return int(self.CMP[op](0, b))
        if op in ("Lt", "Ge"): r = self.lvreaches(st, k, b, why)
        elif op in ("Le", "Gt"): r = self.lvreaches(st, k, b + 1, why)
        else:
            lo, hi = self.lvbounds(st, k)
            if hi < b or lo > b: return int(op == "Ne")
            return self.choose(st, why)
        return int(r == (op in ("Ge", "Gt")))

    def lvbounds(self, st, k):
        """least and greatest value level k can have"""
        w = st.world
        n, m = self.interval(st, k)           # bounds of the column less the level
        lo, hi = 1, INF
        cl = ch = w.C
        if w.C >= self.T:
            x, y = next(((x, y) for q, x, y in w.pk if q == "C"), (None, None))
            cl += x or 0; ch = INF if y is None else w.C + y - 1
        if m < INF: lo = max(lo, cl - m)
        if n > -INF and ch < INF: hi = min(hi, ch - n)
        for q, x, y in w.pk:
            if q[0] == "V":
                i = int(q[1:])                # level i is level k, within it (i < k) or around it
                if i >= k and x is not None: lo = max(lo, x + i - k)
                if i <= k and y is not None: hi = min(hi, y - 1 - (k - i))
        return lo, hi

    def lvreaches(self, st, k, t, why):
        """Is level k at least t?  A level not tied to a column that is known can be of either kind."""
        w = st.world
        lo, hi = self.lvbounds(st, k)
        if t <= lo: w.orc = None; return True
        if t > hi: w.orc = None; return False
        n, m = self.interval(st, k)
        if n == m and w.C >= self.T: return self.passes(st, "C", t + n - w.C, why)
        big = bool(self.feasible(st) if m == INF or n == -INF else self.choose(st, why))
        key = "V%d" % k
        x, y = next(((x, y) for q, x, y in w.pk if q == key), (None, None))
        w.pk = tuple(sorted([z for z in w.pk if z[0] != key] + [(key, t, y) if big else (key, x, t)], key=lambda z: z[0]))
        return big

    def poslen(self, st, op, p):
        """position p compared with the number of characters"""
        if not self.iseof(st, p): s = -1
        else: s = 0 if p <= BASE or p <= st.world.d and p == st.world.eof or not self.iseof(st, p - 1) else 1
        return int(self.CMP[op](s, 0))

    def bytelen(self, st, op, a):
        """a position, a constant or the number of characters compared with the number of bytes: as many as the characters when
        the source is ASCII, any number more (some character of it, possibly far behind, takes several) when it is not"""
        w = st.world
        if type(a) is tuple and a[0] == 'BLEN': return int(op in ("Eq", "Le", "Ge"))
        if type(a) is tuple and a[0] != 'LEN' or w.phase == "new": return self.choose(st, "the number of bytes of the source")
        if type(a) is int and not ispos(a): return self.choose(st, "the number of bytes of the source")
        if ispos(a) and not self.iseof(st, a): return int(self.CMP[op](-1, 0))
        if w.wide is None:
            def mk(i):
                def alt(s): s.world.wide = i
                return alt
            raise Fork([mk(0), mk(1)])
        if w.wide: return int(self.CMP[op](-1, 0))
        if ispos(a): return self.poslen(st, op, a)
        return int(self.CMP[op](a[1], 0))

    def lencmp(self, st, op, a, b):
        """length of a stack (base + offset) compared with a constant"""
        role, off = a[1], a[2]
        t = b - off                       # base length compared with t
        mn = 1 if role == 'I' else 0
        # find out whether the base length is below, at or above t
        k = 0
        ex = (lambda i: self.iexists(st, i)) if role == 'I' else (lambda i: self.pexists(st, i))
        if t < mn: s = 1
        else:
            have = st.world.I[0] if role == 'I' else len(st.world.P[0])
            if t > 6 + have and not (st.world.I if role == 'I' else st.world.P)[1]:
                why = "the depth of a stack compared with %d" % b
                if op in ("Lt", "Ge"): return int(self.passes(st, role, t, why) == (op == "Ge"))
                if op in ("Le", "Gt"): return int(self.passes(st, role, t + 1, why) == (op == "Gt"))
                return int((self.passes(st, role, t, why) and not self.passes(st, role, t + 1, why)) == (op == "Eq"))
            n = min(have, t + 1)
            while n <= t and ex(n): n += 1
            s = -1 if n < t else 0 if n == t else 1
        return int(self.CMP[op](s, 0))

    def cbinop(self, st, op, a, b, ty):
        if type(a) is tuple and a[0] == 'VL' and op[:3] == "Sub" and type(b) is int:
            if self.lencmp(st, "Lt", a, b): return ('T', (OPT_X, 1))
            return ('T', (a[:2] + (a[2] - b,), 0))
        if type(a) is tuple and a[0] == 'LEN' and op[:3] == "Sub" and type(b) is int:
            w = st.world
            if w.d - BASE >= b and a[1] >= 0: return ('T', (('LEN', a[1] - b), 0))
            if self.iseof(st, BASE + b - 1 - a[1]): return ('T', (OPT_X, 1))
            return ('T', (('LEN', a[1] - b), 0))
        if type(a) is tuple and a[0] == 'CT' and op[:3] == "Add":
            it = self.e.int_ty(ty)
            if it and it[1] < 32 and self.passes(st, "K", (1 << it[1] - (1 if it[0] else 0)) - 1, "a counter of %d bits" % it[1]): return ('T', (OPT_X, 1))
        return ('T', (self.binop(st, op, a, b, ty), 0))

    def unop(self, st, op, a, ty):
        if type(a) is tuple and a[0] == 'X': return OPT_X
        raise Unsupported("%s of %r" % (op, a))

    def cast(self, st, kind, a, ty):
        if type(a) is tuple:
            if a[0] in ('LEN', 'X', 'BIG', 'VL', 'MANY', 'lv', 'BL', 'CT', 'BLEN'):
                it = self.e.int_ty(ty)
                if it and it[1] < 32:
                    if a[0] != 'VL' or self.lencmp(st, "Ge", a, 1 << it[1] - (1 if it[0] else 0)): return OPT_X
                return a
            if a[0] == 'ch':
                it = self.e.int_ty(ty)
                if it and it[1] >= 32: return a
                m = self.mask(st, a[1])
                t = sum(1 << i for i in range(128))
                if m & ~t: return OPT_X if not m & t else self._fork2(a[1], m, t)
                return a
            if a[0] in ('SRC', 'S', 'SL', 'SRCSTR', 'V', 'TV', 'EP', 'SB', 'ALT', 'VP'): return a
        raise Unsupported("cast %s of %r" % (kind, a))

    def _fork2(self, p, m, t): raise Fork([self.restrict(p, m & t), self.restrict(p, m & ~t)])

    def switch(self, st, v, values, exhaustive):
        if type(v) is tuple:
            if v[0] == 'ch':
                sets = []; used = 0
                for x in values:
                    s = 1 << x if x < 128 else 0
                    if x >= 128:
                        s, f, u = self.chset("Eq", x)
                        if u & self.mask(st, v[1]): raise Unsupported("match on a non-ASCII character")
                    sets.append(s); used |= s
                sets.append(NEOF & ~used); sets.append(0)
                i = self.chtest(st, v[1], sets, "")
                return i if i < len(values) else -1
            if v[0] in ('X', 'MANY', 'BIG', 'lv', 'VL', 'LEN', 'CT', 'BLEN'):
                for i, x in enumerate(values):
                    if v[0] == 'X': break
                    if self.binop(st, "Eq", v, x, None): return i
                else: return -1
                n = len(values) + (0 if exhaustive else 1)
                i = self.choose(st, "a match on an unknown value", n)
                return i if i < len(values) else -1
        raise Unsupported("switch on %r" % (v,))

    def discr(self, st, v):
        if v == OPT_X: return OPT_X
        raise Unsupported("discriminant of %r" % (v,))

    def deref(self, st, v):
        if type(v) is tuple:
            if v[0] in ('S', 'SRC', 'SL', 'X', 'SRCSTR', 'SB', 'ALT', 'CHARS', 'LINES', 'SPLIT', 'AD', 'PK'): return ('V', v), ()
            if v[0] == 'EP' and 0 <= v[2] < len(self.tables_l[v[1]]): return ('V', self.tables_l[v[1]][v[2]]), ()
        return None

    def proj(self, st, v, s):
        if type(v) is tuple:
            if v[0] == 'X': return OPT_X
            if v[0] == 'EP': return v
            if v[0] in ('SRC', 'SL') and type(s) is tuple and s[0] == 'e': return self.at(st, v, s[1])
        raise Unsupported("projection %r of %r" % (s, v))

    def set_proj(self, st, v, path, new, e):
        if v == OPT_X: return v
        raise Unsupported("write into %r" % (v,))

    def length(self, st, v):
        if type(v) is tuple:
            if v[0] == 'SRC': return ('LEN', 0)
            if v[0] == 'V': return self.vlen(v)
            if v[0] == 'TV': return self.tvlen(st, v)
            if v[0] == 'T': return len(v[1])
            if v[0] == 'SL':
                d = v[2] - v[1] if ispos(v[2]) else None
                return OPT_X if d is None else d if d < CAP else ('BIG',)
        raise Unsupported("length of %r" % (v,))

    def at(self, st, v, i):
        lo = BASE
        if v[0] == 'SL':
            if type(i) is not int or ispos(i): raise Unsupported("index into a slice")
            return ('ch', v[1] + i)
        if ispos(i): return ('ch', i)
        if type(i) is int and st.world.front - BASE < 4: return ('ch', BASE + i)
        raise Unsupported("source indexed with %r" % (i,))

    def clone(self, st, v): return v

    def static(self, c): raise Unsupported("static item")

    # --- stacks -----------------------------------------------------------------------------------------------------
    def vlen(self, v):
        if v[1] not in ('P', 'I'): return len(v[3])
        return ('VL', v[1], len(v[3]) - v[2])

    def vtop(self, st, v):
        """top element or None"""
        if v[3]: return v[3][-1]
        if v[1] not in ('P', 'I'): return None
        if v[1] == 'P':
            k = self.pknow(st, v[2])
            return None if k is None else self.gmap[k]
        if not self.iexists(st, v[2]): return None
        return ('lv', v[2])

    def vpop(self, v):
        if v[3]: return ('V', v[1], v[2], v[3][:-1])
        return ('V', v[1], v[2] + 1, ())

    def tvlen(self, st, v):
        if v[1] == v[2]: return 0
        n = st.world.tvn
        if n is None:
            def one(s): s.world.tvn = 1

            def more(s): s.world.tvn = 2
            raise Fork([one, more])
        return 1 if n == 1 else ('MANY',)

    # --- canonical form ---------------------------------------------------------------------------------------------
    def canon_int(self, st, v):
        if LO <= v < HI: return ('@p', v)
        w = st.world
        if v == w.C and v: self._usesC = True
        if w.C >= self.T and w.C - 4 <= v <= w.C + 4 and v >= self.T - 4:
            self._usesC = True
            return ('@c', v - w.C)
        if w.owed <= -self.OT:
            if abs(v - w.owed) <= 1: return ('@o', v - w.owed)
            if v >= self.OT and abs(v + w.owed) <= 1: return ('@n', v + w.owed)
        return v

    def canon(self, st, v, ren):
        k = v[0]
        w = st.world
        if k == 'ch':
            if v[1] < 16: return v
            self._ch.add(v[1]); return ('ch', ('@p', v[1]))
        if k == 'S': return ('S', tuple((s[0], ('@p', s[1]), ('@p', s[2])) if s[0] == 'src' else s for s in v[1]))
        if k == 'SL': return ('SL', ren.val(v[1]), ren.val(v[2]))
        if k == 'AD': return ('AD', v[1], tuple((x, ren.val(y)) for x, y in v[2]))
        if k == 'EX': return ('EX', tuple(ren.val(x) for x in v[1]))
        if k == 'V':
            if v[1] not in ('P', 'I'): return ('V', v[1], 0, tuple(ren.val(x) for x in v[3]))
            r = (w.rP if v[1] == 'P' else w.rI)[0]
            m = min(v[2], r)
            o = self._m.setdefault(v[1], m)
            if o != m: raise Unsupported("two copies of a stack")
            return ('V', v[1], v[2] - m, tuple(ren.val(x) for x in v[3]))
        if k == 'TV':
            return ('TV', min(v[2] - v[1], 1), v[2] == v[1] or v[2] == w.m, v[1] == w.k0 or v[2] == v[1], v[3])
        if k == 'lv': return ('lv', v[1] - w.rI[0])
        if k == 'BL': return ('BL', ('@p', v[1]), ('@p', v[2]))
        if k == 'VL': return ('VL', v[1], v[2] + (w.rP if v[1] == 'P' else w.rI)[0])
        if k == 'R2': return ('R2',) + tuple(ren.val(x) for x in v[1:])
        return v

    def near(self, st): return min([st.world.d] + self.index(st))

    def pos(self, p): return None if p is None else ('@p', p)

    def world_canon(self, st, ren): return ()

    def canon_tail(self, st, ren):
        w = st.world
        pos = self.pos
        mP = self._m.get('P', w.rP[0]); mI = self._m.get('I', w.rI[0])
        ch = self._ch; self._ch = set(); self._m = {}
        idx = self.index(st)
        keep = {}
        low = min([w.d] + idx)
        # the reference is done and the tokenizer reads on: what lies between no longer matters
        if idx and w.core[0] == "DONE" and min(idx) > w.d + (2 if w.outc is not None and w.outc[0] != "tok" else 8): low = min(idx)
        for p, m in w.cells.items():
            if p >= low or p in ch or p == w.d or p < 16: keep[p] = m
        w.cells = keep
        if w.hist:
            lo = min([w.d] + idx)
            w.hist = tuple(x for x in w.hist if x[0] >= lo) if w.core[0] == "id" else tuple(
                (a, b if b in self.spec.whole else None) for a, b in w.hist if a >= lo)
        useC = self._usesC or w.core[0] in ("BOL", "DEC") or w.owed or riu_(w)
        self._usesC = False
        C = -1 if not useC else w.C if w.C < self.T else ('C', (w.C - self.T) % TAB)
        ow = w.owed if w.owed > -self.OT else '-'
        o = w.outc
        if o is not None and o[0] == "tok": o = ("tok", o[1], pos(o[2]), pos(o[3]), o[4], o[5])
        elif o is not None and o[0] == "err": o = ("err", o[1])
        rp, rpu = w.rP; ri, riu = w.rI
        return (w.core, w.nxt, pos(w.item), pos(w.lex), pos(w.quote), pos(w.mark), w.code, C, ow, w.popped, w.tvn, w.bs, w.bsn,
                w.P[0][mP:], w.P[1], rp - mP, rpu, max(w.I[0] - mI, 0), w.I[1], ri - mI, tuple(ren.val(x) for x in riu),
                tuple(sorted((k - mI, v) for k, v in w.rel.items() if k >= mI)) if useC else (),
                tuple((i[0], pos(i[1]), pos(i[2]), i[3]) for i in w.q), min(w.m - w.k0, 1), None if w.decn is None else max(min(w.decn - w.m, 3), -2),
                None if w.decn is None else min(w.decn - w.k0, 1),
                o, w.errok, w.pk and tuple((k, lo is None, hi is None) for k, lo, hi in w.pk), w.pbig, w.wide, w.imp is not None, tuple((pos(a), b) for a, b in w.hist),
                None if w.com is None else (pos(w.com[0]), pos(w.com[1]), w.com[2]), w.phase if w.phase != 'new' else (w.gen, w.fin, ren.val(w.col) if w.col else w.part and ren.val(w.part)), w.lim and pos(w.lim), bool(idx) and idx[0] == w.start, w.tok, w.orc, w.last,
                pos(w.d), pos(w.front), w.eof is not None and pos(w.eof), min(w.d - BASE, 4),
                tuple((('@p', p) if p > 15 else p, self.coarse(w, p, m)) for p, m in sorted(keep.items())))

    def coarse(self, w, p, m):
        """letters of a name the source's own tests cannot tell apart are one class once the reference has passed them"""
        if w.lex is None or not w.lex <= p < w.d: return m
        if w.core[0] != "id" and not (w.outc is not None and w.outc[0] == "tok" and L.prop_of(w.outc[1]) == "L04"): return m
        r = self.coarse_cache.get(m)
        if r is None:
            r = 0
            for x in self.classes:
                if x & m: r |= x
            self.coarse_cache[m] = r
        return r

    def remap(self, st, key):
        ps = set()

        def find(x):
            for y in x:
                if type(y) is tuple:
                    if y and y[0] == '@p': ps.add(y[1])
                    else: find(y)
        find(key)
        r = {}; last = None; n = 0; near = self.near(st)
        for p in sorted(ps):
            if last is not None: n += min(p - last, CAP if last >= near else 2)
            r[p] = ('@', n); last = p

        def sub(x):
            out = []
            for y in x:
                if type(y) is tuple:
                    if y and y[0] == '@p': out.append(r[y[1]])
                    else: out.append(sub(y))
                elif type(y) is frozenset: out.append(tuple(sorted(y)))
                else: out.append(y)
            return tuple(out)
        key = sub(key)
        return key if RAW_KEYS else hashlib.blake2b(marshal.dumps(key, 2), digest_size=16).digest()

    def index(self, st):
        """integer fields beside the character vector: the read position"""
        if self.TOK is None or self.TOK not in st.heap: return []
        out = []

        def src(v):
            if type(v) is tuple:
                if v[0] == 'SRC': return True
                if v[0] == 'B' and v[1] in st.heap:
                    x = st.heap[v[1]]
                    return type(x) is tuple and x[0] == 'SRC'
            return False

        def go(v, depth):
            if type(v) is not tuple or depth > 6: return
            if v[0] == 'A':
                if any(src(x) for x in v[3]): out.extend(x for x in v[3] if ispos(x))
                for x in v[3]: go(x, depth + 1)
            elif v[0] == 'B' and v[1] in st.heap: go(st.heap[v[1]], depth + 1)
        go(st.heap[self.TOK], 0)
        return out

    # --- progress graph ---------------------------------------------------------------------------------------------
    def progress(self, st):
        at = max([0] + [min(i, st.world.eof or i) for i in self.index(st)])
        # positions in already read source a function walks through on its own account
        f = st.frames[-1]
        own = {}
        for i, v in f.locals.items():
            if ispos(v): own[i] = v
            elif type(v) is tuple and v and v[0] == 'A' and len(v[3]) == 2 and ispos(v[3][0]) and ispos(v[3][1]): own[i] = v[3][0]
        return (st.world.d, at, -st.world.rI[0], st.world.gen), (len(st.frames), f.fn, own)

    def edge(self, st, node):
        if st.extra is not None:
            o, pr, fl = st.extra
            now = self.progress(st)
            fl = fl or now[0] != pr[0]
            if not fl and now[1][:2] == pr[1][:2]:
                was = pr[1][2]
                fl = any(v > was.get(i, v) and v <= now[0][1] for i, v in now[1][2].items())
            self.edges.append((o, node, fl))
            # a number that grows while nothing is consumed or even looked at: far past every number in the source it is an endless loop
            if node == len(self.spin):
                self.spin.append(0 if fl or self.fronts[o] != st.world.front else self.spin[o] + 1)
                self.fronts.append(st.world.front)
                if self.spin[-1] > self.spinmax:
                    if st.world.imp is not None:
                        self.undecided.append("L01 may be violated: a number grows while nothing is consumed; not decided because of %s" % st.world.imp)
                        raise Stop()
                    self.endless.append(node)
                    raise Stop()
        elif node == len(self.spin): self.spin.append(0); self.fronts.append(st.world.front)
        st.extra = (node, self.progress(st), False)

    def enough(self):
        """a violation of the property in question has been found: an analysis that takes unusually long may stop"""
        return self.goal is not None and any(self.goal(p) for p in self.problems.values())

    def on_new(self, st):
        n = self.nodes; self.nodes += 1
        f = st.frames[-1]
        self.node_span.append((f.fn.short, f.bb, self.e.span(st)))
        self.visited.add((f.fn.id, f.bb))
        if st.world.imp is not None: self.unsure.add(n)
        self.edge(st, n)
        return n

    def on_merge(self, st, old): self.edge(st, old)

    # --- text -------------------------------------------------------------------------------------------------------
    def text_of(self, st, lo, hi):
        """the source text [lo, hi): a string, None (no text the source or the language has a word for), or '?'"""
        w = st.world
        if lo == hi: return ""
        if hi > w.front: self.reveal(st, hi - 1)
        self.pump(st, hi)
        if lo == w.lex:
            for p, t in w.hist:
                if p == hi: return t
        out = ""
        for p in range(lo, hi) if hi - lo <= 12 else ():
            m = w.cells.get(p)
            if m is None or m & (m - 1) or m >> 128: return '?'
            out += chr(m.bit_length() - 1)
        return out or '?'

    def val_text(self, st, v):
        """('t', str) or ('src', lo, hi) or None"""
        if type(v) is tuple:
            if v[0] == 'str': return ('t', v[1])
            if v[0] == 'S':
                if not v[1]: return ('t', "")
                if all(s[0] == 'lit' for s in v[1]): return ('t', "".join(s[1] for s in v[1]))
                if len(v[1]) == 1: return v[1][0]
        return None

    def str_eq(self, st, a, b):
        x = self.val_text(st, a); y = self.val_text(st, b)
        if x is None or y is None: return self.choose(st, "a comparison with an unknown text")
        if x == y: return 1
        if x[0] == 't': x, y = y, x
        if x[0] == 'fold':
            # not a case variant of a known word of at most two letters
            if y[0] == 't' and len(y[1]) <= 2: return 0
            return self.choose(st, "a comparison that disregards case")
        if x[0] == 't': return int(x == y)
        if y[0] == 't':
            t = self.text_of(st, x[1], x[2])
            if t == '?':
                if x[1] == x[2]: return int(y[1] == "")
                if y[1] == "": return 0
                for i in range(min(2, len(y[1]), x[2] - x[1])):
                    m = st.world.cells.get(x[1] + i)
                    if m is not None and ord(y[1][i]) < 128 and not m >> ord(y[1][i]) & 1: return 0
                if x[2] - x[1] < 2 and x[2] - x[1] != len(y[1]): return 0
                if y[1].isascii():
                    k = 0
                    for ch in y[1]: k |= 1 << ord(ch)
                    if any(not m & k for p, m in st.world.cells.items() if x[1] <= p < x[2]): return 0
                return self.choose(st, "a comparison of the source text with %r" % y[1])
            return int(t == y[1])
        return self.choose(st, "a comparison of two source texts")

    def folded(self, st, v, upper):
        """text v with its letters in lower (upper) case"""
        x = self.val_text(st, v)
        if x is None: return OPT_X
        t = x[1] if x[0] == 't' else self.text_of(st, x[1], x[2])
        if t == '?': return OPT_X
        if t is None: return ('S', (('fold', x[1], x[2]),))
        t = t.upper() if upper else t.lower()
        return ('S', (('lit', t),) if t else ())

    def starts(self, st, a, lit):
        x = self.val_text(st, a)
        if x is None: return self.choose(st, "a test of an unknown text")
        if x[0] == 't': return int(x[1].startswith(lit))
        if lit == "": return 1
        w = st.world
        lo, hi = x[1], x[2]
        if hi > w.front: self.reveal(st, hi - 1)
        self.pump(st, hi)
        passed = None
        if w.core[0] == "COM" and lo == w.item and hi == w.d: passed = w.core[2]
        elif w.com is not None and (lo, hi) == w.com[:2]: passed = w.com[2]
        if passed is not None and lit in self.spec.comments: return int(lit in passed)
        if hi - lo < 2 and hi - lo < len(lit): return 0
        t = self.text_of(st, lo, hi)
        if t is not None and t != '?': return int(t.startswith(lit))
        return self.choose(st, "a test whether the source text starts with %r" % lit)

    def append(self, st, s, x):
        """string s followed by character or text x"""
        segs = s[1] if type(s) is tuple and s[0] == 'S' else None
        if segs is None: return OPT_X
        w = st.world
        if type(x) is tuple and x[0] == 'ch':
            # a character that is known to be the same as the one that comes next in the source repeats it
            p = x[1]; nx = segs[-1][2] if segs and segs[-1][0] == 'src' else None
            if nx is not None and p != nx:
                self.settle(st)
                m = w.cells.get(p)
                if m is not None and m & (m - 1) == 0 and m < 1 << 128 and w.cells.get(nx) == m: p = nx
            add = ('src', p, p + 1)
        elif type(x) is int:
            self.settle(st)
            # a literal character: recognise the character of the source it repeats
            nx = segs[-1][2] if segs and segs[-1][0] == 'src' else None
            cand = [nx] if nx is not None else [w.lex, w.quote, w.item] if not segs else []
            add = ('lit', chr(x))
            for p in cand:
                if p is not None and w.cells.get(p) == (1 << x if x < 128 else self.chset("Eq", x)[0] or -1): add = ('src', p, p + 1); break
        elif type(x) is tuple and x[0] == 'str': add = ('lit', x[1]) if x[1] else None
        elif type(x) is tuple and x[0] == 'S':
            r = s
            for g in x[1]: r = ('S', self.join(r[1], g))
            return r
        else: return OPT_X
        return ('S', self.join(segs, add) if add else segs)

    @staticmethod
    def join(segs, g):
        if segs and segs[-1][0] == g[0]:
            l = segs[-1]
            if g[0] == 'src' and l[2] == g[1]: return segs[:-1] + (('src', l[1], g[2]),)
            if g[0] == 'lit':
                if len(l[1]) > 64: return segs       # longer than any text compared with
                return segs[:-1] + (('lit', l[1] + g[1]),)
        if len(segs) > 6:
            # the same characters over and over, which is no text of the source: any number of times
            if len(set(segs[-4:] + (g,))) == 1 and g[0] == 'src': return segs
            raise Unsupported("text assembled from many pieces")
        return segs + (g,)

    # --- library calls ----------------------------------------------------------------------------------------------
    def call(self, st, fn, path, args):
        h = self.handlers.get(path, 0)
        if h == 0:
            h = None
            if "panicking::" in path or "::unwrap_failed" in path or "::expect_failed" in path: h = f_panic
            if fn is None or not fn.local:
                for suf, f in HANDLERS:
                    if path.endswith(suf): h = f; break
            self.handlers[path] = h
        self.stats["calls"] += 1
        if st.world.phase == "new":
            r = srcbuild.handle(self, st, fn, path, args)
            if r == ('STD',): return NOTHANDLED
            if r is not NOTHANDLED: return r
        if h is None: return NOTHANDLED
        if h is not f_any and h is not s_to:
            # a composed text used in any other way is just unknown
            if any(type(a) is tuple and a and a[0] == 'EX' for a in args): args = [OPT_X if type(a) is tuple and a and a[0] == 'EX' else a for a in args]
            elif self.composed and "String" in path:
                for a in args:
                    if type(a) is tuple and a and a[0] == 'R':
                        try: x = self.e.load(st, a)
                        except Unsupported: continue
                        if type(x) is tuple and x and x[0] == 'EX': self.e.store(st, a, OPT_X)
        else: self.composed = True
        return h(self, st, fn, args)

    def vec_type(self, st):
        ty = self.e.ret_type(st)
        t = self.e.types[ty] if ty is not None else None
        while t and t["k"] == "adt" and not t["name"].endswith("::Vec") and t.get("args"):
            t = self.e.types[t["args"][0]]
        a = t["args"][0] if t and t.get("args") else None
        x = self.e.types[a] if a is not None else {"k": "?"}
        while x["k"] == "adt" and x["name"].endswith("::Box") and x.get("args"): x = self.e.types[x["args"][0]]
        if x["k"] == "adt" and x["name"].endswith("::Trivia"): return 'T'
        return {"char": 'nc', "int": 'ni'}.get(x["k"], 'nx')

    def newvec(self, st, elems=()):
        k = self.vec_type(st)
        if k == 'T':
            if elems: raise Unsupported("vector of trivia built at once")
            return ('TV', 0, 0, 0)
        return ('V', k, 0, tuple(elems))

    def vec(self, st, r):
        v = self.e.load(st, r)
        while type(v) is tuple and v[0] in ('R', 'B', 'P'): r = v; v = self.e.load(st, r)
        return r, v

    def put(self, st, r, v): self.e.store(st, r, v)

    # trivia handed to the collector
    def add_trivia(self, st, r, tv, x, front):
        w = st.world
        v = x
        while type(v) is tuple and v[0] in ('B', 'R', 'P'): v = self.e.load(st, v)
        if type(v) is not tuple or v[0] != 'A': raise Unsupported("trivia %r" % (v,))
        name = self.e.types[v[1]]["v"][v[2]]["name"]
        lim = 0
        while w.m >= w.n:
            # the reference is still inside the piece, or has none here
            self.step(st)
            if w.m < w.n: break
            if w.outc == ("any",): raise Stop()
            c = w.core[0]
            if c in ("WS", "CR", "BS", "BSCR", "COM", "MID") and w.front == w.d and \
                    (w.eof is None or w.d < w.eof) and ispos(v[3][1]) and v[3][1] >= w.d:
                self.reveal(st, w.d)
                continue
            self.report(st, "L11", name, "unexpected trivia", "%s is attached although nothing of that kind was skipped here" % name,
                        "unexpected in " + c)
            if name in ("Newline", "LineContinuation"): self.report(st, "L09", name, "unexpected trivia", "%s is skipped as trivia where it is significant" % name, "unexpected in " + c)
            raise Stop()
        it = w.q[0]
        kind, s, e, chars = it
        self.stats["trivia"] += 1
        fs = v[3]
        if kind != name:
            self.report(st, "L11", kind, "wrong trivia", "%s is recorded as %s" % (kind, name), name)
            raise Stop()
        if fs[0] != s: self.report(st, "L11", kind, "wrong start", "%s starts at %s instead of its first character" % (kind, self.rel(fs[0], s)), self.rel(fs[0], s))
        if fs[1] != e: self.report(st, "L11", kind, "wrong end", "%s ends at %s instead of just past its last character" % (kind, self.rel(fs[1], e, st)), self.rel(fs[1], e, st))
        if kind == "Comment":
            self.check_text(st, "L11", kind, fs[2], s, e, "text")
        else:
            for i, c in enumerate(chars):
                g = fs[2 + i] if 2 + i < len(fs) else None
                if not self.is_char(st, g, c):
                    self.report(st, "L11", kind, "wrong characters", "%s %r is recorded with character %s as %s" % (kind, chars, i + 1, self.show(g)), "%d of %r" % (i, chars))
        if fs[1] != e and ispos(fs[1]):
            ix = self.index(st)
            if ix and e not in ix: raise Stop()
        w.q = w.q[1:]; i = w.m; w.m += 1
        lo, hi, ori = tv[1:]
        if lo == hi: lo = hi = i; ori = 0
        if hi != i: raise Unsupported("trivia collected out of order")
        w.tvn = None
        if hi == lo: ori = 1 if front else 0
        elif ori != (1 if front else 0):
            raise Unsupported("trivia added at both ends")
        if kind == "Comment": w.com = None
        self.put(st, r, ('TV', lo, hi + 1, ori))

    def show(self, g):
        if type(g) is int: return repr(chr(g)) if 0 <= g < 0x110000 else str(g)
        return "another character"

    def is_char(self, st, g, c):
        if type(g) is int: return g == ord(c)
        if type(g) is tuple and g[0] == 'ch': return self.mask(st, g[1]) == 1 << ord(c)
        if g == OPT_X:
            self.imprecise(st, "an unknown character"); return False
        return False

    def rel(self, got, want, st=None):
        if not ispos(got): return "an unrelated value"
        d = got - want
        if st is not None and st.world.eof is not None and got > st.world.eof: return "position %+d, outside the source" % d
        return "position %+d" % d if abs(d) < CAP else "a position far %s" % ("after" if d > 0 else "before")

    def check_text(self, st, prop, rule, v, lo, hi, what):
        while type(v) is tuple and v[0] in ('B', 'R', 'P'): v = self.e.load(st, v)
        x = self.val_text(st, v)
        if x == ('src', lo, hi) or x == ('t', "") and lo == hi: return
        if v == OPT_X or type(v) is not tuple or v[0] not in ('S', 'str'): self.imprecise(st, "an unknown text")
        elif x is not None:
            t = self.text_of(st, lo, hi)
            g = x[1] if x[0] == 't' else self.text_of(st, x[1], x[2])
            if t not in (None, '?') and t == g: return
        d = "another text"
        if x is not None and x[0] == 'src': d = "the characters from %s to %s" % (self.rel(x[1], lo), self.rel(x[2], hi))
        elif x is not None: d = repr(x[1])
        self.report(st, prop, rule, "wrong " + what, "%s carries %s instead of exactly the characters it covers" % (rule, d), d)

    # --- what the tokenizer hands out -------------------------------------------------------------------------------
    def on_return(self, st, v):
        w = st.world
        if w.phase == "new": return self.started(st, v)
        if w.phase == "pos":
            if v != w.tok[1]:
                if type(v) is tuple: self.imprecise(st, "an unknown position")
                self.report(st, "L10", w.tok[0], "start offered to the parser", "after %s the position offered is %s instead of the token's first character" % (
                    w.tok[0], self.rel(v, w.tok[1])), self.rel(v, w.tok[1]))
            return self.next_call(st)
        if w.phase == "err":
            b, e = w.tok
            if type(v) is tuple: self.imprecise(st, "an unknown position")
            elif not b <= v <= e:
                self.report(st, "L12", "error", "position offered after an error", "the position offered is %s" % self.rel(v, b if v < b else e, st), "before" if v < b else "after")
            raise Stop()
        self.returned(st, v)

    def walk(self, st, f):
        """rewrite the vectors inside the tokenizer value"""
        def go(v, depth):
            if type(v) is not tuple or depth > 8: return v
            if v[0] == 'A': return ('A', v[1], v[2], tuple(go(x, depth + 1) for x in v[3]))
            if v[0] == 'B':
                if v[1] in st.heap: st.heap[v[1]] = go(st.heap[v[1]], depth + 1)
                return v
            if v[0] in ('V', 'TV'): return f(v)
            return v
        st.heap[self.TOK] = go(st.heap[self.TOK], 0)

    def started(self, st, v):
        self.TOK = -1
        st.heap[-1] = v
        self.kept = set()

        def ints_of(v, depth=0):
            if type(v) is int: self.kept.add(v)
            elif type(v) is tuple and depth < 9 and v and v[0] in ('A', 'B'):
                for x in v[3] if v[0] == 'A' else (st.heap.get(v[1]),): ints_of(x, depth + 1)
        bad = srcbuild.examine(self, st)
        if bad:
            for p in sorted(srcbuild.concerned(bad[1])):
                self.report(st, p, "new", "source text", "the characters that are tokenized are not those of the source: " + bad[0], bad[0])
            raise Stop()
        for g in range(16): st.world.cells.pop(g, None)
        ints_of(v)
        vs = []
        self.walk(st, lambda x: (vs.append(x), x)[1])
        chars = [x for x in vs if x[0] == 'V' and not x[3] and x[1] == 'nc'] or [x for x in vs if x[0] == 'V' and not x[3] and x[1] == 'nx']
        ints = [x for x in vs if x[0] == 'V' and x[1] == 'ni' and x[3] == (0,)]
        if len(chars) != 1: raise Unsupported("no single stack of open brackets in the tokenizer")
        if len(ints) != 1: raise Unsupported("no single stack of indentation levels, starting with 0, in the tokenizer")
        pk = chars[0][1]

        def f(x):
            if x[0] == 'V' and x[1] == pk and not x[3]: return ('V', 'P', 0, ())
            if x[0] == 'V' and x[1] == 'ni' and x[3] == (0,): return ('V', 'I', 0, ())
            return x
        self.walk(st, f)
        # index fields
        def src(x, depth=0):
            if type(x) is not tuple or depth > 6: return x
            if x[0] == 'A':
                has = any(type(y) is tuple and (y[0] == 'SRC' or y[0] == 'B' and st.heap.get(y[1], (0,))[0] == 'SRC') for y in x[3])
                return ('A', x[1], x[2], tuple(BASE if has and y == 0 and type(y) is int else src(y, depth + 1) for y in x[3]))
            if x[0] == 'B' and x[1] in st.heap: st.heap[x[1]] = src(st.heap[x[1]], depth + 1)
            return x
        st.heap[-1] = src(st.heap[-1])
        if len(self.index(st)) != 1: raise Unsupported("no single read position beside the characters of the source")
        st.world.phase = "call"
        self.next_call(st)

    def force(self, st, owed):
        """let the reference reach its verdict; False when it is still undecided well past what the tokenizer looked at"""
        w = st.world
        while True:
            if w.core[0] == "DEC" and self.one(st): continue
            if w.outc is not None: return True
            if owed and w.owed: return True
            if self.one(st): continue
            if w.core[0] == "DEC":
                if w.rI[0] > 8: raise Stop()
                self.dec_step(st, True); continue
            if w.front >= w.lim: return False
            self.reveal(st, w.front)

    def mode_prop(self, w):
        c = w.core[0]
        if c == "id": return "L04"
        if c in ("q1", "q2", "s1", "s1b", "s1r", "s3", "s3b"): return "L06"
        if c == "op": return "L03"
        if c in L.NUM: return "L05"
        if c in ("COM", "WS"): return "L11"
        return "L09"

    def expect_prop(self, kind):
        return "L07" if kind in ("PyRightParen", "PyRightBracket", "PyRightCurly") else L.prop_of(kind)

    def returned(self, st, v):
        w = st.world
        if w.lim is None: w.lim = w.front + 3
        if type(v) is not tuple or v[0] != 'A': raise Unsupported("result %r" % (v,))
        rn = self.e.types[v[1]]["v"][v[2]]["name"]
        if rn == "Err":
            begin = w.item if w.lex is None else w.lex
            ok = self.force(st, False)
            if begin is None: begin = w.start if w.lex is None else w.lex
            self.stats["errors"] += 1
            o = w.outc
            if w.errok or o is not None and (o[0] in ("err", "any") or o[4] == "or error"):
                if o is None or o[0] == "err": self.brackets(st, "an error")
                return self.err_place(st, v[3][0], begin)
            if w.owed and w.core[0] != "DEC": self.report(st, "L08", "indentation", "rejected", "an error is reported although %s is due" % ("an Indent" if w.owed > 0 else "a Dedent"), "rejected")
            elif o is None: self.report(st, self.mode_prop(w), w.core[0], "rejected", "an error is reported although the text is well-formed so far", "rejected")
            else: self.report(st, self.expect_prop(o[1]), o[1], "rejected", "an error is reported instead of %s" % o[1], "rejected" + self.here(st))
            raise Stop()
        tk = v[3][0]
        while type(tk) is tuple and tk[0] in ('B', 'R', 'P'): tk = self.e.load(st, tk)
        if type(tk) is not tuple or tk[0] != 'A': raise Unsupported("token %r" % (tk,))
        kind = self.e.types[tk[1]]["v"][tk[2]]["name"]
        fs = tk[3]
        ix = self.index(st)
        if kind in ("Indent", "Dedent"):
            ok = self.force(st, True)
            sign = 1 if kind == "Indent" else -1
            if w.owed * sign <= 0:
                what = "%s is reported although %s is due" % (kind, "an Indent" if w.owed > 0 else "a Dedent" if w.owed < 0 else
                                                                "an error" if w.outc and w.outc[0] == "err" else w.outc[1] if w.outc and w.outc[0] == "tok" else "none")
                self.report(st, "L08", kind, "not due", what, kind + " not due")
                if ix and ix[0] <= w.start and w.owed == 0: self.report(st, "L01", kind, "no progress", "%s is handed out without consuming anything although no indentation change is owed" % kind, kind)
                raise Stop()
            self.check_trivia(st, kind, fs[0] if fs else None, w.decn)
            self.stats["tokens"] += 1; self.kinds.add(kind)
            w.owed -= sign
            w.k0 = w.decn
            if w.owed == 0 and w.core[0] != "DEC": w.decn = None
            self.note(st, "the tokenizer returns %s" % kind)
            self.sync(st, kind, False)
            w.last = None
            if st.extra: st.extra = st.extra[:2] + (True,)
            return self.next_call(st)
        ok = self.force(st, True)
        o = w.outc
        if o is None and w.owed:
            due = "an Indent" if w.owed > 0 else "a Dedent"
            self.report(st, "L08", kind if not ok else "indentation", "missing", "%s is returned although %s is due first" % (kind, due), due + " missing")
            raise Stop()
        if o is not None and o[0] == "any":
            if kind == "EOF": self.report(st, "L09", "EOF", "before the end", "the end of input is reported at a NUL character", "NUL")
            raise Stop()
        if o is not None and o[0] == "err":
            self.report(st, o[1], "error", "accepted", "%s is returned although %s" % (kind, o[2]), o[2] if o[1] != "L07" else "closer")
            p2 = self.expect_prop(kind)
            if p2 not in (o[1], "L07"): self.report(st, p2, kind, "accepted", "%s is returned although %s" % (kind, o[2]), o[2] if o[1] != "L07" else "closer")
            raise Stop()
        if o is None:
            p = self.mode_prop(w)
            self.report(st, p, w.core[0], "ends early", "%s is returned although the text it belongs to goes on" % kind, kind)
            raise Stop()
        _, want, s, e, alt, chars = o
        self.stats["tokens"] += 1; self.kinds.add(kind)
        if kind not in ("EOF",) and ix and ix[0] == w.start:
            self.report(st, "L01", kind, "no progress", "%s is handed out without consuming anything" % kind, kind)
        if kind != want:
            p = self.expect_prop(want)
            if want in ("AtomName", "AtomNumber", "AtomString", "TypeComment") or True:
                self.report(st, p, want, "wrong kind", "%s is returned instead of %s%s" % (kind, want, self.here(st)), kind + self.here(st))
                p2 = self.expect_prop(kind)
                if p2 != p and p2 != "L07": self.report(st, p2, kind, "wrong kind", "%s is returned instead of %s%s" % (kind, want, self.here(st)), want + self.here(st))
            raise Stop()
        stop = False
        if ix and ix[0] != e:
            p = self.expect_prop(want)
            self.report(st, p, want, "wrong extent", "after %s the next character read is at %s instead of just past the token" % (want, self.rel(ix[0], e, st)), self.rel(ix[0], e, st))
            stop = True
        ti = 2
        if want == "EOF":
            ti = 1
            if fs[0] != s: self.report(st, "L10", want, "wrong position", "EOF is reported at %s" % self.rel(fs[0], s), self.rel(fs[0], s))
        else:
            if fs[0] != s: self.report(st, "L10", want, "wrong start", "%s reports its start at %s" % (want, self.rel(fs[0], s)), self.rel(fs[0], s))
            if fs[1] != e and not (stop and ix and fs[1] == ix[0]):
                self.report(st, "L10", want, "wrong end", "%s reports its end at %s" % (want, self.rel(fs[1], e, st)), self.rel(fs[1], e, st))
            if want == "Newline":
                if fs[1] != e and stop: self.report(st, "L10", want, "wrong end", "%s reports its end at %s" % (want, self.rel(fs[1], e, st)), self.rel(fs[1], e, st))
                for i, c in enumerate(chars):
                    if not self.is_char(st, fs[3 + i], c):
                        self.report(st, "L10", want, "wrong characters", "Newline spelled %r is recorded with character %d as %s" % (chars, i + 1, self.show(fs[3 + i])), "%d of %r" % (i, chars))
            elif want in ("AtomName", "AtomNumber", "TypeComment") and not stop: self.check_text(st, "L10", want, fs[3], s, e, "text")
            elif want == "AtomString" and not stop:
                self.check_text(st, "L10", want, fs[3], w.quote, e, "text")
                px = fs[4]
                if type(px) is not tuple or px[0] != 'A': raise Unsupported("string prefix %r" % (px,))
                if px[2] == 0:
                    if w.quote != s: self.report(st, "L10", want, "prefix missing", "a string literal loses its prefix", "prefix")
                else: self.check_text(st, "L10", want, px[3][0], s, w.quote, "prefix")
        if w.bsn:
            self.report(st, "L09", "Newline", "line without code", "a line holding nothing but line continuations ends with a Newline token", "continuation")
            if w.bsn == "level": self.report(st, "L08", "indentation", "line without code", "a line holding nothing but line continuations changes the indentation", "continuation")
            w.bsn = None
        self.check_trivia(st, want, fs[ti], w.n)
        if stop: raise Stop()
        self.note(st, "the tokenizer returns %s" % kind)
        self.sync(st, kind, True)
        # ready for the next token
        w.d = e; w.core = w.nxt; w.nxt = None; w.outc = None
        w.item = w.lex = w.quote = w.mark = None; w.hist = (); w.com = None; w.errok = False
        w.k0 = w.n; w.decn = None
        w.last = "EOF" if want == "EOF" else None
        if want == "EOF" and st.extra: st.extra = st.extra[:2] + (True,)
        if w.core[0] not in ("BOL", "DEC"): w.C = 0; self.forget(w, "C", "O")
        if self.getpos is not None:
            w.phase = "pos"; w.tok = (want, s)
            st.frames = []
            self.e.push(st, self.getpos, [('R', ('H', self.TOK), ())], None, None)
            self.pending.append(st.copy())
            return
        self.next_call(st)

    def here(self, st):
        """spelling of the lexeme when it is one of the known words"""
        w = st.world
        if w.lex is not None and w.hist and w.hist[-1][1]: return " for %r" % w.hist[-1][1]
        if w.lex is not None and w.front - w.lex <= 4:
            t = self.text_of(st, w.lex, min(w.front, w.d))
            if t and t != '?': return " for %r" % t
        return ""

    def check_trivia(self, st, kind, v, upto):
        w = st.world
        if type(v) is not tuple or v[0] != 'A': raise Unsupported("trivia of a token: %r" % (v,))
        n = upto - w.k0
        if v[2] == 0: tv = None
        else:
            tv = v[3][0]
            while type(tv) is tuple and tv[0] in ('B', 'R', 'P'): tv = self.e.load(st, tv)
            if type(tv) is not tuple or tv[0] != 'TV': raise Unsupported("trivia of a token: %r" % (tv,))
        cnt = 0 if tv is None else tv[2] - tv[1]
        if cnt == 0 and n == 0: return
        if cnt == 0 or tv[1] != w.k0 or tv[2] != upto:
            d = "%s carries %s" % (kind, "no trivia although some was skipped before it" if cnt == 0 else "not exactly the trivia skipped since the previous token")
            self.report(st, "L11", kind, "trivia lost" if cnt < n else "trivia not its own", d, "none" if cnt == 0 else "other")
            raise Stop()
        if w.tvn != 1 and tv[3] != 1:
            self.report(st, "L11", kind, "trivia order", "%s carries its trivia first-to-last" % kind, "order")

    def err_place(self, st, v, begin):
        """Where an error says it is, and the position the tokenizer offers then, against what was read."""
        w = st.world
        ix = self.index(st)
        if not ix: raise Stop()
        end = ix[0] if w.eof is None else min(ix[0], w.eof)
        while type(v) is tuple and v[0] in ('B', 'R', 'P'): v = self.e.load(st, v)
        if type(v) is tuple and v[0] == 'EX':
            ps = [x for x in v[1] if ispos(x)] + [end + 1 for x in v[1] if type(x) is tuple and x[0] == 'LEN' and (w.eof is None or w.eof > end)]
            if ps:
                self.stats["error positions"] = self.stats.get("error positions", 0) + 1
                if not any(begin <= x <= end for x in ps):
                    d = self.rel(ps[0], begin, st) if ps[0] < begin else "%s of what was read" % ("outside" if not ispos(ps[0]) else "past the end")
                    self.report(st, "L12", "error", "error position", "an error names %s instead of one between the start of the offending text and what was read" % d, d)
        if self.getpos is None: raise Stop()
        w.phase = "err"; w.tok = (begin, end)
        st.frames = []
        self.e.push(st, self.getpos, [('R', ('H', self.TOK), ())], None, None)
        self.pending.append(st.copy())

    def brackets(self, st, kind, p=None):
        """the tokenizer's record of open brackets against the reference's"""
        w = st.world
        if p is None:
            vs = []
            self.walk(st, lambda x: (vs.append(x) if x[:2] == ('V', 'P') else None, x)[1])
            if not vs: return
            p = vs[0]
        vals = []
        for x in p[3]:
            if type(x) is tuple and x[0] == 'ch':
                m = self.mask(st, x[1])
                if not m & (m - 1): x = m.bit_length() - 1
            vals.append(x)
        ok = p[2] == w.rP[0] and len(vals) == len(w.rP[1])
        if ok:
            for k, x in zip(w.rP[1], vals):
                if k not in self.gmap:
                    if type(x) is int or type(x) is tuple and x[0] in ('A', 'str'):
                        self.gmap[k] = x; raise Restart()
                    raise Unsupported("open bracket remembered as %r" % (x,))
                if self.gmap[k] != x: ok = False
        if not ok:
            self.report(st, "L07", kind, "bracket record", "after %s the record of open brackets does not match the brackets open in the source" % kind, kind)
            raise Stop()

    def sync(self, st, kind, full):
        """the tokenizer's stacks against the reference's, then a fresh unknown base"""
        w = st.world
        vs = {}
        self.walk(st, lambda x: (vs.setdefault(x[1], x) if x[0] == 'V' and x[1] in ('P', 'I') else None, x)[1])
        p = vs.get('P'); i = vs.get('I')
        if p is None or i is None: raise Unsupported("a stack is gone")
        self.brackets(st, kind, p)
        w.P = ((), False); w.rP = (0, ())
        self.forget(w, "P")
        okI = i[2] == w.rI[0] and i[3] == w.rI[1]
        if full and not okI:
            self.report(st, "L08", "levels", "level record", "the recorded indentation levels are not those of the enclosing blocks", "popped %+d, pushed %s" % (
                i[2] - w.rI[0], [x - w.C if type(x) is int else "?" for x in i[3]]))
            raise Stop()
        if okI and w.core[0] != "DEC":
            w.I = (1, False); w.rI = (0, ()); w.rel = {}
            self.forget(w, "I")
            w.pk = tuple(x for x in w.pk if x[0][0] != "V")
        fi = okI and w.core[0] != "DEC"
        self.walk(st, lambda x: ('V', 'P', 0, ()) if x[:2] == ('V', 'P') else ('V', 'I', 0, ()) if fi and x[:2] == ('V', 'I') else x)

    def gc(self, st):
        live = {}
        todo = [self.TOK]

        def find(v):
            if type(v) is not tuple: return
            if v and v[0] in ('B', 'P'): todo.append(v[1]); return
            if v and v[0] == 'R':
                if v[1][0] == 'H': todo.append(v[1][1])
                return
            for x in v: find(x)
        while todo:
            i = todo.pop()
            if i in live or i not in st.heap: continue
            live[i] = st.heap[i]; find(live[i])
        st.heap = live

    def counters(self, st):
        """a number kept in the tokenizer that has grown from call to call is only known to be large"""
        def go(v, depth):
            if type(v) is int:
                return ('CT',) if MANYC < v < LO and v not in self.kept and not self.growing(st, v) and abs(abs(st.world.owed) - v) > 1 else v
            if type(v) is not tuple or depth > 8: return v
            if v[0] == 'A': return ('A', v[1], v[2], tuple(go(x, depth + 1) for x in v[3]))
            if v[0] == 'B' and v[1] in st.heap: st.heap[v[1]] = go(st.heap[v[1]], depth + 1)
            return v
        st.heap[self.TOK] = go(st.heap[self.TOK], 0)

    def next_call(self, st):
        w = st.world
        self.gc(st)
        self.counters(st)
        w.phase = "call"; w.tok = None; w.lim = None; w.tvn = None; w.pl = None; self.forget(w, "L")
        ix = self.index(st)
        if not ix: raise Unsupported("read position lost")
        w.start = ix[0]
        st.frames = []
        self.e.push(st, self.getsym, [('R', ('H', self.TOK), ())], None, None)
        st.entered = False; st.dirty = True
        key = ('call', self.e.canon_state(st))
        old = self.e.seen.get(key)
        self.stats["returns"] += 1
        if old is not None:
            self.e.memo_hits += 1
            self.on_merge(st, old); return
        self.e.seen[key] = self.on_new(st)
        s2 = st.copy()
        self.pending.append(s2)

    # --- driver -----------------------------------------------------------------------------------------------------
    def entry(self, ty, name):
        for f in self.p.local:
            if f.has_body and f.short == name and (ty in f.path): return f
        return None

    def run(self, max_states=300000):
        new = self.entry("PythonCoreTokenizer", "new"); self.getsym = self.entry("PythonCoreTokenizer", "get_symbol")
        self.getpos = self.entry("PythonCoreTokenizer", "get_position")
        if new is None or self.getsym is None: raise Unsupported("the tokenizer's entry points are gone")
        self.e = Engine(self.p, self, max_states)
        st = State(World())
        self.e.push(st, new, [('SRCSTR',)], None, None)
        self.pending.append(st)
        self.e.wide = 120000
        self.e.run_all(self.pending)
        if self.fewgmap and len(self.gmap) < 3 and not self.problems: self.undecided.append("not every kind of opening bracket is seen being remembered")
        return self

    def loops(self):
        """cycles of abstract states in which nothing is consumed"""
        g = {}
        for a, b, pr in self.edges:
            if not pr and a not in self.unsure and b not in self.unsure: g.setdefault(a, set()).add(b)
        idx = {}; low = {}; on = set(); stack = []; out = []; n = 0
        for root in list(g):
            if root in idx: continue
            work = [(root, iter(g.get(root, ())))]
            idx[root] = low[root] = n; n += 1; stack.append(root); on.add(root)
            while work:
                v, it = work[-1]
                for x in it:
                    if x not in idx:
                        idx[x] = low[x] = n; n += 1; stack.append(x); on.add(x)
                        work.append((x, iter(g.get(x, ())))); break
                    elif x in on: low[v] = min(low[v], idx[x])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            x = stack.pop(); on.discard(x); c.append(x)
                            if x == v: break
                        if len(c) > 1 or v in g.get(v, ()): out.append(c)
        return out


HANDLERS = []
PREDS = []
PREDS_X = {}


def h(*names):
    def deco(f):
        for n in names: HANDLERS.append((n, f))
        return f
    return deco


@h("::vec::Vec::<T>::new", "::vec::Vec::<T>::with_capacity", "::vec::Vec<T> as std::default::Default>::default")
def v_new(c, st, fn, a): return c.newvec(st)


@h("::vec::Vec::<T, A>::reserve", "::vec::Vec::<T, A>::reserve_exact", "::vec::Vec::<T, A>::shrink_to_fit", "::VecDeque::<T, A>::reserve",
   "::string::String::reserve", "::string::String::reserve_exact", "::string::String::shrink_to_fit")
def v_reserve(c, st, fn, a): return UNIT


@h("::vec::Vec::<T, A>::capacity", "::VecDeque::<T, A>::capacity", "::string::String::capacity")
def v_capacity(c, st, fn, a): return OPT_X


@h("::into_vec")
def v_into(c, st, fn, a):
    v = c.e.load(st, a[0])
    if type(v) is not tuple or v[0] != 'T': raise Unsupported("into_vec")
    return c.newvec(st, v[1])


@h("::vec::from_elem")
def v_from(c, st, fn, a):
    if type(a[1]) is not int or a[1] > 4: raise Unsupported("from_elem")
    return c.newvec(st, (a[0],) * a[1])


@h("::vec::Vec::<T, A>::push", "::vec::Vec::<T, A>::insert")
def v_push(c, st, fn, a):
    r, v = c.vec(st, a[0])
    ins = len(a) == 3
    if v[0] == 'TV':
        if ins and a[1] != 0: raise Unsupported("insert")
        c.add_trivia(st, r, v, a[-1], ins); return UNIT
    if v[0] != 'V' or ins: raise Unsupported("push onto %r" % (v[0],))
    if len(v[3]) > 6: raise Unsupported("a vector grows without bound")
    c.put(st, r, ('V', v[1], v[2], v[3] + (a[1],)))
    return UNIT


@h("::vec::Vec::<T, A>::pop")
def v_pop(c, st, fn, a):
    r, v = c.vec(st, a[0])
    ty = c.e.ret_type(st)
    if v[0] != 'V': raise Unsupported("pop of %r" % (v[0],))
    t = c.vtop(st, v)
    if t is None: return c.e.none(ty)
    c.put(st, r, c.vpop(v))
    return c.e.some(ty, t)


@h("::vec::Vec::<T, A>::len", "::slice::<impl [T]>::len")
def v_len(c, st, fn, a): return c.length(st, c.vec(st, a[0])[1])


@h("::vec::Vec::<T, A>::is_empty", "::slice::<impl [T]>::is_empty")
def v_isempty(c, st, fn, a):
    l = c.length(st, c.vec(st, a[0])[1])
    return int(l == 0) if type(l) is int else c.binop(st, "Eq", l, 0, None)


@h("::vec::Vec::<T, A>::clear")
def v_clear(c, st, fn, a):
    r, v = c.vec(st, a[0])
    if v[0] == 'TV': c.put(st, r, ('TV', v[2], v[2], 0))
    elif v[0] == 'V' and v[1] not in ('P', 'I'): c.put(st, r, ('V', v[1], 0, ()))
    else: raise Unsupported("clear")
    return UNIT


@h("::slice::<impl [T]>::last", "::slice::<impl [T]>::first")
def v_last(c, st, fn, a):
    r, v = c.vec(st, a[0])
    ty = c.e.ret_type(st)
    if v[0] != 'V' or fn.short == "first" and v[1] in ('P', 'I'): raise Unsupported("%s of %r" % (fn.short, v[0]))
    t = c.vtop(st, v) if fn.short == "last" else (v[3][0] if v[3] else None)
    if t is None: return c.e.none(ty)
    return c.e.some(ty, ('R', ('V', t), ()))


@h("::slice::<impl [T]>::reverse")
def v_rev(c, st, fn, a):
    r, v = c.vec(st, a[0])
    if v[0] == 'TV': c.put(st, r, v[:3] + ((1 - v[3]) if v[2] > v[1] else 0,)); return UNIT
    if v[0] == 'V' and v[1] not in ('P', 'I'): c.put(st, r, v[:3] + (v[3][::-1],)); return UNIT
    raise Unsupported("reverse")


@h("::vec::Vec<T, A> as std::ops::Deref>::deref", "::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "::vec::Vec::<T, A>::as_slice",
   "::vec::Vec::<T, A>::as_mut_slice", "::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow",
   "::string::String::as_str", "::string::String as std::ops::Deref>::deref", "::string::String as std::convert::AsRef<str>>::as_ref",
   "::string::String as std::borrow::Borrow<str>>::borrow", "::string::String::as_mut_str")
def v_deref(c, st, fn, a): return a[0]


def inside(c, st, v, i):
    """is index i inside the source / slice / stack?"""
    if v[0] == 'SRC':
        if ispos(i): return not c.iseof(st, i)
        if type(i) is int: return not c.iseof(st, BASE + i) if st.world.front - BASE < 4 else not c.choose(st, "a constant index into the source")
        if type(i) is tuple and i[0] == 'LEN':
            if i[1] >= 0: return False
    raise Unsupported("index %r into %r" % (i, v[0]))


@h("::ops::Index<I>>::index", "::slice::<impl [T]>::get", "::ops::IndexMut<I>>::index_mut")
def v_index(c, st, fn, a):
    r, v = c.vec(st, a[0])
    i = a[1]
    get = fn.short == "get"
    ty = c.e.ret_type(st)
    if type(i) is tuple and i[0] == 'A' and c.e.types[i[1]]["name"].endswith("::RangeFull"):
        return c.e.some(ty, a[0]) if get else a[0]
    if v[0] == 'SRC' or v[0] == 'SL':
        if type(i) is tuple and i[0] == 'A':
            nm = c.e.types[i[1]]["name"]
            lo, hi = BASE, None
            if nm.endswith("::Range"): lo, hi = i[3]
            elif nm.endswith("::RangeFrom"): lo = i[3][0]
            elif nm.endswith("::RangeTo"): hi = i[3][0]
            else: raise Unsupported("slice by " + nm)
            if v[0] != 'SRC' or hi is None or not ispos(lo) or not ispos(hi): raise Unsupported("slice of the source")
            if lo > hi or hi > lo and c.iseof(st, hi - 1):
                if get: return c.e.none(ty)
                c.on_panic(st, "slice out of range", c.e.span(st)); raise Stop()
            x = ('R', ('V', ('SL', lo, hi)), ())
            return c.e.some(ty, x) if get else x
        if v[0] == 'SL':
            if type(i) is int and not ispos(i): i = v[1] + i
            ok = i < v[2]
        else: ok = inside(c, st, v, i)
        if not ok:
            if get: return c.e.none(ty)
            c.on_panic(st, "index out of range", c.e.span(st)); raise Stop()
        if not ispos(i): i = BASE + i
        x = ('R', ('V', ('ch', i)), ())
        return c.e.some(ty, x) if get else x
    if v[0] == 'V':
        l = c.length(st, v)
        t = None
        if type(i) is tuple and i[0] == 'VL' and type(l) is tuple and i[:2] == l[:2]:
            if i[2] == l[2] - 1: t = c.vtop(st, v)
            elif i[2] < l[2]: raise Unsupported("index below the top of a stack")
        elif type(i) is int and type(l) is int: t = v[3][i] if i < l else None
        else: raise Unsupported("index %r into a stack" % (i,))
        if t is None:
            if get: return c.e.none(ty)
            c.on_panic(st, "index out of range", c.e.span(st)); raise Stop()
        x = ('R', ('V', t), ())
        return c.e.some(ty, x) if get else x
    if v[0] == 'T' and type(i) is int:
        if not 0 <= i < len(v[1]):
            if get: return c.e.none(ty)
            c.on_panic(st, "index out of range", c.e.span(st)); raise Stop()
        x = ('R', ('V', v[1][i]), ())
        return c.e.some(ty, x) if get else x
    if v[0] in ('S', 'str') and not get: return textslice(c, st, v, i)
    raise Unsupported("index into %r" % (v[0],))


@h("::str::<impl str>::chars")
def s_chars(c, st, fn, a):
    v = c.e.load(st, a[0])
    if v[0] == 'SRCSTR': return ('CHARS',)
    if v[0] == 'str': return ('IT', ('lit', v[1]))
    if v[0] == 'S' and not v[1]: return ('IT', ('lit', ""))
    if v[0] == 'S' and len(v[1]) == 1: return ('IT', v[1][0])
    raise Unsupported("chars of %r" % (v[0],))


@h("::slice::<impl [T]>::iter", "::IntoIterator for &'a [T]>::into_iter", "::IntoIterator for &'a [T; N]>::into_iter", "::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def s_iter(c, st, fn, a):
    r, v = c.vec(st, a[0]) if a[0][0] in ('R', 'B', 'P') else (None, a[0])
    if v[0] == 'SL': return ('IT', ('src', v[1], v[2]))
    if v[0] == 'TV': return ('TVI',) + v[1:]
    if v[0] == 'T':
        # two pointers, as in the library: the next element and the end
        ty = c.e.ret_type(st)
        if ty is None or not c.e.types[ty]["name"].endswith("slice::Iter"): raise Unsupported("iteration over an array")
        t = c.tables.setdefault(v[1], len(c.tables))
        if t == len(c.tables_l): c.tables_l.append(v[1])
        return ('A', ty, 0, (('EP', t, 0), ('EP', t, len(v[1])), UNIT))
    raise Unsupported("iteration over %r" % (v[0],))


@h("::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def s_iter_array(c, st, fn, a):
    if type(a[0]) is tuple and a[0][0] == 'T': return ('TI', a[0][1], 0)
    return NOTHANDLED


@h("::array::IntoIter<T, N> as std::iter::Iterator>::next")
def s_next(c, st, fn, a):
    r, v = c.vec(st, a[0])
    if type(v) is not tuple or v[0] != 'TI': raise Unsupported("next of %r" % (v[0] if type(v) is tuple else v,))
    ty = c.e.ret_type(st)
    if v[2] >= len(v[1]): return c.e.none(ty)
    c.put(st, r, v[:2] + (v[2] + 1,))
    return c.e.some(ty, v[1][v[2]])


@h("::iter::Iterator::copied", "::iter::Iterator::cloned", "::slice::<impl [T]>::to_vec", "::slice::<impl [T]>::into_vec")
def s_copied(c, st, fn, a):
    v = a[0]
    if v[0] in ('IT', 'TVI'): return v
    if v[0] == 'A': return NOTHANDLED
    raise Unsupported("copy of %r" % (v[0],))


@h("::iter::Iterator::all", "::iter::Iterator::any", "::iter::Iterator::count", "::iter::Iterator::position", "::iter::Iterator::find",
   "::iter::Iterator::last", "::iter::Iterator::nth")
def s_search(c, st, fn, a):
    v = a[0]
    while type(v) is tuple and v[0] in ('R', 'B', 'P'): v = c.e.load(st, v)
    if type(v) is not tuple or v[0] != 'IT': return NOTHANDLED
    n = fn.path.rsplit("::", 1)[-1]
    if v[1][0] == 'lit' and len(a) == 1:
        if n == "count": return len(v[1][1])
    if n in ("all", "any"):
        if v[1][0] == 'lit' and v[1][1] == "" or v[1][0] == 'src' and v[1][1] == v[1][2]: return int(n == "all")
        return c.choose(st, "a search in a text")
    return OPT_X


@h("::iter::Iterator::rev")
def s_revit(c, st, fn, a):
    v = a[0]
    if type(v) is tuple and v[0] == 'TVI': return v[:3] + ((1 - v[3]) if v[2] > v[1] else 0,)
    raise Unsupported("reversed iteration")


@h("::slice::<impl [T]>::contains")
def s_contains(c, st, fn, a):
    r, v = c.vec(st, a[0])
    x = a[1]
    while type(x) is tuple and x[0] in ('R', 'B', 'P'): x = c.e.load(st, x)
    if v[0] == 'SL': raise Unsupported("search in the source")
    if v[0] == 'V' and v[1] in ('P', 'I'): raise Unsupported("search in a stack")
    es = v[1] if v[0] == 'T' else v[3] if v[0] == 'V' else None
    if es is None: raise Unsupported("search in %r" % (v[0],))
    if type(x) is tuple and x[0] == 'ch' and all(type(y) is int and (y < 128 or not c.chset("Eq", y)[2]) for y in es):
        m = 0
        for y in es: m |= 1 << y if y < 128 else c.chset("Eq", y)[0]
        return 1 - c.chtest(st, x[1], (m, NEOF & ~m, 0), "")
    for y in es:
        while type(y) is tuple and y[0] in ('R', 'B', 'P'): y = c.e.load(st, y)
        if type(x) is int and type(y) is int: q = int(x == y)
        elif type(x) is tuple and type(y) is tuple and x[0] in ('S', 'str') and y[0] in ('S', 'str'): q = c.str_eq(st, x, y)
        elif type(x) is tuple and x[0] == 'ch' and type(y) is int: q = c.binop(st, "Eq", x, y, None)
        else: raise Unsupported("search for %r" % (x,))
        if q: return 1
    return 0


@h("::str::<impl str>::to_lowercase", "::str::<impl str>::to_uppercase", "::str::<impl str>::to_ascii_lowercase", "::str::<impl str>::to_ascii_uppercase")
def s_fold(c, st, fn, a): return c.folded(st, c.vec(st, a[0])[1], "upper" in fn.short)


@h("::str::<impl str>::eq_ignore_ascii_case")
def s_eqfold(c, st, fn, a):
    x = c.folded(st, c.vec(st, a[0])[1], False); y = c.folded(st, c.vec(st, a[1])[1], False)
    return c.str_eq(st, x, y)


@h("::iter::Iterator::collect", "::iter::FromIterator<char>>::from_iter", "String as std::iter::FromIterator<&'a char>>::from_iter")
def s_collect(c, st, fn, a):
    v = a[0]
    if v == ('CHARS',): return ('SRC',)
    if type(v) is tuple and v[0] == 'TVI': return ('TV',) + v[1:]
    if type(v) is tuple and v[0] == 'IT':
        g = v[1]
        return ('S', (g,) if g[1] != (g[2] if len(g) > 2 else "") else ())
    raise Unsupported("collect")


@h("::string::String::new", "::string::String::with_capacity", "::string::String as std::default::Default>::default")
def s_new(c, st, fn, a): return ('S', ())


@h("::string::String::push", "::string::String::push_str")
def s_push(c, st, fn, a):
    x = a[1]
    if fn.short == "push_str":
        x = c.e.load(st, x)
        while type(x) is tuple and x[0] in ('R', 'B', 'P'): x = c.e.load(st, x)
    r, v = c.vec(st, a[0])
    c.put(st, r, c.append(st, v, x))
    return UNIT


@h("::string::String::clear")
def s_clear(c, st, fn, a):
    r, v = c.vec(st, a[0]); c.put(st, r, ('S', ())); return UNIT


@h("::string::String::len", "::str::<impl str>::len", "::string::String::is_empty", "::str::<impl str>::is_empty")
def s_len(c, st, fn, a):
    r, v = c.vec(st, a[0])
    if v[0] == 'SRCSTR':
        if fn.short == "is_empty": return int(c.iseof(st, BASE))
        return ('BLEN',) if st.world.gen is None else OPT_X
    x = c.val_text(st, v)
    if fn.short == "is_empty":
        if x is not None: return int(x == ('t', "") or x[0] == 'src' and x[1] == x[2])
        return int(not v[1]) if v[0] == 'S' else OPT_X
    if x is not None and x[0] == 't': return len(x[1].encode())
    if x is not None and x[0] == 'src':
        t = c.text_of(st, x[1], x[2])
        if t is not None and t != '?': return len(t.encode())
        return ('BL',) + x[1:3]
    return OPT_X


def cut(c, st, v, ks):
    """Text v is divided at the byte offsets ks: a panic unless each is the start of a character or the end.  Returns the
    text when it is known."""
    x = c.val_text(st, v)
    t = None
    if x is not None and x[0] == 't': t = x[1]
    elif x is not None and x[0] == 'src':
        s = c.text_of(st, x[1], x[2])
        if s is not None and s != '?': t = s
    if t is not None:
        b = t.encode()
        for k in ks:
            if k > len(b) or k < len(b) and b[k] & 0xC0 == 0x80: return cutpanic(c, st)
        return b
    if x is None or x[0] != 'src': return None
    lo, hi = x[1:3]
    w = st.world
    k = max(ks)
    for lit in c.spec.comments:
        if k <= len(lit) and w.imp is None and (w.core[0] == "COM" and lo == w.item and hi == w.d and lit in w.core[2] or
                                                w.com is not None and (lo, hi) == w.com[:2] and lit in w.com[2]): return lit[:k].encode()
    ascii_ = 0
    while ascii_ < k and lo + ascii_ < hi:
        m = w.cells.get(lo + ascii_)
        if m is None or m >> 128: break
        ascii_ += 1
    if ascii_ >= k: return None
    first = w.cells.get(lo)
    if first is not None and (first & sum(1 << ord(ch) for ch in "0123456789.+-*/%&|^<>=!@~()[]{},:;") == first): return None
    if w.imp in (None, LENGTH): return cutpanic(c, st)
    return None


def cutpanic(c, st):
    st.world.imp = None
    c.on_panic(st, "text divided at a byte that need not be the start of a character", c.e.span(st)); raise Stop()


def textrange(c, i):
    if not (type(i) is tuple and i[0] == 'A'): return None
    nm = c.e.types[i[1]]["name"]
    if nm.endswith("::Range"): lo, hi = i[3]
    elif nm.endswith("::RangeFrom"): lo, hi = i[3][0], None
    elif nm.endswith("::RangeTo"): lo, hi = 0, i[3][0]
    else: return None
    if type(lo) is not int or hi is not None and type(hi) is not int or ispos(lo) or hi is not None and ispos(hi): return None
    return lo, hi


def textslice(c, st, v, i):
    g = textrange(c, i)
    if g is None: raise Unsupported("slice of a text")
    lo, hi = g
    b = cut(c, st, v, [k for k in (lo, hi) if k])
    if b is None: return OPT_X
    if hi is not None and lo > hi: cutpanic(c, st)
    s = b[lo:hi].decode()
    return ('R', ('V', ('S', (('lit', s),) if s else ())), ())


@h("::str::<impl str>::get")
def s_get(c, st, fn, a):
    ty = c.e.ret_type(st)
    r, v = c.vec(st, a[0])
    g = textrange(c, a[1])
    x = c.val_text(st, v)
    if g is not None and x is not None and x[0] == 't':
        b = x[1].encode()
        lo, hi = g
        for k in (lo, hi if hi is not None else len(b)):
            if k > len(b) or k < len(b) and b[k] & 0xC0 == 0x80: return c.e.none(ty)
        s = b[lo:hi].decode()
        return c.e.some(ty, ('R', ('V', ('S', (('lit', s),) if s else ())), ()))
    if c.choose(st, "a part of a text that may not be there"): return c.e.some(ty, OPT_X)
    return c.e.none(ty)


@h("::str::<impl str>::is_char_boundary")
def s_bound(c, st, fn, a):
    r, v = c.vec(st, a[0])
    x = c.val_text(st, v)
    if x is not None and x[0] == 't' and type(a[1]) is int and not ispos(a[1]):
        b = x[1].encode()
        return int(a[1] == len(b) or a[1] < len(b) and b[a[1]] & 0xC0 != 0x80)
    return c.choose(st, "a character boundary")


@h("::str::<impl str>::split_at", "::string::String::truncate", "::string::String::split_off")
def s_split(c, st, fn, a):
    r, v = c.vec(st, a[0])
    k = a[1]
    if type(k) is not int or ispos(k): raise Unsupported("text divided at an unknown place")
    if fn.short == "truncate":
        x = c.val_text(st, v)
        if x is not None and x[0] == 't' and k >= len(x[1].encode()): return UNIT
    cut(c, st, v, [k] if k else [])
    raise Unsupported("text divided")


@h("::str::<impl str>::parse", "::from_str_radix", "::str::FromStr>::from_str")
def s_parse(c, st, fn, a):
    """A text read as a number.  Whatever integer type is chosen, a long enough text does not fit."""
    ty = c.e.ret_type(st)
    r, v = c.vec(st, a[0])
    x = c.val_text(st, v)
    T = c.e.types
    arg = next((i for i in T[ty].get("args", ()) if isinstance(i, int)), None)
    long = x is not None and x[0] == 'src' and c.text_of(st, x[1], x[2]) in ('?', None)
    w = st.world
    if w.orc is not None:
        k = w.orc; w.orc = None
        return ('A', ty, k, (OPT_X,))

    def mk(i):
        def alt(s):
            s.world.orc = i
            if i == 0 or not (long and arg is not None and c.e.int_ty(arg)): c.imprecise(s, "a text read as a number")
        return alt
    raise Fork([mk(1), mk(0)])


@h("::str::traits::<impl std::cmp::PartialEq for str>::eq", "::string::String as std::cmp::PartialEq>::eq", "::string::String as std::cmp::PartialEq<str>>::eq",
   "::string::String as std::cmp::PartialEq<&'a str>>::eq", "::cmp::PartialEq<std::string::String> for str>::eq", "::cmp::PartialEq<&str> for std::string::String>::eq",
   "::string::String as std::cmp::PartialEq<&str>>::eq", "str as std::cmp::PartialEq<std::string::String>>::eq")
def s_eq(c, st, fn, a):
    x = c.vec(st, a[0])[1]; y = c.vec(st, a[1])[1]
    return c.str_eq(st, x, y)


@h("::str::<impl str>::starts_with")
def s_starts(c, st, fn, a):
    x = c.vec(st, a[0])[1]; y = a[1]
    if type(y) is tuple and y[0] == 'R': y = c.e.load(st, y)
    if type(y) is int: return c.starts(st, x, chr(y))
    t = c.val_text(st, y)
    if t is None or t[0] != 't': return c.choose(st, "a prefix test")
    return c.starts(st, x, t[1])


@h("::str::<impl str>::strip_prefix")
def s_strip(c, st, fn, a):
    """Some(rest) when the text starts with the word; the rest itself is opaque."""
    ty = c.e.ret_type(st)
    return c.e.some(ty, OPT_X) if s_starts(c, st, fn, a) else c.e.none(ty)


@h("ToString>::to_string", "::str::<impl str>::to_owned", "::borrow::ToOwned for str>::to_owned", "::string::String as std::convert::From<&str>>::from",
   "::string::String as std::clone::Clone>::clone", "::convert::Into<U>>::into", "::str::<impl std::borrow::ToOwned for str>::to_owned", "::str::<impl str>::to_string",
   "::string::String as std::convert::From<char>>::from", "::string::String::into_boxed_str")
def s_to(c, st, fn, a):
    v = a[0]
    while type(v) is tuple and v[0] in ('R', 'B', 'P'): v = c.e.load(st, v)
    if type(v) is tuple:
        if v[0] == 'str': return ('S', (('lit', v[1]),) if v[1] else ())
        if v[0] == 'S': return v
        if v[0] == 'ch': return c.append(st, ('S', ()), v)
        if v[0] == 'EX': return v
    return ('EX', (v,)) if ispos(v) else OPT_X


@h("::fmt::rt::Argument::<'_>::new_display", "::fmt::rt::Argument::<'_>::new_debug", "::fmt::Arguments::<'a>::new", "::fmt::format", "::fmt::Arguments::<'a>::from_str",
   "::fmt::Arguments::<'a>::new_const", "::fmt::Arguments::<'a>::new_v1", "::string::String as std::ops::Add<&str>>::add", "::fmt::Arguments::<'a>::from_str_nonconst", "must_use::<std::string::String>")
def f_any(c, st, fn, a):
    """Text put together from values: unknown except for the values, ('EX', values)."""
    r = ()
    for v in a:
        while type(v) is tuple and v[0] in ('R', 'B', 'P'): v = c.e.load(st, v)
        vs = v[1] if type(v) is tuple and v[0] == 'T' else (v,)
        for x in vs:
            while type(x) is tuple and x[0] in ('R', 'B', 'P'): x = c.e.load(st, x)
            if type(x) is tuple and x[0] == 'EX': r += x[1]
            elif type(x) is int:
                if x >= LO or v is x and "Argument::" in fn.path: r += (x,)
            elif type(x) is tuple and x[0] == 'LEN': r += (x,)
            elif type(x) is tuple and (x[0] in ('S', 'str', 'ch')): pass
            elif type(x) is tuple and x[0] == 'T': pass
            else: r += (OPT_X,)
    return ('EX', r)


def f_panic(c, st, fn, a):
    c.on_panic(st, "call of " + fn.path.rsplit("::", 1)[-1] if fn is not None else "call of a panic function", c.e.span(st)); raise Stop()


def chpred(name, f):
    mask = 0
    for i in range(L.NATOMS):
        if i != L.EOF and f(i): mask |= 1 << i

    def hd(c, st, fn, a):
        v = a[0]
        while type(v) is tuple and v[0] == 'R': v = c.e.load(st, v)
        if type(v) is int:
            if v < 128: return int(bool(mask >> v & 1))
            ch = chr(v)
            return int({"is_alphabetic": ch.isalpha(), "is_alphanumeric": ch.isalpha() or ch.isnumeric(), "is_numeric": ch.isnumeric(),
                        "is_whitespace": ch.isspace()}.get(name, False))
        if type(v) is tuple and v[0] == 'ch':
            unk = 0
            if name in ("is_uppercase", "is_lowercase", "is_control"): unk = sum(1 << i for i in range(L.EOF + 1, L.NATOMS))
            return 1 - c.chtest(st, v[1], (mask & ~unk, NEOF & ~mask & ~unk, unk), "a case test of a non-ASCII letter")
        if v == OPT_X: return c.choose(st, "an unknown character")
        raise Unsupported("%s of %r" % (name, v))
    if name in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_whitespace"): PREDS.append(mask)
    else: PREDS_X[name] = mask
    HANDLERS.append(("::<impl char>::" + name, hd))


A = lambda f: (lambda i: i < 128 and f(chr(i)))
chpred("is_alphabetic", L.is_alpha)
chpred("is_alphanumeric", lambda i: L.is_alpha(i) or L.is_num(i))
chpred("is_numeric", L.is_num)
chpred("is_whitespace", lambda i: L.CATS.get(i, i) == L.NW or i < 128 and chr(i) in " \t\n\r\x0b\x0c")
chpred("is_ascii_digit", A(lambda c: c in "0123456789"))
chpred("is_ascii_hexdigit", A(lambda c: c in "0123456789abcdefABCDEF"))
chpred("is_ascii_alphabetic", A(str.isalpha))
chpred("is_ascii_alphanumeric", A(str.isalnum))
chpred("is_ascii_uppercase", A(str.isupper))
chpred("is_ascii_lowercase", A(str.islower))
chpred("is_ascii_whitespace", A(lambda c: c in " \t\n\r\x0c"))
chpred("is_ascii_punctuation", A(lambda c: 33 <= ord(c) < 127 and not c.isalnum()))
chpred("is_ascii_control", A(lambda c: ord(c) < 32 or ord(c) == 127))
chpred("is_control", A(lambda c: ord(c) < 32 or ord(c) == 127))
chpred("is_ascii_graphic", A(lambda c: 33 <= ord(c) < 127))
chpred("is_ascii", A(lambda c: True))
chpred("is_uppercase", A(str.isupper))
chpred("is_lowercase", A(str.islower))


@h("::<impl char>::is_digit")
def c_isdigit(c, st, fn, a):
    v, rx = a
    if type(rx) is not int: raise Unsupported("is_digit")
    ok = 0
    for i in range(128):
        try:
            if int(chr(i), 36) < rx and chr(i).isalnum(): ok |= 1 << i
        except ValueError: pass
    if type(v) is int: return int(v < 128 and ok >> v & 1)
    if type(v) is tuple and v[0] == 'ch': return 1 - c.chtest(st, v[1], (ok, NEOF & ~ok, 0), "")
    raise Unsupported("is_digit")


@h("::<impl char>::to_digit")
def c_todigit(c, st, fn, a):
    """Whether it is a digit; which one is opaque unless the character is known."""
    v, rx = a
    ty = c.e.ret_type(st)
    if not c_isdigit(c, st, fn, a): return c.e.none(ty)
    if type(v) is int: return c.e.some(ty, int(chr(v), 36))
    return c.e.some(ty, OPT_X)


@h("::clone::impls::<impl std::clone::Clone for char>::clone", "::clone::impls::<impl std::clone::Clone for u32>::clone")
def c_clone(c, st, fn, a): return c.e.load(st, a[0])


def analyse(prog, max_states=300000):
    gmap = {}
    while True:
        lx = Lexer(prog, gmap)
        try: return lx.run(max_states)
        except Restart: continue
