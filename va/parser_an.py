"""Parser client: every grammar rule of the parser is analysed on its own, in lock step with the reference grammar.

A rule's abstract state holds the set of kinds the current token may still have, what of the reference grammar remains to
be matched, and which consumed tokens / finished sub-trees are not yet part of a tree node.  Calls of other grammar rules
are cut and replaced by the contract those rules are themselves checked against (assume/guarantee)."""

import hashlib
from . import interp, rx, pygrammar
from .interp import Engine, Renamer, Client, State, Fork, Stop, Unsupported, NOTHANDLED, UNIT
from .mir import AnalysisError

UNK = ('unk',)
# text that is unknown except for the values written into it: ('unk', (value, ..)); PASSED stands for the text of another error
PASSED = ('passed',)


class World:
    __slots__ = ("ref", "pending", "label", "start", "la", "lamask", "failed", "failbad", "lexerr", "progress", "deps", "est",
                 "inplace", "mode", "solo", "tests", "soft", "nextr", "nextv", "nkind", "eofnext", "sofar", "dead_by", "init", "ctr", "entry")

    def copy(self):
        w = World.__new__(World)
        for k in World.__slots__: setattr(w, k, getattr(self, k))
        w.label = dict(self.label); w.start = dict(self.start); w.nkind = dict(self.nkind); w.solo = dict(self.solo)
        return w


class Problem:
    def __init__(self, prop, rule, cat, detail, span, trace, kinds=None, at=None):
        self.kinds = kinds; self.at = at
        self.prop = prop; self.rule = rule; self.cat = cat; self.detail = detail; self.span = span; self.trace = trace

    @property
    def key(self): return "%s: %s: %s" % (self.rule, self.cat, self.detail)


class RuleResult:
    def __init__(self, name):
        self.name = name; self.problems = {}; self.calls = []; self.returns_noprogress = False
        self.kinds = set(); self.passes = set(); self.oks = 0; self.errs = 0; self.states = 0
        self.undecided = []; self.edges = []; self.events = 0; self.nodes_built = 0; self.shapes = 0; self.forked_nodes = False
        self.panics = 0; self.selfloop = []; self.errtexts = set(); self.erropen = set()
        self.entered = set(); self.left = set(); self.gains = set(); self.asked = set()


def is_est(v): return type(v) is tuple and len(v) == 2 and v[0] == 'est'          # a field of the caller's handler mode


class ParserModel:
    """Static facts about the analysed parser shared by all rule runs."""

    def __init__(self, prog):
        self.p = prog
        self.counted = {}
        self.cache = {}; self.kinds0 = {}; self.empties0 = set()
        T = prog.types

        def find(name, kind="adt"):
            c = [i for i, t in enumerate(T) if t["k"] == "adt" and t["name"].rsplit("::", 1)[-1] == name
                 and t["name"].startswith("python_core_rust")]
            if len(c) != 1: raise AnalysisError("type %s not found (%d candidates)" % (name, len(c)))
            return c[0]
        self.tok = find("Token"); self.ast = find("ASTNode"); self.parser = find("PythonCoreParser")
        self.tokvars = [v["name"] for v in T[self.tok]["v"]]
        self.astvars = [v["name"] for v in T[self.ast]["v"]]
        self.tokdiscr = [i if v["discr"] is None else v["discr"] for i, v in enumerate(T[self.tok]["v"])]
        self.astdiscr = [i if v["discr"] is None else v["discr"] for i, v in enumerate(T[self.ast]["v"])]
        n = len(self.tokvars)
        self.bit = {v: 1 << i for i, v in enumerate(self.tokvars)}
        self.name_lits = {"match": 1 << n}
        self.namebase = self.bit["AtomName"]
        self.NAME = self.namebase | self.name_lits["match"]
        self.INIT = 1 << (n + 1); self.LEXERR = 1 << (n + 2)
        self.ALL = (1 << (n + 1)) - 1
        self.EOF = self.bit["EOF"]
        kn = {i: v for i, v in enumerate(self.tokvars)}
        kn[n] = "AtomName'match'"; kn[n + 1] = "start of source"; kn[n + 2] = "tokenizer error"
        rx.set_kind_names(kn)
        # rule functions
        self.rules = {}
        for f in prog.local:
            nm = pygrammar.rule_name(f.short)
            if nm is not None and f.has_body and "{closure" not in f.path and f.argc >= 1:
                self.rules.setdefault(nm, f)
        res = next((f.locals[0] for f in self.rules.values()), None)

        def rulelike(f):
            t = T[f.locals[1]] if f.argc == 1 and "{closure" not in f.path else None
            return t is not None and t["k"] == "ref" and t["t"] == self.parser and f.locals[0] == res
        self.rules.update(pygrammar.renamed(prog, self.rules, rulelike))
        self.g, self.modes = pygrammar.build(self, set(self.rules))
        self.ps = T[self.parser]["v"][0]["f"]
        self.pfield = {nm: i for i, (nm, ty) in enumerate(self.ps)}
        # functions named like rules that the reference does not know are helpers: analysed where they are called
        base = {x.split("@")[0].split("(")[0] for x in self.g.r} | set(self.g.opaque) | set(self.modes)
        self.rules = {nm: f for nm, f in self.rules.items() if nm in base}
        self.byid = {f.id: nm for nm, f in self.rules.items()}
        self.mode_is = (); self.mode_vals = (); self.probing = None; self._initial = 0
        self.vals = {}; self.exits = {}; self.grown = set(); self.moved = set(); self.xinit = None; self.xfin = []; self.xint = []
        if self.modes: self.find_mode()
        self.fields()

    # --- the field remembering which kind of exception handler has been seen ------------------------------------
    MODES = ("ExceptNone", "ExceptMul", "Except")

    def find_mode(self):
        """The fields that start at one value and are left at two others by the two kinds of handler."""
        T = self.p.types
        i = self.pfield.get("except_status")
        if i is not None and T[self.ps[i][1]]["k"] == "adt":
            ty = self.ps[i][1]; nm = [v["name"] for v in T[ty]["v"]]
            if all(x in nm for x in self.MODES):
                self.mode_is = (i,); self.mode_vals = tuple((('A', ty, nm.index(x), ()),) for x in self.MODES); return
        fs = self.initial_values()
        if fs is None or "except_clause" not in self.rules: return
        cand = [i for i, (nm, ty) in enumerate(self.ps) if nm not in ("lexer", "symbol") and concrete(fs[i])
                and (self.finite(ty) or T[ty]["k"] == "int")]

        def left(vals):
            self.mode_is = tuple(cand); self.mode_vals = (vals,); self.probing = []
            try: analyse_rule(self, "except_clause", self.rules["except_clause"], None, 0, {}, set())
            except Unsupported: self.probing = []
            r = [[v for m, v in self.probing if m == x and all(map(concrete, v))] for x in ("star", None)]
            self.probing = None; self.mode_is = (); self.mode_vals = ()
            return r

        def most(x): return max(set(x), key=lambda v: (x.count(v), repr(v))) if x else None
        init = tuple(fs[i] for i in cand)
        star, plain = map(most, left(init))
        if star is None or plain is None: return
        # a count of handlers is no mode
        use = [j for j, i in enumerate(cand) if star[j] != plain[j] or not star[j] == plain[j] == init[j] and self.finite(self.ps[i][1])]
        vals = [tuple(v[j] for j in use) for v in (init, star, plain)]
        if len(set(vals)) != 3: return
        # and it stays as it is from one handler to the next of its kind
        for k, v in ((0, star), (1, plain)):
            v = most(left(v)[k])
            if v is not None and tuple(v[j] for j in use) != vals[k + 1]: return
        self.mode_is = tuple(cand[j] for j in use); self.mode_vals = tuple(vals)

    # --- further fields of the parser ---------------------------------------------------------------------------
    def finite(self, ty):
        T = self.p.types; t = T[ty]
        if t["k"] == "bool": return True
        if t["k"] != "adt": return False
        if t["name"].startswith("python_core_rust"): return bool(t["v"]) and len(t["v"]) < 9 and not any(v["f"] for v in t["v"])
        return t["name"].endswith("option::Option") and self.finite(t["v"][1]["f"][0][1])

    def fields(self):
        """Fields of the parser besides the known three: of few values (all values each rule is entered with are found by a fixpoint),
        or numbers (relative to their value when the rule is entered)."""
        for i, (nm, ty) in enumerate(self.ps):
            if nm in ("lexer", "symbol") or i in self.mode_is: continue
            if self.finite(ty): self.xfin.append(i)
            elif self.p.types[ty]["k"] == "int": self.xint.append(i)
        if not self.xfin and not self.xint: return
        fs = self.initial_values()
        if fs is None:
            self.xfin = []; self.xint = []; return
        self.xfin = [i for i in self.xfin if concrete(fs[i])]
        self.xint = [i for i in self.xint if type(fs[i]) is int]
        self.xinit = fs

    def initial_values(self):
        """The fields of a new parser."""
        if self._initial != 0: return self._initial
        xf = self.xfin, self.xint
        self.xfin = []; self.xint = []
        new = [f for f in self.p.local if f.short == "new" and f.has_body and self.p.types[f.locals[0]] is self.p.types[self.parser]]
        got = []
        if len(new) == 1:
            res = RuleResult("new")
            c = RuleClient(self, "atom" if "atom" in self.g.r else next(iter(self.g.r)), new[0], None, None, {}, set(), res)
            c.on_return = lambda st, v: got.append((st, v))
            e = Engine(self.p, c, 2000)
            st, _ = c.initial('ok')
            try:
                e.push(st, new[0], [('opaque', 'lexer')] * new[0].argc, None, None)
                e.run(st)
            except Unsupported: got = []
        self.xfin, self.xint = xf
        self._initial = got[0][1][3] if len(got) == 1 and type(got[0][1]) is tuple and got[0][1][0] == 'A' else None
        return self._initial

    def variants(self, nm):
        """Analysis variants of a rule: list of (nonterminal name, args builder)."""
        f = self.rules[nm]
        tys = [self.p.types[f.locals[i + 1]] for i in range(f.argc)]
        rest = tys[1:]
        ks = [t["k"] for t in rest]
        if not rest: return [(nm, None)]
        if ks == ["bool"]: return [(nm + "(false)", 0), (nm + "(true)", 1)]
        if len(rest) == 2 and ks[0] == "int" and ks[1] == "adt": return [(nm, "left")]
        raise Unsupported("parameters of rule " + nm)


def concrete(v): return type(v) is int or type(v) is tuple and v[0] == 'A' and all(concrete(x) for x in v[3])


def subst(v, a, b):
    if v == a: return b
    if type(v) is tuple: return tuple(subst(x, a, b) for x in v)
    return v


class RuleClient(Client):
    def __init__(self, pm, nt, fn, arg, status, kinds, empties, res):
        self.empties = empties
        self.pm = pm; self.nt = nt; self.fn = fn; self.arg = arg; self.status = status
        self.kinds = kinds; self.res = res; self.g = pm.g
        self.cur = None
        self.many = pm.counted.get(nt, 2)
        self.nodeid = 0
        T = pm.p.types
        self.PyMul = pm.bit["PyMul"]

    # --- problems -----------------------------------------------------------------------------------------------
    def problem(self, st, prop, cat, detail, kinds=None):
        if st.world.soft:
            # only on a path that takes a test of values the analysis does not relate: possible, not shown
            u = (self.nt, "perhaps: %s: %s" % (cat, detail), self.e.span(st))
            if u not in self.res.undecided: self.res.undecided.append(u)
            return
        at = None
        if cat in ("rejects", "stops early", "accepts too much"):
            ref = st.world.ref
            at = hashlib.sha256(("%s %s" % (rx.kinds_list(self.g.first(ref, True)), self.g.nullable(ref))).encode()).hexdigest()[:8]
        p = Problem(prop, self.nt, cat, detail, self.e.span(st), self.trace_text(st), rx.kinds_list(kinds) if kinds else None, at)
        self.res.problems.setdefault((prop, p.key, at), p)

    def trace_text(self, st):
        out = []
        t = st.trace
        while t is not None and len(out) < 60:
            out.append(t[1]); t = t[0]
        return list(reversed(out))

    def ev(self, st, text):
        st.trace = (st.trace, "%s  [%s]" % (text, self.e.span(st)))
        self.res.events += 1

    # --- set up -------------------------------------------------------------------------------------------------
    def initial(self, entry, vals=None):
        """entry: 'ok' | 'err' | 'init'"""
        pm = self.pm
        if vals is None: vals = tuple(pm.xinit[i] for i in pm.xfin) if pm.xinit else (0,) * len(pm.xfin)
        w = World()
        ref_nt = self.nt
        self.opaque = ref_nt in self.g.opaque
        w.ref = rx.EPS if self.opaque else self.status_refs() or self.g.r[ref_nt]
        w.pending = (); w.label = {}; w.start = {}; w.nkind = {}; w.solo = {}
        w.failed = False; w.failbad = 0; w.lexerr = False; w.progress = False; w.deps = frozenset(); w.est = None
        w.tests = (); w.soft = False; w.ctr = ()
        w.inplace = None; w.mode = None; w.nextr = 0; w.nextv = 0; w.eofnext = False; w.sofar = False; w.dead_by = None; w.init = entry == 'init'
        st = State(w)
        args = []
        if self.arg == "left":
            l = self.fresh(w, ('n', '(left operand)'))
            m = self.fresh(w, None)
            w.start[l] = m
            w.pending = (('r', l),)
            self.left = l
        la = self.fresh(w, None)
        w.la = la
        w.lamask = pm.ALL if entry == 'ok' else pm.LEXERR if entry == 'err' else pm.INIT
        fs = []
        for nm, ty in pm.ps:
            if nm == "lexer": fs.append(('B', st.alloc(('lexer',))))
            elif nm == "symbol": fs.append(None)
            elif pm.pfield[nm] in pm.mode_is:
                j = pm.mode_is.index(pm.pfield[nm])
                if self.status is not None: fs.append(pm.mode_vals[self.status][j])
                else: fs.append(('est', j))
            elif pm.pfield[nm] in pm.xfin: fs.append(vals[pm.xfin.index(pm.pfield[nm])])
            elif pm.pfield[nm] in pm.xint: fs.append(('pf', pm.pfield[nm], 0) if pm.pfield[nm] in pm.moved else pm.xinit[pm.pfield[nm]] if pm.xinit else 0)
            else: fs.append(('opaque', nm))
        w.entry = vals
        h = st.alloc(('A', pm.parser, 0, tuple(fs)))
        self.ph = h
        st.world = w
        self.set_symbol(st, entry == 'ok')
        selfref = ('R', ('H', h), ())
        args = [selfref]
        self.mark0 = w.start[self.left] if self.arg == "left" else w.la
        if self.arg == "left": args += [('mark', w.start[self.left]), ('B', st.alloc(('node', self.left)))]
        elif self.arg is not None: args.append(self.arg)
        self.ev(st, "enter with current token: " + rx.kinds_text(w.lamask))
        return st, args

    ALLOWED = (("plain", "star"), ("star",), ("plain",))

    def status_refs(self):
        base = self.nt.split("@")[0]
        if base in self.pm.modes and self.status is not None:
            which = self.ALLOWED[self.status]
            return rx.alt(*[self.g.r[base + "@" + x] for x in which])
        return None

    def fresh(self, w, label):
        r = w.nextr; w.nextr += 1
        if label is not None: w.label[r] = label
        return r

    def sym_ty(self):
        return self.pm.ps[self.pm.pfield["symbol"]][1]

    def set_symbol(self, st, ok):
        w = st.world
        pv = st.heap[self.ph]
        v = ('A', self.sym_ty(), 0, (('B', st.alloc(('tok', w.la))),)) if ok else ('A', self.sym_ty(), 1, (('unk', (PASSED,)),))
        fs = list(pv[3]); fs[self.pm.pfield["symbol"]] = v
        st.heap[self.ph] = ('A', pv[1], pv[2], tuple(fs))

    # --- masks --------------------------------------------------------------------------------------------------
    def mask(self, st, rid):
        w = st.world
        if rid == w.la: return w.lamask
        l = w.label.get(rid)
        return l[1] if l and l[0] == 't' else self.pm.ALL

    def set_mask(self, st, rid, m):
        w = st.world
        if rid == w.la: w.lamask = m
        else: w.label[rid] = ('t', m)

    # --- events -------------------------------------------------------------------------------------------------
    def consume(self, st):
        """get_symbol(): the current token is left behind and a fresh one becomes current."""
        w = st.world; pm = self.pm
        m = w.lamask
        if st.extra is not None and st.extra[0] == 'next':
            raise Unsupported("nested advance")
        if m == pm.INIT: return
        if m == pm.LEXERR:
            w.lexerr = True
            return
        # split by the reference
        parts = self.g.dtok(w.ref)
        split = []
        rest = m
        for pmk, d in parts:
            x = m & pmk
            if x: split.append(x); rest &= ~x
        if rest: split.append(rest)
        # the end of the source stays current for ever
        sp2 = []
        for x in split:
            if x & pm.EOF and x != pm.EOF: sp2 += [pm.EOF, x & ~pm.EOF]
            else: sp2.append(x)
        if self.nt.split("@")[0] == "except_clause":
            sp3 = []
            for x in sp2:
                if x & self.PyMul and x != self.PyMul: sp3 += [self.PyMul, x & ~self.PyMul]
                else: sp3.append(x)
            sp2 = sp3
        if len(sp2) > 1:
            rid = w.la
            raise Fork([(lambda s, x=x: self.set_mask(s, rid, x)) for x in sp2])
        d = rx.EMPTY
        for pmk, dd in parts:
            if pmk & m: d = dd
        rid = w.la
        if w.inplace != rid:
            w.pending = w.pending + (('r', rid),)
        w.label[rid] = ('t', m)
        w.start[rid] = rid
        if d is rx.EMPTY and w.ref is not rx.EMPTY: w.dead_by = ("token", m)
        w.ref = d
        w.inplace = None
        if m == pm.EOF: w.eofnext = True
        else: w.progress = True; w.sofar = True
        if m == self.PyMul and self.nt.split("@")[0] == "except_clause" and w.mode is None: w.mode = "star"
        self.counters(st)
        self.ev(st, "consume " + rx.kinds_text(m))

    def counters(self, st):
        """A number that grows from token to token (or from sub-rule to sub-rule) three times is from then on only known to be large."""
        w = st.world
        old = {c[0]: c for c in w.ctr}
        new = []
        types = self.pm.p.types
        last = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            if i < last:
                nx = st.frames[i + 1]
                live = f.fn.live_in[nx.target] if nx.target is not None else ()
            else: live = set().union(*[f.fn.live_in[b] for b in f.fn.succs(f.bb)])
            for l in live:
                v = f.locals.get(l)
                if type(v) is not int or types[f.fn.locals[l]]["k"] != "int": continue
                k = (i, f.fn.id, l)
                o = old.get(k)
                g = 0 if o is None else o[2] + 1 if 0 < v - o[1] <= 8 else o[2] if v == o[1] else 0
                if g >= 3: f.locals[l] = ('cnt', k, v)
                else: new.append((k, v, g))
        w.ctr = tuple(sorted(new))

    def next_symbol(self, st, ty):
        """Result of get_symbol: forks into a token and a tokenizer error."""
        w = st.world
        nl = w.nextr
        if w.eofnext:
            mk = [self.pm.EOF]
        else: mk = [self.pm.ALL, self.pm.LEXERR]

        def setla(s, m):
            s.world.la = self.fresh(s.world, None); s.world.lamask = m
        return mk, setla

    def do_get_symbol(self, st, fn):
        w = st.world
        # phase 1: consume (may fork on the current token; idempotent because nothing is changed before a fork)
        if st.extra is None or st.extra[0] != 'next':
            self.consume(st)
            mk, setla = self.next_symbol(st, None)
            st.extra = ('next', st.extra)
            if len(mk) > 1:
                raise Fork([(lambda s, m=m: setla(s, m)) for m in mk])
            setla(st, mk[0])
        st.extra = st.extra[1]
        w = st.world
        ty = fn.locals[0]
        if w.lamask == self.pm.LEXERR: return ('A', ty, 1, (('unk', (PASSED,)),))
        return ('A', ty, 0, (('B', st.alloc(('tok', w.la))),))

    def nt_call(self, st, nm, fn, args):
        pm = self.pm; w = st.world; g = self.g
        if st.extra is not None and st.extra[0] == 'ntres':
            res = st.extra[1]; st.extra = st.extra[2]
            return self.nt_finish(st, res, fn)
        name = nm
        extra = args[1:]
        left = None
        if len(extra) == 1:
            if type(extra[0]) is not int: raise Unsupported("argument of rule " + nm)
            name = nm + ("(true)" if extra[0] else "(false)")
        elif len(extra) == 2:
            left = extra
        m = w.lamask
        if pm.INIT & m:
            if nm in pygrammar.INPUTS: pass
            else: m = w.lamask
        isopaque = name in g.opaque
        known = name in g.r or isopaque or nm in pm.modes
        if not known: raise Unsupported("rule %s has no reference" % name)
        # outcomes by except mode
        names = [(name, None)]
        if pm.xfin or pm.xint: self.fields_out(st, name)
        if nm in pm.modes:
            s = self.cur_status(st)
            if any(map(is_est, s)): self.fork_est()
            if s not in pm.mode_vals: raise Unsupported("except mode %r" % (s,))
            allowed = self.ALLOWED[pm.mode_vals.index(s)]
            names = [(nm + "@" + x, x) for x in allowed]
        fi = 0
        for x, _ in names: fi |= g.opaque[x] if x in g.opaque else g.first(g.r[x])
        A = m & fi; B = m & ~fi
        if A and B:
            rid = w.la
            raise Fork([(lambda s: self.set_mask(s, rid, A)), (lambda s: self.set_mask(s, rid, B))])
        # left operand hand-over
        lrid = None
        if left is not None:
            lrid = self.hand_over(st, left, name)
        if not w.progress and not w.soft:
            self.res.calls.append((pm.LEXERR if w.lexerr else pm.INIT if w.init else 0, m, name if nm not in pm.modes else nm, self.e.span(st)))
        outs = []
        viable = g.first(w.ref, True) | (self.follow() if g.nullable_must(w.ref) else 0)
        if A:
            for x, md in names:
                d = g.dnt(w.ref, x)
                outs.append(('ok', x, md, d, lrid))
            # a failing sub-rule on an admissible token is the source's fault, unless the rule could not belong here
            bad = A & viable if isopaque else 0
            if nm in pm.modes:
                # handlers the current mode refuses although the reference takes them here
                for x in ("plain", "star"):
                    if x not in [md for _, md in names] and g.dnt(w.ref, nm + "@" + x) is not rx.EMPTY and g.first(w.ref, True) & A:
                        bad = A
            outs.append(('err', name, None, bad, lrid))
        else:
            outs.append(('err', name, None, m & viable, lrid))

        def settle(o):
            def ref(s):
                s.extra = ('ntres', o, s.extra)
            return ref
        raise Fork([settle(o) for o in self.expand(outs, self.exits_of(st, name) if pm.xfin else (None,))])

    @staticmethod
    def expand(outs, exits):
        r = []
        for o in outs:
            if o[0] == 'ok':
                for x in exits:
                    r.append(o + (True, x)); r.append(o + (False, x))
            else: r.append(o + (None,))
        return r

    def fields_now(self, st):
        fs = st.heap[self.ph][3]
        return tuple(fs[i] for i in self.pm.xfin)

    def fields_out(self, st, name):
        """what the further fields of the parser hold when a sub-rule is called"""
        w = st.world
        if w.failed or w.lexerr: return
        fs = st.heap[self.ph][3]
        if not w.soft: self.res.entered.add((name, self.fields_now(st)))
        self.changes(st, name)

    def changes(self, st, name):
        """by how much number fields differ from what they were when the rule was entered"""
        for i in self.pm.xint:
            v = st.heap[self.ph][3][i]
            if type(v) is int: d = v - self.pm.xinit[i]
            elif type(v) is tuple and v[0] == 'pf': d = v[2]
            else: d = 1
            if d and not st.world.soft: self.res.gains.add((name, i, max(-8, min(8, d))))

    def exits_of(self, st, name):
        now = self.fields_now(st)
        self.res.asked.add((name, now))
        return sorted(self.pm.exits.get((name, now), (now,)), key=repr)

    def hand_over(self, st, left, name):
        w = st.world
        mk, bx = left
        v = self.e.load(st, bx) if type(bx) is tuple and bx[0] in ('B', 'R') else bx
        if not (type(v) is tuple and v[0] == 'node'): raise Unsupported("left operand of rule " + name)
        rid = v[1]
        if not (type(mk) is tuple and mk[0] == 'mark') or mk[1] != w.start.get(rid):
            self.problem(st, "P13", "start handed to " + name, "is not the start of the operand handed over")
        if not w.pending or w.pending[-1] != ('r', rid):
            self.problem(st, "P04", "operand handed to " + name, "is not the latest unfinished part of the tree")
        return rid

    def nt_finish(self, st, o, fn):
        pm = self.pm; w = st.world
        kind = o[0]
        ty = fn.locals[0]
        if kind == 'err':
            _, name, _, bad, lrid, _ = o
            w.failed = True
            w.failbad = bad
            w.la = self.fresh(w, None); w.lamask = pm.LEXERR
            self.set_symbol(st, False)
            self.ev(st, "%s fails" % name)
            return ('A', ty, 1, (('unk', (PASSED,)),))
        _, name, md, d, lrid, okla, xv = o
        if xv is not None:
            pv = st.heap[self.ph]
            fs = list(pv[3])
            for i, x in zip(pm.xfin, xv): fs[i] = x
            st.heap[self.ph] = ('A', pv[1], pv[2], tuple(fs))
        if d is rx.EMPTY and w.ref is not rx.EMPTY: w.dead_by = ("rule", name)
        w.ref = d
        base = name.split("@")[0]
        r = self.fresh(w, ('n', base))
        w.start[r] = w.la
        if lrid is not None:
            w.start[r] = w.start[lrid]
            w.pending = tuple(x for x in w.pending if x != ('r', lrid))
        w.pending = w.pending + (('r', r),)
        if w.inplace is not None:
            self.problem(st, "P04", "current token used and handed on", "a token already stored is given to " + name)
            w.inplace = None
        if base not in self.empties: w.progress = True; w.sofar = True
        self.counters(st)
        if md is not None:
            w.mode = md
            self.set_status(st, 2 if md == "plain" else 1)
        self.ev(st, name)
        w.la = self.fresh(w, None); w.lamask = pm.ALL if okla else pm.LEXERR
        self.set_symbol(st, okla)
        return ('A', ty, 0, (('B', st.alloc(('node', r))),))

    # --- except mode --------------------------------------------------------------------------------------------
    def cur_status(self, st):
        if not self.pm.mode_is: raise Unsupported("except mode field not found")
        return tuple(st.heap[self.ph][3][i] for i in self.pm.mode_is)

    def set_est(self, st, i):
        """The caller's mode is the i-th."""
        st.world.est = i
        for j, v in enumerate(self.pm.mode_vals[i]):
            for h in list(st.heap): st.heap[h] = subst(st.heap[h], ('est', j), v)
            for f in st.frames:
                for k in f.locals: f.locals[k] = subst(f.locals[k], ('est', j), v)

    def fork_est(self): raise Fork([(lambda x, i=i: self.set_est(x, i)) for i in range(len(self.pm.mode_vals))])

    def set_status(self, st, k):
        pv = st.heap[self.ph]
        fs = list(pv[3])
        for i, v in zip(self.pm.mode_is, self.pm.mode_vals[k]): fs[i] = v
        st.heap[self.ph] = ('A', pv[1], pv[2], tuple(fs))

    # --- engine hooks -------------------------------------------------------------------------------------------
    def call(self, st, fn, path, args):
        if fn is not None and fn.local:
            nm = self.pm.byid.get(fn.id)
            if nm is not None:
                return self.nt_call(st, nm, fn, args)
            if fn.short in ("get_symbol", "get_position") and args:
                a = args[0]
                v = self.e.load(st, a)
                if v == ('lexer',):
                    if fn.short == "get_symbol": return self.do_get_symbol(st, fn)
                    return ('mark', st.world.la)
            if path.endswith("::clone") and len(args) == 1:
                v = self.e.load(st, args[0])
                if type(v) is tuple and v[0] in ('tok', 'node', 'est'): return v
                return self.e.clone(st, v)
        self.text_changes(st, path, args)
        m = PMODELS.get(path)
        if m is not None: return m(self, st, fn, args)
        if "panicking::" in path or "::unwrap_failed" in path or "::expect_failed" in path:
            self.on_panic(st, "call of " + path.rsplit("::", 1)[-1], self.e.span(st))
            raise Stop()
        for s, m in PSUFFIX:
            if path.endswith(s): return m(self, st, fn, args)
        r = self.text_op(st, path, args)
        if r is not None: return r
        if path.startswith("std::fmt::") or "::core::fmt::" in path or path.startswith("std::io::_"):
            return self.formatted(st, path, args)
        return NOTHANDLED

    def formatted(self, st, path, args):
        """format!: what is written into the text."""
        short = path.rsplit("::", 1)[-1]
        if short.startswith("new_") and "Argument::" in path and len(args) == 1:
            v = args[0]
            while type(v) is tuple and v[0] in ('R', 'B'): v = self.e.load(st, v)
            if type(v) is tuple and v[0] == 'str': return ('unk', ())
            return v if type(v) is tuple and v[0] == 'unk' else ('unk', (v,))
        if path.endswith("Arguments::<'a>::new") or path.endswith("::new_v1") or path.endswith("::new_v1_formatted"):
            v = args[1]
            while type(v) is tuple and v[0] in ('R', 'B'): v = self.e.load(st, v)
            if not (type(v) is tuple and v[0] == 'T') or any(not (type(x) is tuple and x[0] == 'unk') for x in v[1]): return UNK
            if UNK in v[1]: return ('unk', (UNK,))
            return ('unk', tuple(y for x in v[1] for y in x[1]))
        if "Arguments" in path and short in ("from_str", "from_str_nonconst", "new_const"): return ('unk', ())
        if short in ("format", "must_use") and len(args) == 1 and type(args[0]) is tuple and args[0][0] == 'unk': return args[0]
        return UNK

    READS = {"as_str", "deref", "eq", "ne", "borrow", "as_ref", "len", "is_empty", "clone", "to_string", "to_owned", "into", "from", "new_display", "new_debug", "cmp", "push_str", "push", "write_fmt", "write_str", "with_capacity", "capacity", "reserve"}

    def text_changes(self, st, path, args):
        """Text given away by reference to something that may change it."""
        if path.rsplit("::", 1)[-1] in self.READS: return
        for a in args:
            if type(a) is tuple and a[0] == 'R':
                try: v = self.e.load(st, a)
                except Unsupported: continue
                if type(v) is tuple and v[0] == 'unk' and len(v) > 1: self.e.store(st, a, UNK)

    def text_op(self, st, path, args):
        """A library question about one unknown text: answered both ways."""
        if not args or not ("::str::" in path or "::string::String" in path): return None
        vs = []
        for a in args:
            while type(a) is tuple and a[0] in ('R', 'B'): a = self.e.load(st, a)
            vs.append(a)
        if not (type(vs[0]) is tuple and vs[0][0] in ('tf', 'unk', 'sx')): return None
        rt = self.pm.p.types[self.e.ret_type(st)]["k"]
        s, x = self.subject(vs[0])
        if rt not in ("int", "bool", "char") or s is None or any(type(y) is tuple and y[0] != 'str' for y in vs[1:]): return UNK
        return ('sx', s, (path, tuple(vs[1:]), x))

    def proj(self, st, v, s):
        if type(v) is tuple:
            if v[0] == 'tok':
                if type(s) is tuple and s[0] == 'd': return ('tokd', v[1], s[1])
            elif v[0] == 'tokd':
                if type(s) is int: return ('tf', v[1], v[2], s)
            elif v[0] == 'tf': return v + (s,)
            elif v[0] == 'opaque': return v
            elif v[0] == 'node':
                if type(s) is tuple and s[0] == 'd': return ('noded', v[1], s[1])
            elif v[0] == 'noded': return ('nf', v[1], v[2], s)
            elif v[0] in ('unk', 'nf'): return v
            elif v[0] == 'est': self.fork_est()
        raise Unsupported("projection %r of %r" % (s, v and v[0]))

    def deref(self, st, v):
        if type(v) is tuple and v[0] in ('tf', 'unk', 'nf', 'opaque'): return ('V', v), ()
        return None

    def cast(self, st, kind, a, ty):
        if is_est(a): self.fork_est()
        if type(a) is tuple and a[0] in ('tf', 'unk', 'nf', 'opaque'): return a
        s, x = self.subject(a) if type(a) is tuple else (None, None)
        if s is not None: return ('sx', s, ("cast", str(kind), ty, x))
        raise Unsupported("cast of %r" % (a,))

    def discr(self, st, v):
        if type(v) is tuple:
            if v[0] == 'tok': return ('kd', v[1])
            if v[0] == 'node': return ('nd', v[1])
            if v[0] == 'est': self.fork_est()
            if v[0] == 'tf': return ('sx', ('t', v[1]) + v[2:], ("discr",))
            if v[0] in ('unk', 'nf', 'opaque'): return UNK
        raise Unsupported("discriminant of %r" % (v,))

    def kmask(self, d):
        i = self.pm.tokdiscr.index(d)
        m = 1 << i
        return self.pm.NAME if m == self.pm.namebase else m

    def switch(self, st, v, values, exhaustive):
        if is_est(v): self.fork_est()
        pm = self.pm
        if type(v) is tuple and v[0] == 'kd':
            m = self.mask(st, v[1])
            parts = []
            rest = m
            for i, d in enumerate(values):
                x = m & self.kmask(d)
                if x: parts.append((x, i)); rest &= ~x
            if rest: parts.append((rest, -1))
            if len(parts) == 1: return parts[0][1]
            rid = v[1]
            raise Fork([(lambda s, x=x: self.set_mask(s, rid, x)) for x, _ in parts])
        if type(v) is tuple and v[0] == 'nd':
            ks = self.node_kinds(st, v[1])
            parts = []
            rest = set(ks)
            for i, d in enumerate(values):
                x = {k for k in ks if pm.astdiscr[k] == d}
                if x: parts.append((x, i)); rest -= x
            if rest: parts.append((rest, -1))
            if len(parts) == 1: return parts[0][1]
            rid = v[1]
            self.res.forked_nodes = True

            def setk(s, x): s.world.nkind[rid] = frozenset(x)
            raise Fork([(lambda s, x=x: setk(s, x)) for x, _ in parts])
        if type(v) is tuple and v[0] == 'vlen':
            if not [d for d in values if d >= v[1]]: return -1
            if v[1] == self.many <= max(values) < 9: raise Longer(max(values) + 1)
            return self.test(st, v, values, exhaustive)
        if type(v) is tuple and v[0] in self.UNTRACKED: return self.test(st, v, values, exhaustive)
        raise Unsupported("switch on %r" % (v,))

    # --- numbers and texts whose value is not tracked -----------------------------------------------------------
    # ('sx', subject, expression): depends on one unknown quantity only (a position, a token's text, a list's length)
    def subject(self, v):
        """-> (subject, expression) of a value depending on a single unknown quantity."""
        k = v[0]
        if k == 'sx': return v[1], v[2]
        if k == 'mark': return ('m', v[1]), ()
        if k == 'tf': return ('t', v[1]) + v[2:], ()
        if k == 'vlen': return ('l', v[2]), ()
        if k == 'cnt': return ('k', v[1]), ()
        if k == 'pf': return (('f', v[1]) if v[1] in self.pm.grown else None), (v[2],)
        return None, None

    def test(self, st, v, values, exhaustive):
        """The outcome of a decision on an untracked value: each one is explored, consistently for repeated tests."""
        w = st.world
        s, x = self.subject(v)
        outs = list(range(len(values))) + ([] if exhaustive else [-1])
        key = (x, tuple(values))
        soft = s is None
        if s is not None:
            for s2, k2, o in w.tests:
                if s2 != s: continue
                if k2 == key: return o
                soft = True

        def take(o):
            def f(z):
                if s is not None: z.world.tests = z.world.tests + ((s, key, o),)
                if soft: z.world.soft = True
                if s is None: z.extra = ('taken', o, z.extra)
            return f
        if st.extra is not None and st.extra[0] == 'taken':
            o = st.extra[1]; st.extra = st.extra[2]
            return o
        raise Fork([take(o) for o in outs])

    UNTRACKED = ('sx', 'mark', 'tf', 'vlen', 'cnt', 'pf', 'unk', 'opaque', 'nf')

    def untracked(self, v): return type(v) is tuple and bool(v) and v[0] in self.UNTRACKED

    def symbolic(self, op, a, b):
        """An operation on untracked values, or None."""
        if not (self.untracked(a) or type(a) is int) or not (self.untracked(b) or type(b) is int): return None
        if type(a) is tuple and type(b) is tuple:
            if a == b and a[0] in ('mark', 'tf', 'sx', 'vlen', 'cnt') and op in ("Eq", "Le", "Ge", "Ne", "Lt", "Gt"): return int(op in ("Eq", "Le", "Ge"))
            if a == b and a[0] in ('mark', 'vlen') and op.startswith("Sub"): return 0
            if a[0] == b[0] == 'mark' and op.startswith("Sub") and a[1] > b[1]: return ('sx', ('d', a[1], b[1]), ())
            if a[0] == b[0] == 'mark' and op[:3] in ("Add", "Mul"): return ('sx', ('d', b[1], a[1]), (op,))
            return UNK
        flip = type(a) is int
        v, c = (b, a) if flip else (a, b)
        if v[0] == 'pf' and not flip and op[:3] in ("Add", "Sub") and abs(c) <= 8:
            return ('pf', v[1], max(-8, min(8, v[2] + (c if op[0] == "A" else -c))))
        s, x = self.subject(v)
        if s is None: return UNK
        if s[0] in "fkld" and c >= (1 << 31) - 16 and op in ("Lt", "Le", "Eq", "Ne", "Gt", "Ge"): return int(op in (("Gt", "Ge", "Ne") if flip else ("Lt", "Le", "Ne")))
        if s[0] == 'f' and abs(c - self.pm.xinit[s[1]]) < 16: return UNK
        if v[0] == 'cnt' and op[:3] == "Add" and c < 9: return v
        if s[0] == 'd' and (abs(c) < 32 or x): return UNK
        if v[0] == 'mark' and c >= 1 << 30 and not flip and op in ("Lt", "Le", "Eq", "Ne", "Gt", "Ge"): return int(op in ("Lt", "Le", "Ne"))
        return ('sx', s, (op, flip, c, x))

    def cbinop(self, st, op, a, b, ty):
        r = self.symbolic(op, a, b)
        if r is None: raise Unsupported("%s of %r, %r" % (op, a, b))
        over = 0
        if op.startswith("Add") and type(r) is tuple and r[0] in ('cnt', 'pf'):
            it = self.e.int_ty(ty)
            if it is None or it[1] <= 16:
                s = self.subject(r)[0]
                over = UNK if s is None else ('sx', s, ("over",))
        if r is not UNK and type(r) is tuple and r[0] == 'pf' and op.startswith("Sub"): return ('T', (r, 0 if type(a) is tuple and a[2] >= b else UNK))
        if op.startswith("Sub") and type(a) is tuple and r != 0 and not (a[0] == 'vlen' and type(b) is int and b <= a[1]):
            if a[0] == 'mark' and type(b) is int and a[1] != self.mark0: over = 0 if b <= 1 else UNK
            elif r[0] == 'sx' and r[1][0] == 'd': over = 0
            elif r is UNK or a[0] != 'mark': over = UNK
            else: over = ('sx', ('m', a[1]), ("below", b))
        return ('T', (r, over))

    def saturated(self, st, op, a, b, v):
        s, x = self.subject(a) if type(a) is tuple else (None, None)
        return None if s is None or type(b) is not int else ('sx', s, ("saturating " + op, b, x))

    def unop(self, st, op, a, ty):
        if self.untracked(a):
            s, x = self.subject(a)
            return UNK if s is None else ('sx', s, (op, x))
        raise Unsupported("%s of %r" % (op, a))

    def node_kinds(self, st, rid):
        k = st.world.nkind.get(rid)
        if k is not None: return k
        l = st.world.label[rid]
        if l[0] == 'c': return frozenset([self.pm.astvars.index(l[1])])
        k = self.kinds.get(l[1])
        if k is not None: return frozenset(self.pm.astvars.index(x) for x in k)
        return frozenset(range(len(self.pm.astvars)))

    def binop(self, st, op, a, b, ty):
        if is_est(a) or is_est(b): self.fork_est()
        if op in ("Eq", "Ne"):
            if type(b) is tuple and type(a) is int: a, b = b, a
            if type(a) is tuple and a[0] in ('kd', 'nd') and type(b) is int:
                i = self.switch(st, a, [b], False)
                return int((i == 0) == (op == "Eq"))
            if type(a) is tuple and type(b) is tuple and a[0] == 'kd' and b[0] == 'kd':
                # two token kinds: concretise the smaller one
                m = self.mask(st, b[1])
                bits = [1 << i for i in range(m.bit_length()) if m >> i & 1]
                if len(bits) > 1:
                    rid = b[1]
                    raise Fork([(lambda s, x=x: self.set_mask(s, rid, x)) for x in bits])
                i = self.switch(st, a, [self.pm.tokdiscr[m.bit_length() - 1]], False)
                return int((i == 0) == (op == "Eq"))
        if type(a) is tuple and a[0] in ('vlen', 'cnt') or type(b) is tuple and b[0] in ('vlen', 'cnt'):
            flip = type(b) is tuple and b[0] in ('vlen', 'cnt')
            n = b[-1] if flip and b[0] == 'cnt' else b[1] if flip else a[-1] if a[0] == 'cnt' else a[1]
            c = a if flip else b
            if type(c) is not int or op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                r = self.symbolic(op, a, b)
                if r is None: raise Unsupported("vector length")
                return r
            # n stands for n or more
            import operator
            f = {"Eq": operator.eq, "Ne": operator.ne, "Lt": operator.lt, "Le": operator.le, "Gt": operator.gt, "Ge": operator.ge}[op]
            res = {int(f(c, x) if flip else f(x, c)) for x in (range(n, max(n, c) + 2))}
            if len(res) == 1: return res.pop()
            if self.many <= c < 9 and n == self.many and (b if flip else a)[0] == 'vlen': raise Longer(c + 1)
        r = self.symbolic(op, a, b)
        if r is not None: return r
        raise Unsupported("%s of %r and %r" % (op, a, b))

    # --- vectors ------------------------------------------------------------------------------------------------
    # ('vec', vid, orientation, count, labels): orientation any/fwd/rev/mixed; count 0, 1, .. self.many (= that many or more)
    def length(self, st, v):
        if type(v) is tuple and v[0] == 'vec':
            return v[3] if v[3] < self.many else ('vlen', self.many, v[1])
        raise Unsupported("length of %r" % (v,))

    def contents(self, st, v, out, seen=0):
        """Resources reachable in a value, in field order; entries ('r', rid) or the vec itself."""
        if type(v) is not tuple or not v: return
        k = v[0]
        if k == 'A':
            for x in v[3]: self.contents(st, x, out)
        elif k == 'T':
            for x in v[1]: self.contents(st, x, out)
        elif k == 'B': self.contents(st, st.heap[v[1]], out)
        elif k in ('tok', 'node'): out.append(('r', v[1]))
        elif k == 'vec': out.append(v)
        elif k in ('mark', 'unk', 'str'): pass
        elif k == 'R': raise Unsupported("reference stored in a tree")
        elif k == 'tf': pass
        else: raise Unsupported("unexpected value in a tree: %r" % (k,))

    def label_of(self, st, rid):
        w = st.world
        if rid == w.la: return ('t', w.lamask)
        return w.label.get(rid)

    def vec_push(self, st, v, x):
        w = st.world
        out = []
        self.contents(st, x, out)
        _, vid, ori, cnt, labels, _ = v
        pend = self.unrun(w, [c[1] for c in out if c[0] == 'r'], ())
        lab = set(labels)
        shape = []
        pos = []
        for c in out:
            if c[0] != 'r': raise Unsupported("vector of vectors")
            rid = c[1]
            if ('r', rid) not in pend:
                if rid == w.la:
                    # stored before it is consumed: consumed position is the end
                    if w.inplace == rid:
                        self.problem(st, "P04", "token stored twice", rx.kinds_text(self.mask(st, rid)))
                        continue
                    pend.append(('r', rid)); w.inplace = rid
                else:
                    self.problem(st, "P04", "stored twice", self.lab_text(self.label_of(st, rid)))
                    continue
            pos.append(pend.index(('r', rid)))
            shape.append(self.label_of(st, rid))
        lab.add(tuple(shape))
        if pos != sorted(pos): self.problem(st, "P05", "order inside a list element", "parts are not in source order")
        mine = [i for i, it in enumerate(pend) if it[0] == 'run' and vid in it[1]]
        later = [i for i in mine if pos and i > pos[-1]]
        if later:
            self.problem(st, "P05", "list element order", "an element is appended after a later one")
        for p in pos: pend[p] = ('run', frozenset([vid]), w.start.get(pend[p][1], pend[p][1]))
        w.pending = self.collapse(pend)
        if ori == 'any': o2 = 'any' if cnt == 0 else 'fwd'
        elif ori == 'fwd': o2 = 'fwd'
        else: o2 = 'mixed'
        if cnt == 1 and ori == 'any': o2 = 'fwd'
        w.solo.pop(vid, None)
        if w.tests and any(t[0] == ('l', vid) for t in w.tests):
            # of the tests made of a shorter list only the fact that there was one is kept
            w.tests = tuple(t for t in w.tests if t[0] != ('l', vid)) + ((('l', vid), ("before",), 0),)
        solo = None
        if cnt == 0 and len(out) == 1 and len(pos) == 1:
            solo = x; w.solo[vid] = out[0][1]
        return ('vec', vid, o2, min(self.many, cnt + 1), frozenset(lab), solo)

    def unrun(self, w, rids, vids):
        """A list with a single element whose element is used instead of the list."""
        return [('r', w.solo[next(iter(it[1]))]) if it[0] == 'run' and len(it[1]) == 1 and next(iter(it[1])) not in vids
                and w.solo.get(next(iter(it[1]))) in rids else it for it in w.pending]

    @staticmethod
    def collapse(pend):
        out = []
        for it in pend:
            if it[0] == 'run' and out and out[-1][0] == 'run':
                out[-1] = ('run', out[-1][1] | it[1], out[-1][2])
            else: out.append(it)
        return tuple(out)

    def vec_reverse(self, v):
        o = {'any': 'any', 'fwd': 'rev', 'rev': 'fwd', 'mixed': 'mixed'}[v[2]]
        return ('vec', v[1], o, v[3], v[4], v[5])

    # --- node construction --------------------------------------------------------------------------------------
    def make_adt(self, st, ty, variant, fs):
        if ty != self.pm.ast:
            if ty == self.pm.tok:
                self.problem(st, "P15", "token invented", "a grammar rule builds a token of kind " + self.pm.tokvars[variant])
                raise Stop()
            return ('A', ty, variant, fs)
        return self.build(st, variant, fs)

    def lab_text(self, l):
        if l is None: return "?"
        if l[0] == 't': return rx.kinds_text(l[1])
        return l[1] if l[0] == 'n' else l[1] + " node"

    def build(self, st, variant, fs):
        pm = self.pm; w = st.world
        ctor = pm.astvars[variant]
        self.res.nodes_built += 1
        fields = []
        for f in fs[2:]:
            o = []
            self.contents(st, f, o)
            fields.append(o)
        vids = {}
        rids = []
        for o in fields:
            for c in o:
                if c[0] == 'vec': vids[c[1]] = vids.get(c[1], 0) + (1 if c[3] else 0)
                else: rids.append(c[1])
        bad = False
        w_p = self.unrun(w, rids, vids)
        if len(set(rids)) != len(rids) or any(n > 1 for n in vids.values()):
            self.problem(st, "P04", "duplicate in " + ctor, "the same token or sub-tree is stored twice"); bad = True
        # the current token may be stored before it is consumed
        if w.la in rids and ('r', w.la) not in w_p:
            if w.inplace == w.la:
                self.problem(st, "P04", "duplicate in " + ctor, "the current token is stored twice"); bad = True
            else:
                w_p.append(('r', w.la)); w.inplace = w.la
                w.label[w.la] = ('t', w.lamask)
                w.start[w.la] = w.la
        pos = {}
        for i, it in enumerate(w_p):
            if it[0] == 'r': pos[it[1]] = i
        idx = set()
        for r in rids:
            if r not in pos:
                self.problem(st, "P04", "content of " + ctor, "%s is stored although it already belongs to another node" % self.lab_text(self.label_of(st, r)))
                bad = True
            else: idx.add(pos[r])
        for i, it in enumerate(w_p):
            if it[0] == 'run':
                inn = [v for v in it[1] if v in vids]
                if inn and len(inn) == len(it[1]): idx.add(i)
                elif inn:
                    self.problem(st, "P04", "content of " + ctor, "a list whose elements interleave with this node's is left out"); bad = True
        # order of individually stored parts
        seq = [pos[r] for r in rids if r in pos]
        if seq != sorted(seq) and ctor not in pm_order_exempt:
            self.problem(st, "P05", "order in " + ctor, "individually stored parts are not in source order")
        if idx and max(idx) - min(idx) + 1 != len(idx):
            left = [w_p[i] for i in range(min(idx), max(idx)) if i not in idx]
            self.problem(st, "P04", "content of " + ctor, "omits " + ", ".join(
                self.lab_text(self.label_of(st, x[1])) if x[0] == 'r' else "a list" for x in left))
            bad = True
        # list direction
        for fi, o in enumerate(fields):
            for c in o:
                if c[0] == 'vec':
                    self.check_dir(st, ctor, fi, c)
        self.check_schema(st, ctor, fields, fs[2:])
        # extent
        if idx and not bad:
            first = w_p[min(idx)]
            exp = w.start.get(first[1]) if first[0] == 'r' else first[2]
            s, e = fs[0], fs[1]
            if s != ('mark', exp):
                self.problem(st, "P13", "start of " + ctor, "is not the start of its first token")
            if e != ('mark', w.la):
                self.problem(st, "P13", "end of " + ctor, "is not the position of the token after it")
            n = self.fresh(w, ('c', ctor))
            w.start[n] = exp
            w_p = w_p[:min(idx)] + [('r', n)] + w_p[max(idx) + 1:]
            w.pending = tuple(w_p)
        elif idx:
            n = self.fresh(w, ('c', ctor))
            w.start[n] = fs[0][1] if type(fs[0]) is tuple and fs[0][0] == 'mark' else None
            keep = [it for i, it in enumerate(w_p) if i not in idx]
            at = len([i for i in range(min(idx)) if i not in idx])
            w.pending = tuple(keep[:at] + [('r', n)] + keep[at:])
        else:
            # a node without content lies before the current token
            if not bad:
                if fs[0] != ('mark', w.la): self.problem(st, "P13", "start of " + ctor, "is not the position of the token it lies before")
                if fs[1] != ('mark', w.la): self.problem(st, "P13", "end of " + ctor, "is not the position of the token it lies before")
            n = self.fresh(w, ('c', ctor))
            w.start[n] = w.la
            w.pending = w.pending + (('r', n),)
        return ('node', n)

    def check_dir(self, st, ctor, fi, v):
        exp = pygrammar.direction(ctor, fi)
        if v[2] == 'mixed': self.problem(st, "P05", "list direction in %s.%d" % (ctor, fi + 2), "elements are stored in mixed order")
        elif v[2] != 'any' and exp is not None and v[2] != exp:
            self.problem(st, "P05", "list direction in %s.%d" % (ctor, fi + 2), "stored %s" % ("first to last" if v[2] == 'fwd' else "last to first"))

    def check_schema(self, st, ctor, fields, raw):
        sch = pygrammar.SCHEMA.get(ctor)
        self.res.shapes += 1
        if sch is None: return

        def bad(fi, why):
            self.problem(st, "P06", "part %d of %s" % (fi + 2, ctor), why)
            if ctor in pygrammar.LADDER: self.problem(st, "P07", "operand %d of %s" % (fi + 2, ctor), why)
        present = []
        for fi, o in enumerate(fields):
            spec = sch[fi] if fi < len(sch) else None
            one = [c[1] for c in o if c[0] == 'r']
            labs = []
            if one: labs.append((tuple(self.label_of(st, r) for r in one), [self.kinds_or_none(st, r) for r in one]))
            lists = [c for c in o if c[0] == 'vec']
            for c in lists:
                for l in sorted(c[4], key=str): labs.append((l, [None] * len(l)))
            for l, k in labs:
                why = pygrammar.fits(self.pm, spec, l, k)
                if why: bad(fi, why)
            if not labs and not lists and spec is not None and not pygrammar.optional(spec): bad(fi, "is missing")
            if labs or lists: present.append(fi)
        if ctor in pygrammar.LONE:
            lists = [c for o in fields for c in o if c[0] == 'vec']
            ones = [c for o in fields for c in o if c[0] == 'r']
            if ctor == "AtomExpr" and len(ones) == 1 and lists and all(c[3] == 0 for c in lists) or \
               ctor != "AtomExpr" and sorted(c[3] for c in lists) == [0, 1]:
                bad(0, "is built for a lone element, which stands for itself")
        for a, b in pygrammar.TOGETHER.get(ctor, ()):
            if a in present and b not in present: bad(b, "is missing although part %d is there" % (a + 2))

    def kinds_or_none(self, st, r):
        l = st.world.label.get(r)
        if l is None or l[0] == 't': return None
        return self.node_kinds(st, r)

    # --- ends of paths ------------------------------------------------------------------------------------------
    def on_return(self, st, v):
        pm = self.pm; w = st.world; g = self.g; res = self.res
        if not (type(v) is tuple and v[0] == 'A'): 
            return self.on_unsupported(st, "result %r" % (v,))
        ok = v[2] == 0
        self.edge_end(st)
        if ok:
            res.oks += 1
            if not w.progress and not w.soft: res.returns_noprogress = True
            if w.failed:
                self.problem(st, "P03", "result after a failed part", "a tree is returned although a part failed")
                return
            if w.lexerr:
                self.problem(st, "P03", "result after a tokenizer error", "a tree is returned although a tokenizer error was passed over")
                return
            b = v[3][0]
            nv = self.e.load(st, b)
            if not (type(nv) is tuple and nv[0] == 'node'):
                self.e.unsupported.append(("returned value is not a tree", self.nt, self.e.span(st))); return
            rid = nv[1]
            pend = tuple(self.unrun(w, (rid,), ()))
            if pend != (('r', rid),):
                left = [self.lab_text(self.label_of(st, x[1])) if x[0] == 'r' else "list elements" for x in pend if x != ('r', rid)]
                if ('r', rid) not in pend:
                    self.problem(st, "P04", "returned tree", "is not the one last built; missing: " + ", ".join(left))
                else:
                    self.problem(st, "P04", "returned tree", "does not contain: " + ", ".join(left))
            if (pm.xfin or pm.xint) and not w.soft:
                res.left.add((w.entry, self.fields_now(st)))
                self.changes(st, None)
            l = w.label.get(rid)
            if l[0] == 'c': res.kinds.add(l[1])
            elif l[0] == 'n' and rid in w.nkind: res.kinds |= {pm.astvars[i] for i in w.nkind[rid]}
            elif l[0] == 'n': res.passes.add(l[1])
            ref = w.ref
            if w.inplace == w.la:
                if w.lamask == pm.EOF:
                    ref = rx.EMPTY
                    for mk_, d in g.dtok(w.ref):
                        if mk_ & pm.EOF: ref = d
                else:
                    self.problem(st, "P04", "returned tree", "contains the current token, which is not consumed: " + rx.kinds_text(w.lamask))
            self.lang_ok(st, ref)
            self.status_ok(st)
        else:
            res.errs += 1
            self.lang_err(st)
            self.err_text(st, v[3][0])

    def err_text(self, st, v):
        """An error names a position of the construct: where it starts, or where a token or part of it does."""
        while type(v) is tuple and v[0] in ('R', 'B'): v = self.e.load(st, v)
        if type(v) is tuple and v[0] == 'str': v = ('unk', ())
        if not (type(v) is tuple and v[0] == 'unk' and len(v) > 1):
            self.res.erropen.add((self.nt, "the text of an error is not followed", self.e.span(st)))
            return

        def rate(x):
            if x == PASSED or x[0] == 'mark' or x[0] == 'unk' and len(x) > 1 and any(rate(y) == 1 for y in x[1]): return 1
            if x[0] == 'sx' and x[1][0] == 'm':
                c = x[2]
                while c and c[0] == "cast": c = c[3]
                return 0 if c else 1
            return 0 if x[0] in ('sx', 'vlen', 'cnt', 'tf') else None
        r = [0 if type(x) is int else rate(x) for x in v[1]]
        self.res.errtexts.add(self.e.span(st))
        if 1 in r: return
        if None in r:
            self.res.erropen.add((self.nt, "what an error names as its position is not followed", self.e.span(st)))
            return
        self.problem(st, "P18", "error text", "names something else than a position of the construct" if r else "names no position")

    def follow(self):
        f = self.g.follow
        if self.nt in f: return f[self.nt]
        return f.get(self.nt + "@plain", 0) | f.get(self.nt + "@star", 0)

    def lang_prop(self): return pygrammar.PROP.get(self.nt.split("@")[0].split("(")[0], "P08")

    def lprob(self, st, cat, detail, kinds=None):
        """A language mismatch belongs to the rule's property; when it depends on the except mode, to P14."""
        w = st.world
        base = self.nt.split("@")[0]
        p = self.lang_prop()
        if w.est is not None and self.status is None:
            p = "P14"; detail = "%s when entered in mode %s" % (detail, self.pm.MODES[w.est])
        elif w.dead_by and w.dead_by[0] == "rule" and w.dead_by[1].split("@")[0] in self.pm.modes: p = "P14"
        elif base in self.pm.modes and self.status is not None:
            self.problem(st, p, cat, detail, kinds)
            p = "P14"
            detail = "%s in mode %s" % (detail, self.pm.MODES[self.status])
        self.problem(st, p, cat, detail, kinds)
        if base in pygrammar.INPUTS and p != "P12": self.problem(st, "P12", cat, detail, kinds)
        if base in pygrammar.LADDER_RULES and (cat.startswith("stops") or w.dead_by and w.dead_by[0] == "rule"): self.problem(st, "P07", cat, detail, kinds)

    def lang_ok(self, st, ref):
        w = st.world; g = self.g
        if self.opaque: return
        if ref is rx.EMPTY:
            why = w.dead_by
            d = "?"
            if why: d = (rx.kinds_text(why[1]) if why[0] == "token" else why[1])
            self.lprob(st, "accepts too much", "takes %s where the grammar has no place for it" % d)
            return
        if not g.nullable(ref):
            self.lprob(st, "accepts too much", "ends before %s" % rx.show(ref)[:120])
            return
        m = w.lamask & self.pm.ALL
        if w.inplace == w.la: return
        bad = m & g.first(ref, True)
        if bad: self.lprob(st, "stops early", "leaves %s although the grammar continues with it" % rx.kinds_text(bad), bad)

    def lang_err(self, st):
        w = st.world; g = self.g
        if self.opaque: return
        if w.failed:
            if w.failbad: self.lprob(st, "rejects", "%s (by handing it to a rule that cannot start with it)" % rx.kinds_text(w.failbad), w.failbad)
            return
        if w.lexerr: return
        if w.ref is rx.EMPTY: return
        if w.lamask in (self.pm.LEXERR, self.pm.INIT):
            if w.lamask == self.pm.INIT and self.nt in pygrammar.INPUTS:
                self.lprob(st, "rejects", "everything: the first token is never fetched")
            return
        ref = w.ref
        bad = w.lamask & (g.first(ref, True) | (self.follow() if g.nullable_must(ref) else 0))
        if w.inplace == w.la and w.lamask == self.pm.EOF: pass
        if bad: self.lprob(st, "rejects", "%s where the grammar allows it" % rx.kinds_text(bad), bad)

    def status_ok(self, st):
        pm = self.pm
        if not pm.mode_is: return
        w = st.world
        v = self.cur_status(st)
        base = self.nt.split("@")[0]
        if base in pm.modes:
            if pm.probing is not None: pm.probing.append((w.mode, v)); return
            want = 1 if w.mode == "star" else 2
            if v != pm.mode_vals[want]:
                self.problem(st, "P14", "except mode after a handler", "is not %s" % pm.MODES[want])
            return
        if w.est is None and v == tuple(('est', j) for j in range(len(v))) or w.est is not None and v == pm.mode_vals[w.est]: return
        self.problem(st, "P14", "except mode not restored", "%s leaves the except mode changed for its caller" % self.nt)

    def on_panic(self, st, what, span):
        self.edge_end(st)
        self.problem(st, "P02", "panic", what)
        self.res.panics += 1

    def on_unsupported(self, st, msg):
        self.res.undecided.append((self.nt, msg, self.e.span(st)))

    # --- progress graph -----------------------------------------------------------------------------------------
    def pick(self, st): pass

    def on_new(self, st):
        w = st.world
        self.nodeid += 1
        n = self.nodeid
        self.link(st, n)
        return n

    def on_merge(self, st, old): self.link(st, old)

    def link(self, st, n):
        w = st.world
        prev = w_last(w)
        if prev is not None: self.res.edges.append((prev, n, bool(w.sofar) or w.soft, self.e.span(st)))
        set_last(w, n)
        w.sofar = False

    def edge_end(self, st): pass

    # --- canonical form -----------------------------------------------------------------------------------------
    def canon(self, st, v, ren):
        k = v[0]
        if k in ('tok', 'node', 'mark', 'kd', 'nd'): return (k, ren.symbol(v[1]))
        if k == 'sx': return (k, self.canon_subject(v[1], ren), v[2])
        if k == 'vlen': return (k, v[1], ren.symbol(('v', v[2])))
        if k in ('tokd', 'tf', 'noded', 'nf'): return (k, ren.symbol(v[1])) + v[2:]
        if k == 'unk' and len(v) > 1: return (k, tuple(x if type(x) is int else ren.val(x) for x in v[1]))
        if k == 'vec': return ('vec', ren.symbol(('v', v[1]))) + v[2:5] + (None if v[5] is None else ren.val(v[5]),)
        return v

    def canon_subject(self, s, ren):
        if s[0] in 'kf': return s
        if s[0] == 'd': return ('d', ren.symbol(s[1]), ren.symbol(s[2]))
        if s[0] == 'l': return ('l', ren.symbol(('v', s[1])))
        return (s[0], ren.symbol(s[1])) + s[2:]

    def prune(self, st):
        """What nothing refers to any more is lost for good: of many such things two are enough to say so."""
        w = st.world
        if len(w.pending) <= 8: return
        ren = Renamer(self.e, st)
        self.e.canon_frames(st, ren)
        ren.val(st.heap[self.ph])
        ren.reach([])

        def lost(it):
            return it[0] == 'r' and it[1] not in ren.sym and it[1] != w.la or it[0] == 'run' and not any(('v', y) in ren.sym for y in it[1])
        seen = 0; keep = []
        for it in w.pending:
            if lost(it):
                seen += 1
                if seen > 2: continue
            keep.append(it)
        if seen > 2: w.pending = self.collapse(keep)

    def world_canon(self, st, ren):
        w = st.world
        p = tuple(('r', ren.symbol(it[1])) if it[0] == 'r' else
                  ('run', frozenset(ren.symbol(('v', y)) for y in sorted(it[1])), ren.symbol(it[2]),
                   tuple(ren.symbol(w.solo[y]) for y in sorted(it[1]) if y in w.solo)) for it in w.pending)
        return (p, ren.symbol(w.la), w.lamask, w.ref.id, w.failed, w.failbad, w.lexerr, w.progress, w.est,
                None if w.inplace is None else ren.symbol(w.inplace), w.mode, w.eofnext, ren.val(st.heap[self.ph]), w.dead_by, w.init, w.soft, w.ctr, w.entry)

    def canon_tail(self, st, ren):
        w = st.world
        out = []
        done = 0
        syms = list(ren.sym.items())
        i = 0
        while i < len(syms):
            s, n = syms[i]; i += 1
            if type(s) is int:
                l = w.label.get(s)
                s0 = w.start.get(s)
                before = len(ren.sym)
                sn = ren.symbol(s0) if s0 is not None else None
                if len(ren.sym) > before: syms.append((s0, sn))
                out.append((n, l, sn, w.nkind.get(s)))
        for s, k, o in st.world.tests:
            if s[0] in 'kf':
                out.append((s, k, o)); continue
            if s[0] == 'd':
                if s[1] in ren.sym and s[2] in ren.sym: out.append(('d', ren.sym[s[1]], ren.sym[s[2]], k, o))
                continue
            y = ('v', s[1]) if s[0] == 'l' else s[1]
            if y in ren.sym: out.append((s[0], ren.sym[y]) + s[2:] + (k, o))
        return tuple(out)


pm_order_exempt = pygrammar.ORDER_EXEMPT

PMODELS = {}
PSUFFIX = []
_LAST = {}


def w_last(w): return w.label.get('@last')


def set_last(w, n): w.label['@last'] = n


def psuffix(*names):
    def deco(f):
        for n in names: PSUFFIX.append((n, f))
        return f
    return deco


def newvec(c, st):
    w = st.world
    v = w.nextv; w.nextv += 1
    return ('vec', v, 'any', 0, frozenset(), None)


@psuffix("::boxed::Box<T> as std::default::Default>::default")
def b_default(c, st, fn, args):
    T = c.pm.p.types
    a = next(i for i in T[c.e.ret_type(st)]["args"] if isinstance(i, int))
    if not (T[a]["k"] == "adt" and T[a]["name"].endswith("::Vec")): return NOTHANDLED
    return ('B', st.alloc(newvec(c, st)))


@psuffix("::vec::Vec::<T>::new", "::vec::Vec::<T>::with_capacity", "::vec::Vec<T> as std::default::Default>::default")
def v_new(c, st, fn, args): return newvec(c, st)


@psuffix("::vec::Vec::<T, A>::reserve", "::vec::Vec::<T, A>::reserve_exact", "::vec::Vec::<T, A>::shrink_to_fit", "::VecDeque::<T, A>::reserve")
def v_reserve(c, st, fn, args): return UNIT


@psuffix("::vec::Vec::<T, A>::capacity", "::VecDeque::<T, A>::capacity")
def v_capacity(c, st, fn, args): return UNK


def thevec(c, st, r):
    v = c.e.load(st, r)
    if type(v) is tuple and v[0] in ('B', 'R'): v = c.e.load(st, v)
    if not (type(v) is tuple and v[0] == 'vec'): raise Unsupported("vector operation on %r" % (v,))
    return v


def putvec(c, st, r, nv):
    v = c.e.load(st, r)
    if type(v) is tuple and v[0] in ('B', 'R'): c.e.store(st, v, nv)
    else: c.e.store(st, r, nv)


@psuffix("::VecDeque::<T>::new", "::VecDeque::<T>::with_capacity")
def q_new(c, st, fn, args): return newvec(c, st)


@psuffix("::VecDeque::<T, A>::push_front")
def q_front(c, st, fn, args): return v_insert(c, st, fn, [args[0], 0, args[1]])


@psuffix("::VecDeque<T, A>> for std::vec::Vec<T, A>>::from", "::VecDeque<T, A> as std::iter::IntoIterator>::into_iter")
def q_into(c, st, fn, args): return args[0]


@psuffix("::vec::Vec::<T, A>::push", "::VecDeque::<T, A>::push_back")
def v_push(c, st, fn, args):
    v = thevec(c, st, args[0])
    putvec(c, st, args[0], c.vec_push(st, v, args[1]))
    return UNIT


@psuffix("::vec::Vec::<T, A>::insert")
def v_insert(c, st, fn, args):
    if args[1] != 0: raise Unsupported("insertion into the middle of a list")
    v = c.vec_reverse(thevec(c, st, args[0]))
    putvec(c, st, args[0], c.vec_reverse(c.vec_push(st, v, args[2])))
    return UNIT


WRAP = ("MaybeUninit", "ManuallyDrop", "MaybeDangling")


def uninit(c, ty):
    t = c.pm.p.types[ty]
    if t["k"] == "adt" and t["name"].rsplit("::", 1)[-1] in WRAP:
        return ('A', ty, 0, tuple(uninit(c, x[1]) for x in t["v"][0]["f"]))
    return UNIT


@psuffix("::boxed::Box::<T>::new_uninit")
def b_uninit(c, st, fn, args):
    a = next(i for i in c.pm.p.types[c.e.ret_type(st)]["args"] if isinstance(i, int))
    return ('B', st.alloc(uninit(c, a)))


@psuffix("::slice::<impl [T]>::into_vec", "::boxed::box_assume_init_into_vec_unsafe")
def v_ofbox(c, st, fn, args):
    v = args[0]
    while type(v) is tuple and v[0] in ('B', 'R'): v = c.e.load(st, v)
    while type(v) is tuple and v[0] == 'A' and v[3] and type(v[3][-1]) is tuple: v = v[3][-1]
    if not (type(v) is tuple and v[0] == 'T'): raise Unsupported("list of %r" % (v,))
    r = newvec(c, st)
    for x in v[1]: r = c.vec_push(st, r, x)
    return r


@psuffix("std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "::iter::IntoIterator for std::vec::Vec<T, A>>::into_iter")
def v_iter(c, st, fn, args):
    v = args[0]
    if not (type(v) is tuple and v[0] == 'vec'): return NOTHANDLED
    return v


@psuffix("::iter::Iterator::rev")
def v_iterrev(c, st, fn, args):
    v = args[0]
    if not (type(v) is tuple and v[0] == 'vec'): return NOTHANDLED
    return c.vec_reverse(v)


@psuffix("::iter::Iterator::collect")
def v_collect(c, st, fn, args):
    v = args[0]
    if not (type(v) is tuple and v[0] == 'vec'): return NOTHANDLED
    return v


def v_join(c, st, a, b):
    """The list a followed by the elements of b."""
    if b[3] == 0: return a
    if a[3] == 0: return b
    w = st.world
    w.pending = tuple(('run', frozenset(a[1] if v == b[1] else v for v in it[1]), it[2]) if it[0] == 'run' else it for it in w.pending)
    for v in (a, b): w.solo.pop(v[1], None)
    if a[2] not in ('any', 'fwd') or b[2] not in ('any', 'fwd'): ori = 'mixed'
    else: ori = 'fwd'
    u = (c.nt, "order of the elements of two lists that are joined", c.e.span(st))
    if u not in c.res.undecided: c.res.undecided.append(u)
    w.tests = tuple(t for t in w.tests if t[0] not in (('l', a[1]), ('l', b[1])))
    return ('vec', a[1], ori, min(c.many, a[3] + b[3]), a[4] | b[4], None)


@psuffix("::vec::Vec::<T, A>::append")
def v_append(c, st, fn, args):
    b = thevec(c, st, args[1])
    putvec(c, st, args[1], newvec(c, st))
    putvec(c, st, args[0], v_join(c, st, thevec(c, st, args[0]), b))
    return UNIT


@psuffix("::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "::iter::Extend<T> for std::vec::Vec<T, A>>::extend")
def v_extend(c, st, fn, args):
    b = args[1]
    while type(b) is tuple and b[0] == 'B': b = c.e.load(st, b)
    if type(b) is tuple and b[0] == 'T':
        v = thevec(c, st, args[0])
        for x in b[1]: v = c.vec_push(st, v, x)
    elif type(b) is tuple and b[0] == 'vec': v = v_join(c, st, thevec(c, st, args[0]), b)
    else: return NOTHANDLED
    putvec(c, st, args[0], v)
    return UNIT


@psuffix("::vec::Vec::<T, A>::drain")
def v_drain(c, st, fn, args):
    v = thevec(c, st, args[0])
    r = args[1]
    if not (type(r) is tuple and r[0] in ('A', 'T') and not r[-1]): raise Unsupported("part of a list")
    putvec(c, st, args[0], newvec(c, st))
    return v


@psuffix("::vec::Vec::<T, A>::into_boxed_slice")
def v_same(c, st, fn, args): return args[0]


@psuffix("::vec::Vec::<T, A>::len", "::VecDeque::<T, A>::len", "::slice::<impl [T]>::len")
def v_len(c, st, fn, args): return c.length(st, thevec(c, st, args[0]))


@psuffix("::vec::Vec::<T, A>::is_empty", "::VecDeque::<T, A>::is_empty", "::slice::<impl [T]>::is_empty")
def v_empty(c, st, fn, args): return int(thevec(c, st, args[0])[3] == 0)


@psuffix("::vec::Vec<T, A> as std::ops::Index<I>>::index", "::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def v_index(c, st, fn, args):
    v = thevec(c, st, args[0])
    if args[1] == 0 and v[3] == 0:
        c.on_panic(st, "index into an empty list", c.e.span(st)); raise Stop()
    if v[3] == 1 and type(args[1]) is int and args[1] > 0:
        c.on_panic(st, "index past the end of a list", c.e.span(st)); raise Stop()
    if v[3] == 1 and args[1] == 0 and v[5] is not None: return ('R', ('V', v[5]), ())
    raise Unsupported("list element")


def onlyone(c, st, r, v):
    """takes the only element out of a list"""
    if v[3] != 1 or v[5] is None: raise Unsupported("an element taken out of a list")
    putvec(c, st, r, newvec(c, st))
    return v[5]


@psuffix("::vec::Vec::<T, A>::remove", "::vec::Vec::<T, A>::swap_remove")
def v_remove(c, st, fn, args):
    v = thevec(c, st, args[0])
    if v[3] == 0 or v[3] == 1 and type(args[1]) is int and args[1] > 0:
        c.on_panic(st, "element removed past the end of a list", c.e.span(st)); raise Stop()
    if args[1] != 0: raise Unsupported("an element taken out of a list")
    return onlyone(c, st, args[0], v)


@psuffix("::vec::Vec::<T, A>::pop", "::VecDeque::<T, A>::pop_front", "::VecDeque::<T, A>::pop_back",
         "std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back")
def v_pop(c, st, fn, args):
    v = thevec(c, st, args[0])
    ty = c.e.ret_type(st)
    if v[3] == 0: return c.e.none(ty)
    return c.e.some(ty, onlyone(c, st, args[0], v))


@psuffix("::slice::<impl [T]>::first", "::slice::<impl [T]>::last")
def v_first(c, st, fn, args):
    v = thevec(c, st, args[0])
    ty = c.e.ret_type(st)
    if v[3] == 0: return c.e.none(ty)
    if v[3] != 1 or v[5] is None: raise Unsupported("list element")
    return c.e.some(ty, ('R', ('V', v[5]), ()))


@psuffix("::slice::<impl [T]>::reverse")
def v_rev(c, st, fn, args):
    putvec(c, st, args[0], c.vec_reverse(thevec(c, st, args[0])))
    return UNIT


@psuffix("std::vec::Vec<T, A> as std::ops::Deref>::deref", "std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
         "::vec::Vec::<T, A>::as_slice", "::vec::Vec::<T, A>::as_mut_slice")
def v_deref(c, st, fn, args): return args[0]


@psuffix("::borrow::ToOwned>::to_owned", "::borrow::ToOwned::to_owned")
def s_owned(c, st, fn, args):
    v = args[0]
    while type(v) is tuple and v[0] == 'R' and type(c.e.load(st, v)) is tuple and c.e.load(st, v)[0] in ('R', 'str'): v = c.e.load(st, v)
    if v[0] == 'str': return ('unk', ())
    if v[0] in ('tf', 'unk'): return v if v[0] == 'unk' else UNK
    x = c.e.load(st, v)
    if type(x) is tuple and x[0] in ('tok', 'node', 'est', 'str', 'unk', 'tf'): return UNK if x[0] in ('str', 'tf') else x
    return c.e.clone(st, x)


@psuffix("::string::ToString>::to_string", "::string::String::new", "::fmt::format",
         "std::string::String as std::convert::From<&str>>::from")
def s_unk(c, st, fn, args):
    if not args: return ('unk', ())
    if len(args) != 1: return UNK
    v = args[0]
    while type(v) is tuple and v[0] in ('R', 'B'): v = c.e.load(st, v)
    if type(v) is tuple and v[0] == 'str': return ('unk', ())
    if type(v) is tuple and v[0] in ('mark', 'sx', 'vlen', 'cnt') or type(v) is int: return ('unk', (v,))
    return v if type(v) is tuple and v[0] == 'unk' else UNK


@psuffix("::string::String::push_str", "std::string::String as std::fmt::Write>::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::Write>::write_str",
         "::string::String::push")
def s_push(c, st, fn, args):
    r = s_join(c, st, fn, args) if type(args[1]) is tuple else UNK if type(c.e.load(st, args[0])) is not tuple else c.e.load(st, args[0])
    t = c.e.load(st, args[0])
    if type(t) is tuple and t[0] == 'R': args = (t,); t = c.e.load(st, t)
    if not (type(t) is tuple and t[0] == 'unk'): return NOTHANDLED
    c.e.store(st, args[0], r)
    rt = c.e.ret_type(st)
    return UNIT if c.pm.p.types[rt]["k"] == "tuple" else ('A', rt, 0, (UNIT,))


@psuffix("::string::String::with_capacity")
def s_room(c, st, fn, args): return ('unk', ())


@psuffix("std::string::String as std::ops::Add<&str>>::add")
def s_join(c, st, fn, args):
    r = ()
    for v in args:
        while type(v) is tuple and v[0] in ('R', 'B'): v = c.e.load(st, v)
        if type(v) is tuple and v[0] == 'str': continue
        if not (type(v) is tuple and v[0] == 'unk') or len(v) < 2: return UNK
        r += v[1]
    return ('unk', r)


@psuffix("std::string::String as std::ops::Deref>::deref", "::string::String::as_str", "std::string::String as std::convert::AsRef<str>>::as_ref",
         "std::string::String as std::borrow::Borrow<str>>::borrow")
def s_as(c, st, fn, args):
    v = args[0]
    while type(v) is tuple and v[0] in ('R', 'B'): v = c.e.load(st, v)
    if v[0] in ('tf', 'unk', 'nf'): return v
    raise Unsupported("string %r" % (v,))


@psuffix("::str::traits::<impl std::cmp::PartialEq for str>::eq", "std::string::String as std::cmp::PartialEq>::eq",
         "std::string::String as std::cmp::PartialEq<str>>::eq", "std::string::String as std::cmp::PartialEq<&str>>::eq")
def s_eq(c, st, fn, args):
    a, b = args
    while type(a) is tuple and a[0] in ('R', 'B'): a = c.e.load(st, a)
    while type(b) is tuple and b[0] in ('R', 'B'): b = c.e.load(st, b)
    if a[0] == 'str': a, b = b, a
    if a[0] == 'tf' and b[0] == 'str':
        v = c.pm.tokvars[a[2]]
        m = c.mask(st, a[1])
        if v == "AtomName" and b[1] in c.pm.name_lits:
            bit = c.pm.name_lits[b[1]]
            if m == bit: return 1
            if not m & bit: return 0
            rid = a[1]
            raise Fork([lambda s: c.set_mask(s, rid, bit), lambda s: c.set_mask(s, rid, m & ~bit)])
        if v == "AtomName" and (not b[1].isidentifier() or b[1] in pygrammar.TOKENS): return 0
        if v == "AtomName" and m in c.pm.name_lits.values(): return 0
        for s, k, o in st.world.tests:
            # the text is known to be another one
            if s == ('t',) + a[1:] and k[0][:1] == ("is",) and o == 1 and k[0][1] != b[1]: return 0
        fresh = not any(s == ('t',) + a[1:] and k[0][:1] != ("is",) for s, k, o in st.world.tests)
        key = (("is", b[1]), (0, 1))
        for s, k, o in st.world.tests:
            if s == ('t',) + a[1:] and k == key: return o
        sub = ('t',) + a[1:]

        def take(o):
            def f(z):
                z.world.tests = z.world.tests + ((sub, key, o),)
                if not fresh: z.world.soft = True
            return f
        raise Fork([take(0), take(1)])
    return UNK


class Longer(Exception):
    """the rule compares the length of a list with a number: lists are counted up to that number"""


def analyse_rule(pm, nt, fn, arg, status, kinds, empties, max_states=60000):
    while True:
        try: return analyse_rule_(pm, nt, fn, arg, status, kinds, empties, max_states)
        except Longer as x: pm.counted[nt] = x.args[0]


def analyse_rule_(pm, nt, fn, arg, status, kinds, empties, max_states):
    res = RuleResult(nt)
    c = RuleClient(pm, nt, fn, arg, status, kinds, empties, res)
    if nt.split("@")[0].split("(")[0] in pygrammar.INPUTS: entries = ['init']
    else: entries = ['ok', 'err']
    e = Engine(pm.p, c, max_states)
    vals = sorted(pm.vals.get(nt, ()), key=repr) or [None]
    if len(vals) > 16: res.undecided.append((nt, "too many values of the parser's fields", fn.span)); vals = vals[:16]
    for en, vs in [(en, vs) for en in entries for vs in vals]:
        st, args = c.initial(en, vs)
        try:
            e.push(st, fn, args, None, None)
        except Unsupported as x:
            res.undecided.append((nt, str(x), fn.span)); return res
        e.run(st)
    res.states = len(e.seen)
    for m, f, sp in e.unsupported:
        if (nt, m, sp) not in res.undecided: res.undecided.append((nt, m, sp))
    return res
