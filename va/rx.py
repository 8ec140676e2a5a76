"""Hash-consed regular expressions over token kinds (bit masks) and grammar nonterminals, with derivatives.

('may', r) marks a part of the language an implementation is free to accept or to reject (points on which the published
grammars of the language versions in question differ)."""

_tab = {}
_next = [0]


class Rx:
    __slots__ = ("k", "a", "id", "_null", "_nullm", "_tok")

    def __repr__(self): return show(self)


def mk(k, a):
    key = (k, tuple(x.id if isinstance(x, Rx) else x for x in a)) if isinstance(a, tuple) else (k, a)
    r = _tab.get(key)
    if r is None:
        r = Rx(); r.k = k; r.a = a; r.id = _next[0]; _next[0] += 1
        r._null = r._nullm = r._tok = None
        _tab[key] = r
    return r


EMPTY = mk("0", ())
EPS = mk("1", ())


def tok(mask): return mk("t", mask) if mask else EMPTY


def nt(name): return mk("n", name)


def seq(*xs):
    out = []
    for x in xs:
        if x is EMPTY: return EMPTY
        if x is EPS: continue
        if x.k == "s": out.extend(x.a)
        else: out.append(x)
    if not out: return EPS
    if len(out) == 1: return out[0]
    return mk("s", tuple(out))


def alt(*xs):
    s = {}
    masks = 0
    for x in xs:
        if x is EMPTY: continue
        for y in (x.a if x.k == "a" else (x,)):
            if y.k == "t": masks |= y.a
            else: s[y.id] = y
    if masks:
        t = tok(masks); s[t.id] = t
    if not s: return EMPTY
    # may(x) next to x adds nothing
    for y in list(s.values()):
        if y.k == "m" and y.a[0].id in s: del s[y.id]
    ys = [s[i] for i in sorted(s)]
    if len(ys) == 1: return ys[0]
    return mk("a", tuple(ys))


def star(x):
    if x is EMPTY or x is EPS: return EPS
    if x.k == "*": return x
    return mk("*", (x,))


def opt(x): return alt(EPS, x)


def plus(x): return seq(x, star(x))


def may(x):
    if x is EMPTY: return EMPTY
    if x.k == "m": return x
    return mk("m", (x,))


def show(r, names=None):
    k = r.k
    if k == "0": return "∅"
    if k == "1": return "ε"
    if k == "t": return kinds_text(r.a)
    if k == "n": return r.a
    if k == "s": return " ".join(show(x) if x.k != "a" else "(" + show(x) + ")" for x in r.a)
    if k == "a": return " | ".join(show(x) for x in r.a)
    if k == "*": return "(" + show(r.a[0]) + ")*"
    if k == "m": return "?<" + show(r.a[0]) + ">"


_kindnames = {}


def set_kind_names(d): _kindnames.clear(); _kindnames.update(d)


def kinds_text(m):
    out = []
    i = 0
    n = bin(m).count("1")
    if n > 12: return "<%d kinds>" % n
    while m:
        if m & 1: out.append(_kindnames.get(i, str(i)))
        m >>= 1; i += 1
    return "/".join(out)


class Grammar:
    def __init__(self, rules, opaque=()):
        """rules: name -> Rx"""
        self.r = rules
        self.opaque = dict(opaque)     # name -> first mask
        self._first = {}
        self._firstm = {}
        self._nulln = {n: False for n in rules}
        ch = True
        while ch:
            ch = False
            for n, r in rules.items():
                v = self._null0(r)
                if v != self._nulln[n]: self._nulln[n] = v; ch = True
        for n in self.opaque: self._nulln[n] = False
        self._tokcache = {}
        self._ntcache = {}
        self.follow = self._follow()

    def _null0(self, r):
        k = r.k
        if k in ("1", "*"): return True
        if k in ("0", "t"): return False
        if k == "n": return self._nulln.get(r.a, False)
        if k == "s": return all(self._null0(x) for x in r.a)
        if k == "a": return any(self._null0(x) for x in r.a)
        if k == "m": return self._null0(r.a[0])

    def nullable(self, r):
        if r._null is None: r._null = self._null0(r)
        return r._null

    def nullable_must(self, r):
        if r._nullm is None:
            k = r.k
            if k == "m": v = False
            elif k == "s": v = all(self.nullable_must(x) for x in r.a)
            elif k == "a": v = any(self.nullable_must(x) for x in r.a)
            elif k in ("1", "*"): v = True
            elif k == "n": v = self._nulln.get(r.a, False)
            else: v = False
            r._nullm = v
        return r._nullm

    def first(self, r, must=False, busy=()):
        """Kinds some (must: some non-optional) word of r starts with."""
        cache = self._firstm if must else self._first
        v = cache.get(r.id)
        if v is not None: return v
        k = r.k
        if k == "t": v = r.a
        elif k in ("0", "1"): v = 0
        elif k == "n":
            if r.a in self.opaque: v = self.opaque[r.a]
            elif r.a in busy: return 0
            else:
                v = self.first(self.r[r.a], must, busy + (r.a,))
        elif k == "s":
            v = 0
            for x in r.a:
                v |= self.first(x, must, busy)
                if not (self.nullable_must(x) if must else self.nullable(x)): break
        elif k == "a":
            v = 0
            for x in r.a: v |= self.first(x, must, busy)
        elif k == "*": v = self.first(r.a[0], must, busy)
        elif k == "m": v = 0 if must else self.first(r.a[0], must, busy)
        if not busy: cache[r.id] = v
        return v

    def _follow(self):
        fol = {n: 0 for n in list(self.r) + list(self.opaque)}
        ch = [True]

        def walk(r, after, owner_follow):
            # after: set of kinds that can follow r inside its rule (mask), with owner_follow already merged
            k = r.k
            if k == "n":
                if after & ~fol[r.a]:
                    fol[r.a] |= after; ch[0] = True
            elif k == "s":
                a = after
                for x in reversed(r.a):
                    walk(x, a, owner_follow)
                    f = self.first(x)
                    a = f | a if self.nullable(x) else f
            elif k == "a":
                for x in r.a: walk(x, after, owner_follow)
            elif k == "*":
                walk(r.a[0], after | self.first(r.a[0]), owner_follow)
            elif k == "m":
                walk(r.a[0], after, owner_follow)
        while ch[0]:
            ch[0] = False
            for n, r in self.r.items(): walk(r, fol[n], fol[n])
        return fol

    # --- derivatives --------------------------------------------------------------------------------------------
    def dtok(self, r, depth=0):
        """Partition of kinds: list of (mask, derivative) with pairwise disjoint masks, without empty derivatives."""
        v = self._tokcache.get(r.id)
        if v is not None: return v
        if depth > 60: return []
        k = r.k
        if k == "t": v = [(r.a, EPS)]
        elif k in ("0", "1"): v = []
        elif k == "n":
            v = [] if r.a in self.opaque else self.dtok(self.r[r.a], depth + 1)
        elif k == "s":
            head, rest = r.a[0], seq(*r.a[1:])
            v = [(m, self.lift(d, rest)) for m, d in self.dtok(head, depth + 1)]
            if self.nullable(head):
                v = self.join(v, self.dtok(rest, depth + 1))
        elif k == "a":
            v = []
            for x in r.a: v = self.join(v, self.dtok(x, depth + 1))
        elif k == "*":
            v = [(m, self.lift(d, r)) for m, d in self.dtok(r.a[0], depth + 1)]
        elif k == "m":
            v = [(m, may(d)) for m, d in self.dtok(r.a[0], depth + 1)]
        # group equal derivatives
        g = {}
        for m, d in v: g[d.id] = (g.get(d.id, (0, d))[0] | m, d)
        v = sorted(g.values(), key=lambda x: x[0])
        if depth == 0 or k != "n": self._tokcache[r.id] = v
        return v

    @staticmethod
    def lift(d, rest):
        if d.k == "m": return may(seq(d.a[0], rest))
        if d.k == "a" and any(x.k == "m" for x in d.a):
            return alt(*[may(seq(x.a[0], rest)) if x.k == "m" else seq(x, rest) for x in d.a])
        return seq(d, rest)

    @staticmethod
    def join(a, b):
        out = []
        for m, d in a:
            for m2, d2 in b:
                if m & m2: out.append((m & m2, alt(d, d2)))
            r = m
            for m2, _ in b: r &= ~m2
            if r: out.append((r, d))
        for m2, d2 in b:
            r = m2
            for m, _ in a: r &= ~m
            if r: out.append((r, d2))
        return out

    def dnt(self, r, name, depth=0):
        """Derivative by a whole nonterminal; rules are unfolded where the nonterminal starts them."""
        key = (r.id, name)
        v = self._ntcache.get(key)
        if v is not None: return v
        if depth > 60: return EMPTY
        k = r.k
        if k == "n":
            if r.a == name: v = EPS
            elif r.a in self.opaque: v = EMPTY
            else: v = self.dnt(self.r[r.a], name, depth + 1)
        elif k == "s":
            head, rest = r.a[0], seq(*r.a[1:])
            v = self.lift(self.dnt(head, name, depth + 1), rest)
            if self.nullable(head): v = alt(v, self.dnt(rest, name, depth + 1))
        elif k == "a": v = alt(*[self.dnt(x, name, depth + 1) for x in r.a])
        elif k == "*": v = self.lift(self.dnt(r.a[0], name, depth + 1), r)
        elif k == "m": v = may(self.dnt(r.a[0], name, depth + 1))
        else: v = EMPTY
        self._ntcache[key] = v
        return v


def kinds_list(m):
    return sorted(_kindnames.get(i, str(i)) for i in range(m.bit_length()) if m >> i & 1)
