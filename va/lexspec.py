"""Reference lexer: a deterministic machine over character classes, stepped once per character of the source.

delta(core, atom) -> (core', actions, consume).  It is independent of the analysed source; actions with data-dependent
effect (indentation, bracket stack, trivia) are carried out by the lock-step monitor in lexer_an.py."""

import unicodedata

# atoms: 0..127 ASCII, then
EOF = 128; NA = 129; NAN = 130; NN = 131; NW = 132; NO = 133
NATOMS = 134
ALL = (1 << NATOMS) - 1
NAMES = {EOF: "end of input", NA: "a non-ASCII letter", NAN: "a non-ASCII letter-like number", NN: "a non-ASCII number",
         NW: "a non-ASCII blank", NO: "another non-ASCII character"}

BASIC = dict(NAMES)
CATS = {}                       # further atoms: the characters of a category (one of the above) that a source's own tests tell apart
RANGE = {a: ((128, 0x10ffff),) for a in (NA, NAN, NN, NW, NO)}


def category(c):
    ch = chr(c)
    k = unicodedata.category(ch)
    if k == "Nl": return NAN
    if ch.isalpha(): return NA
    return NN if k[0] == "N" else NW if ch.isspace() else NO


def setup(consts):
    """Let the non-ASCII characters compared with be told apart: one atom for each category of characters between two of them."""
    global NATOMS, ALL
    NATOMS = 134; CATS.clear(); NAMES.clear(); NAMES.update(BASIC)
    for a in (NA, NAN, NN, NW, NO): RANGE[a] = ((128, 0x10ffff),)
    for a in list(RANGE):
        if a > 133: del RANGE[a]
    cuts = sorted({128} | {c for c in consts if 128 <= c < 0x110000} | {c + 1 for c in consts if 128 <= c < 0x10ffff})
    if len(cuts) > 1:
        parts = {}
        for i, lo in enumerate(cuts):
            hi = cuts[i + 1] - 1 if i + 1 < len(cuts) else 0x10ffff
            for c in range(lo, hi + 1):
                if 0xd800 <= c < 0xe000: continue
                parts.setdefault(category(c), {}).setdefault((lo, hi), c)
        for cat, ps in parts.items():
            home = max(ps, key=lambda r: r[1] - r[0])
            RANGE[cat] = (home,)
            for r in ps:
                if r == home: continue
                a = NATOMS; NATOMS += 1
                CATS[a] = cat; RANGE[a] = (r,)
                NAMES[a] = "U+%04X" % r[0] if r[0] == r[1] else "%s from U+%04X to U+%04X" % (BASIC[cat], r[0], r[1])
    ALL = (1 << NATOMS) - 1


KEYWORDS = {"False": "PyFalse", "None": "PyNone", "True": "PyTrue", "and": "PyAnd", "as": "PyAs", "assert": "PyAssert", "async": "PyAsync",
            "await": "PyAwait", "break": "PyBreak", "class": "PyClass", "continue": "PyContinue", "def": "PyDef", "del": "PyDel",
            "elif": "PyElif", "else": "PyElse", "except": "PyExcept", "finally": "PyFinally", "for": "PyFor", "from": "PyFrom",
            "global": "PyGlobal", "if": "PyIf", "import": "PyImport", "in": "PyIn", "is": "PyIs", "lambda": "PyLambda",
            "nonlocal": "PyNonLocal", "not": "PyNot", "or": "PyOr", "pass": "PyPass", "raise": "PyRaise", "return": "PyReturn",
            "try": "PyTry", "while": "PyWhile", "with": "PyWith", "yield": "PyYield"}
OPS = {"+": "PyPlus", "-": "PyMinus", "*": "PyMul", "**": "PyPower", "/": "PyDiv", "//": "PyFloorDiv", "%": "PyModulo", "@": "PyMatrice",
       "<<": "PyShiftLeft", ">>": "PyShiftRight", "&": "PyBitAnd", "|": "PyBitOr", "^": "PyBitXor", "~": "PyBitInvert",
       ":=": "PyColonAssign", "<": "PyLess", ">": "PyGreater", "<=": "PyLessEqual", ">=": "PyGreaterEqual", "==": "PyEqual",
       "!=": "PyNotEqual", "<>": "PyNotEqual", "(": "PyLeftParen", "[": "PyLeftBracket", "{": "PyLeftCurly", ")": "PyRightParen",
       "]": "PyRightBracket", "}": "PyRightCurly", ",": "PyComa", ":": "PyColon", ".": "PyDot", ";": "PySemiColon", "=": "PyAssign",
       "->": "PyArrow", "+=": "PyPlusAssign", "-=": "PyMinusAssign", "*=": "PyMulAssign", "/=": "PyDivAssign", "//=": "PyFloorDivAssign",
       "%=": "PyModuloAssign", "@=": "PyMatriceAssign", "&=": "PyBitAndAssign", "|=": "PyBitOrAssign", "^=": "PyBitXorAssign",
       "<<=": "PyShiftLeftAssign", ">>=": "PyShiftRightAssign", "**=": "PyPowerAssign", "...": "PyElipsis"}
BRACKETS = {"(": "()", "[": "[]", "{": "{}"}
CLOSERS = {")": "()", "]": "[]", "}": "{}"}
OPPREF = {o[:i] for o in OPS for i in range(1, len(o) + 1)}
PREFIXES = {x for a in ("r", "u", "b", "f", "br", "rb", "fr", "rf") for x in
            {"".join(c) for c in __import__("itertools").product(*[(ch, ch.upper()) for ch in a])}}
TYPE = "# type:"


def prop_of(kind):
    if kind in ("AtomName",) or kind in KEYWORDS.values(): return "L04"
    if kind == "AtomNumber": return "L05"
    if kind == "AtomString": return "L06"
    if kind in ("Indent", "Dedent"): return "L08"
    if kind in ("Newline", "EOF"): return "L09"
    if kind == "TypeComment": return "L11"
    return "L03"


def is_alpha(a):
    return CATS.get(a, a) in (NA, NAN) or a < 128 and chr(a).isalpha()


def is_num(a):
    return CATS.get(a, a) in (NAN, NN) or a < 128 and chr(a).isdigit()


def is_word(a): return is_alpha(a) or is_num(a) or a == ord("_")


def atom_text(a):
    if a in NAMES: return NAMES[a]
    return repr(chr(a))


def mask_text(m):
    n = bin(m).count("1")
    l = [i for i in range(NATOMS) if m >> i & 1]
    if n <= 3: return " or ".join(atom_text(a) for a in l)
    for nm, f in (("a letter", is_alpha), ("a digit", is_num), ("a letter, digit or '_'", is_word)):
        if all(f(a) for a in l): return nm
    return "one of %d characters such as %s" % (n, atom_text(next((a for a in l if 33 <= a < 127), l[0])))


class Spec:
    def __init__(self, literals):
        """literals: texts the analysed source compares names and comments with (they refine the classes, nothing else)."""
        words = set(KEYWORDS) | PREFIXES | {l for l in literals if l and l[0] != "#"}
        self.whole = words
        self.words = {w[:i] for w in words for i in range(1, len(w) + 1)}
        self.comments = {TYPE} | {l for l in literals if l and l[0] == "#"}
        self.compref = {w[:i] for w in self.comments for i in range(1, len(w) + 1)}
        self.cache = {}

    def partition(self, core, mask):
        """[(sub mask, core', actions, consume)]: the characters of mask grouped by what the reference does with them."""
        key = core
        t = self.cache.get(key)
        if t is None:
            g = {}
            for a in range(NATOMS):
                r = self.delta(core, a)
                g[r] = g.get(r, 0) | 1 << a
            t = self.cache[key] = [(m, r) for r, m in g.items()]
        return [(m & mask, r) for m, r in t if m & mask]

    def delta(self, core, a):
        k = core[0]
        c = chr(a) if a < 128 else None
        if k == "BOL":
            if c == " ": return ("BOL",), ("col",), 1
            if c == "\t": return ("BOL",), ("tab",), 1
            if c in ("#", "\r", "\n"): return ("MID",), (), 0
            if c == "\\": return ("DEC",), ("bs",), 0
            if a == EOF: return ("DEC",), ("zero",), 0
            return ("DEC",), (), 0
        if k == "MID":
            if c == " ": return ("WS",), ("item",), 1
            if c == "\t": return (k,), ("item", ("emit", "WhiteSpace", 1, "\t")), 1
            if c == "#": return ("COM", "#", frozenset(x for x in self.comments if x == "#")), ("item", ("com", "#")), 1
            if c == "\r": return ("CR",), ("item",), 1
            if c == "\n": return ("NL",), ("item", ("newline", 1, "\n ")), 1
            if c == "\\": return ("BS",), ("item",), 1
            if a == EOF: return ("DONE",), (("tok", "EOF", 0),), 0
            return self.start(c, a)
        if k == "WS":
            if c == " ": return core, (), 1
            return ("MID",), (("emit", "WhiteSpace", 0, " "),), 0
        if k == "COM":
            if c in ("\r", "\n") or a == EOF:
                if TYPE in core[2]: return ("DONE",), (("tok", "TypeComment", 0),), 0
                return ("MID",), (("emit", "Comment", 0, ""),), 0
            if c == "\0": return ("DONE",), ("unspecified",), 1
            t = core[1]
            if t is not None:
                t = t + (c or "?")
                p = core[2] | ({t} if t in self.comments else frozenset())
                if t not in self.compref: t = None
                return (k, t, p), (("com", t),), 1
            return core, (("com", None),), 1
        if k == "CR":
            if c == "\n": return ("NL",), (("newline", 1, "\r\n"),), 1
            return ("NL",), (("newline", 0, "\r "),), 0
        if k == "BS":
            if c == "\n": return ("MID",), (("emit", "LineContinuation", 1, "\\\n "),), 1
            if c == "\r": return ("BSCR",), (), 1
            return ("DONE",), (("err", "L09", "backslash without a line end"),), 0
        if k == "BSCR":
            if c == "\n": return ("MID",), (("emit", "LineContinuation", 1, "\\\r\n"),), 1
            return ("MID",), (("emit", "LineContinuation", 0, "\\\r "),), 0
        if k == "id":
            if is_word(a):
                t = core[1]
                if t is not None:
                    t = t + (c or "?")
                    if t not in self.words: t = None
                return ("id", t), (("text", t),), 1
            if c in ("'", '"') and core[1] in PREFIXES: return ("q1", c), ("quote",), 1
            if core[1] in KEYWORDS: return ("DONE",), (("tok", KEYWORDS[core[1]], 0),), 0
            return ("DONE",), (("tok", "AtomName", 0),), 0
        if k == "op":
            t = core[1]
            if c is not None and t + c in OPPREF: return self.op(t + c)
            if t == "." and c is not None and c.isdigit(): return ("FRD",), (), 1
            back = 0
            while t and t not in OPS: t = t[:-1]; back += 1
            if not t: return ("DONE",), (("err", "L03", "%r is no operator" % core[1]),), 0
            return ("DONE",), (("tok", OPS[t], -back),), 0
        if k in NUM: return NUM[k](self, core, c, a)
        q = core[1] if len(core) > 1 else None
        if k == "q1":      # one quote seen
            if c == q: return ("q2", q), (), 1
            return ("s1", q), (), 0
        if k == "q2":
            if c == q: return ("s3", q, 0), (), 1
            return ("DONE",), (("tok", "AtomString", 0),), 0
        if k == "s1":
            if c == q: return ("DONE",), (("tok", "AtomString", 1),), 1
            if c == "\\": return ("s1b", q), (), 1
            if c in ("\r", "\n") or a == EOF: return ("DONE",), (("err", "L06", "literal not closed on its line"),), 0
            if c == "\0": return ("DONE",), ("unspecified",), 1
            return core, (), 1
        if k == "s1b":
            if a == EOF: return ("DONE",), (("err", "L06", "literal not closed"),), 0
            if c == "\r": return ("s1r", q), ("errok",), 1
            if c == "\n": return ("s1", q), ("errok",), 1
            if c == "\0": return ("DONE",), ("unspecified",), 1
            return ("s1", q), (), 1
        if k == "s1r":
            if c == "\n": return ("s1", q), (), 1
            return ("s1", q), (), 0
        if k == "s3":
            if c == q:
                if core[2] == 2: return ("DONE",), (("tok", "AtomString", 1),), 1
                return ("s3", q, core[2] + 1), (), 1
            if c == "\\": return ("s3b", q), (), 1
            if a == EOF: return ("DONE",), (("err", "L06", "triple-quoted literal not closed"),), 0
            if c == "\0": return ("DONE",), ("unspecified",), 1
            return ("s3", q, 0), (), 1
        if k == "s3b":
            if a == EOF: return ("DONE",), (("err", "L06", "triple-quoted literal not closed"),), 0
            if c == "\0": return ("DONE",), ("unspecified",), 1
            return ("s3", q, 0), (), 1
        raise KeyError(k)

    def start(self, c, a):
        if is_alpha(a) or c == "_":
            t = c if c and c in self.words else None
            return ("id", t), ("lex", ("text", t)), 1
        if c == "0": return ("Z",), ("lex",), 1
        if c is not None and c.isdigit(): return ("D",), ("lex",), 1
        if c in ("'", '"'): return ("q1", c), ("lex", "quote"), 1
        if c is not None and c in OPPREF:
            r = self.op(c)
            return r[0], ("lex",) + r[1], r[2]
        return ("DONE",), ("lex", ("err", "L09" if c == "\0" else "L03", "no token starts with %s" % (
            "a NUL character" if c == "\0" else "such a character"))), 0

    def op(self, t):
        if t in BRACKETS: return ("DONE",), (("open", BRACKETS[t]), ("tok", OPS[t], 1)), 1
        if t in CLOSERS: return ("DONE",), (("close", CLOSERS[t], OPS[t]),), 1
        if not any(o != t and o.startswith(t) for o in OPS): return ("DONE",), (("tok", OPS[t], 1),), 1
        return ("op", t), (), 1


def _ok(a):
    """A complete number ends here; directly followed by a word character the language may also call it malformed."""
    return ("DONE",), (("tok", "AtomNumber", 0, "or error" if is_word(a) else ""),), 0


def _bad(what): return ("DONE",), (("err", "L05", what),), 0


def _tent(): return ("DONE",), (("tok", "AtomNumber", "e", "or error"),), 0


HEX = set("0123456789abcdefABCDEF"); OCT = set("01234567"); BIN = set("01"); DIG = set("0123456789")


def _radix(digits, nm):
    def first(sp, core, c, a):
        if c == "_": return (nm + "U",), (), 1
        if c in digits: return (nm,), (), 1
        return _bad("no digit after the base prefix")

    def under(sp, core, c, a):
        if c in digits: return (nm,), (), 1
        return _bad("no digit after '_'")

    def more(sp, core, c, a):
        if c in digits: return core, (), 1
        if c == "_": return (nm + "U",), (), 1
        return _ok(a)
    NUM[nm + "0"] = first; NUM[nm + "U"] = under; NUM[nm] = more


NUM = {}
_radix(HEX, "HX"); _radix(OCT, "OC"); _radix(BIN, "BN")


def _tail(c, a, end):
    if c is not None and c in "eE": return ("E",), ("mark",), 1
    if c is not None and c in "jJ": return ("IM",), (), 1
    return end


def _z(sp, core, c, a):
    if core == ("Z",):
        if c is not None and c in "xX": return ("HX0",), (), 1
        if c is not None and c in "oO": return ("OC0",), (), 1
        if c is not None and c in "bB": return ("BN0",), (), 1
    if c == "0": return ("Z0",), (), 1
    if c == "_": return ("ZU",), (), 1
    if c in DIG: return ("ZD",), (), 1
    if c == ".": return ("FR",), (), 1
    return _tail(c, a, _ok(a))


def _zu(sp, core, c, a):
    if c == "0": return ("Z0",), (), 1
    if c in DIG: return ("ZD",), (), 1
    return _bad("no digit after '_'")


def _zd(sp, core, c, a):
    if c in DIG: return core, (), 1
    if c == "_": return ("ZDU",), (), 1
    if c == ".": return ("FR",), (), 1
    if c is not None and c in "eE": return ("EZ",), ("mark",), 1
    if c is not None and c in "jJ": return ("IM",), (), 1
    return _bad("leading zero in a non-zero decimal integer")


def _under(to):
    def f(sp, core, c, a):
        if c in DIG: return (to,), (), 1
        return _bad("no digit after '_'")
    return f


def _d(sp, core, c, a):
    if c in DIG: return core, (), 1
    if c == "_": return ("DU",), (), 1
    if c == ".": return ("FR",), (), 1
    return _tail(c, a, _ok(a))


def _fr(sp, core, c, a):
    if c in DIG: return ("FRD",), (), 1
    if c == "_": return _bad("'_' after '.'")
    return _tail(c, a, _ok(a))


def _frd(sp, core, c, a):
    if c in DIG: return core, (), 1
    if c == "_": return ("FRU",), (), 1
    return _tail(c, a, _ok(a))


def _e(sp, core, c, a):
    z = core[0][-1] == "Z"
    if c in DIG: return ("EX",), (), 1
    if core[0][:2] != "ES" and c is not None and c in "+-": return ("ESZ" if z else "ES",), (), 1
    return _bad("exponent without digits") if z else _tent()


def _ex(sp, core, c, a):
    if c in DIG: return core, (), 1
    if c == "_": return ("EXU",), (), 1
    if c is not None and c in "jJ": return ("IM",), (), 1
    return _ok(a)


def _im(sp, core, c, a): return _ok(a)


NUM.update({"Z": _z, "Z0": _z, "ZU": _zu, "ZD": _zd, "ZDU": _under("ZD"), "D": _d, "DU": _under("D"), "FR": _fr, "FRD": _frd,
            "FRU": _under("FRD"), "E": _e, "EZ": _e, "ES": _e, "ESZ": _e, "EX": _ex, "EXU": _under("EX"), "IM": _im})
