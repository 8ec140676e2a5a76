"""How the constructor turns the source text into the characters the tokenizer reads.

Values: ('SRCSTR',) the source text, ('SRC',) its characters, ('CHARS',) an iteration over them, ('BYTES',) over its bytes,
('SB', e) a copy in the making whose next character has to be the e-th that the iteration handed out, ('ALT', why, mask) a text or
vector of characters that differs from the source (mask: the characters concerned, or None).  Characters handed out are ('ch', g)
with g below 16: 0 for the first, then 1 to 8 in turn; every sequence of character classes is possible, since the text is free."""
from . import lexspec as L
from .interp import NOTHANDLED, Stop, UNIT, Unsupported

NEOF = L.ALL & ~(1 << L.EOF)
ASCII = (1 << 128) - 1
WHITE = 1 << 32 | 0x3e00
LETTERS = sum(1 << i for i in range(128) if chr(i).isalpha()) | NEOF & ~ASCII


def succ(g): return 1 if g is None or g in (0, 8) else g + 1
def ring(a, b): return (b - a) % 8
def ischar(x): return type(x) is tuple and len(x) == 2 and x[0] == 'ch' and type(x[1]) is int and x[1] < 16


def look(c, st, r):
    """(last reference, value)"""
    v = r
    for _ in range(12):
        if not (type(v) is tuple and v and v[0] in ('R', 'B', 'P')): break
        r = v
        try: v = c.e.load(st, v)
        except (Unsupported, KeyError, TypeError): return r, None
    return r, v


def builders(st, f, args=None):
    def go(v):
        if type(v) is not tuple or not v: return v
        if v[0] == 'SB': return f(v)
        if v[0] in ('A', 'C', 'T'):
            i = {'A': 3, 'C': 2, 'T': 1}[v[0]]
            n = tuple(go(x) for x in v[i])
            return v[:i] + (n,) + v[i + 1:] if n != v[i] else v
        return v
    for fr in st.frames:
        for k, v in list(fr.locals.items()):
            n = go(v)
            if n is not v: fr.locals[k] = n
    for k, v in list(st.heap.items()):
        n = go(v)
        if n is not v: st.heap[k] = n
    if args:
        args[:] = [go(v) for v in args]
    w = st.world
    if w.col is not None and w.col[0] is not None: w.col = (go(w.col[0]),) + w.col[1:]


def handout(c, st, m):
    """the iteration gives its next character"""
    w = st.world
    if w.fin: resolve(c, st)
    g = 0 if w.gen is None else succ(w.gen)

    def f(v):
        if v[1] and ring(v[1], g) >= 4 and g: return ('ALT', "characters are left out", w.cells.get(v[1]))
        if not v[1] and g > 4: return ('ALT', "characters are left out", None)
        return v
    builders(st, f)
    w.gen = g; w.cells[g] = m
    if g > 5: w.cells.pop(0, None)
    if g and (g + 3) % 8 + 1 in w.cells: del w.cells[(g + 3) % 8 + 1]
    return ('ch', g)


def ended(c, st):
    if st.world.gen is None or st.world.fin: raise Stop()         # an empty source: seen where the text is taken as a whole
    st.world.fin = True


def resolve(c, st, args=None):
    """after the end of the iteration: which copies are complete?"""
    w = st.world
    n = succ(w.gen)
    builders(st, lambda v: ('SRC',) if v[1] == n else ('ALT', "characters are left out", w.cells.get(v[1])), args)
    for g in range(10): w.cells.pop(g, None)
    w.gen = None; w.fin = False


def closure(c, st, f, x, byref):
    """(function, arguments) of a call of the closure or function f"""
    e = c.e
    g = f
    while type(g) is tuple and g[0] == 'R': g = e.load(st, g)
    if byref: x = ('R', ('V', x), ())
    if type(g) is tuple and g[0] == 'F':
        inst = e.types[g[1]].get("inst")
        if type(inst) is int and e.p.fns[inst].has_body: return e.p.fns[inst], [x]
    if type(g) is tuple and g[0] == 'C':
        fn = e.closure_body(g)
        t = e.types[fn.locals[1]]
        return fn, [('R', ('V', g), ()) if t["k"] == "ref" else g, x]
    raise Unsupported("call of %r" % (g[0] if type(g) is tuple else g,))


def run(c, st, n, ad, into=None):
    """next, collect or for_each of an iteration with adapters, one step at each execution of the call"""
    w = st.world; e = c.e; f = st.frames[-1]
    t = f.fn.blocks[f.bb]["t"]
    dest = t[4]
    if w.col is None:
        i = c.feasible(st, 3 if ad[1] == 'BYTES' else 2)
        b = w.part[0] if w.part else ('SB', 0) if n in ("collect", "extend") else None
        w.part = None
        w.col = (b, 0, None)
        if not i:
            ended(c, st)
            if n in ("collect", "extend"): resolve(c, st)
            b = w.col[0]
            w.col = None
            if n == "extend": c.put(st, into, b); return UNIT
            return b if n == "collect" else UNIT if n == "for_each" else e.none(e.ret_type(st))
        x = handout(c, st, NEOF if ad[1] != 'BYTES' else NEOF & ASCII if i == 1 else NEOF & ~ASCII)
        if ad[1] == 'BYTES' and i == 2: x = ('X',)
        if ad[1] == 'IDX': x = ('T', (('X',), x))
        w.col = (w.col[0], 0, x)
    b, i, x = w.col
    if i & 1:                         # a closure has returned
        i >>= 1
        kind = ad[2][i][0]
        v = e.get(st, ('L', len(st.frames) - 1, dest[0]), tuple(dest[1]))
        if kind == "map": x = v
        elif kind == "filter_map":
            if v[2] == 0: x = None
            else: x = v[3][0]
        elif kind in ("filter", "take_while"):
            if type(v) is not int: raise Unsupported("outcome of a filter")
            if not v:
                x = None
                if kind == "take_while": raise Unsupported("take_while")
        i = (i + 1) << 1
    while x is not None and i >> 1 < len(ad[2]):
        kind, cl = ad[2][i >> 1]
        if kind == "enumerate": x = ('T', (('X',), x))
        elif kind == "plain": pass
        else:
            fn, args = closure(c, st, cl, x, kind in ("filter", "inspect", "take_while"))
            w.col = (b, i | 1, x)
            e.push(st, fn, e.fix_args(st, fn, args), dest, f.bb)
            return ('PUSHED',)
        i += 2
    if n == "next" and x is not None:
        w.col = None
        return e.some(e.ret_type(st), x)
    if x is not None and b is not None: b = append(c, st, b, x)
    w.col = None; w.part = (b, -1, None)
    e.goto(st, f, f.bb)
    if not e.memo(st): raise Stop()
    return ('PUSHED',)


def append(c, st, v, x):
    """v with x put at its end; None when this is none of our business"""
    w = st.world
    if v[0] == 'ALT': return v
    if v[0] in ('SRC', 'SRCSTR'): return ('ALT', "something is added to it", 1 << x if type(x) is int and x < 128 else None)
    if v[0] == 'SB': e = v[1]
    elif v[0] == 'S' and v[1] == () or v[0] == 'V' and v[1] == 'nc' and not v[3]:
        if w.gen is None or w.fin: return None
        e = 0
    else: return None
    if ischar(x):
        if x[1] == e and e in w.cells: return ('SB', succ(e))
        return ('ALT', "a character is left out or doubled", w.cells.get(e))
    out = e in w.cells and (e == 0 or ring(e, w.gen or e) < 4)
    if type(x) is int and x < 128 and out and w.cells[e] == 1 << x: return ('SB', succ(e))
    if out: return ('ALT', "a character is replaced", w.cells[e])
    return ('ALT', "a character is added", 1 << x if type(x) is int and x < 128 else None)


def pattern(c, st, x):
    """mask of a constant pattern's characters, None when it is not constant"""
    r, x = look(c, st, x)
    if type(x) is int: return 1 << x if x < 128 else NEOF & ~ASCII
    if type(x) is tuple and x and x[0] == 'str':
        m = 0
        for ch in x[1]: m |= 1 << ord(ch) if ord(ch) < 128 else NEOF & ~ASCII
        return m
    if type(x) is tuple and x and x[0] == 'T':
        m = 0
        for y in x[1]:
            k = pattern(c, st, y)
            if k is None: return None
            m |= k
        return m
    return None


SAME = {"to_string", "clone", "to_owned", "into", "from", "as_str", "as_ref", "borrow", "deref", "deref_mut", "as_mut_str", "into_boxed_str",
        "into_string", "into_owned", "as_slice", "to_vec", "into_boxed_slice", "into_vec", "into_iter", "by_ref", "copied", "cloned"}
TRIM = {"trim": 3, "trim_start": 1, "trim_end": 2, "trim_left": 1, "trim_right": 2, "trim_matches": 3, "trim_start_matches": 1, "trim_end_matches": 2,
        "trim_left_matches": 1, "trim_right_matches": 2, "trim_ascii": 3, "trim_ascii_start": 1, "trim_ascii_end": 2}
FOLD = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"}
LAZY = {"map", "filter", "enumerate", "peekable", "filter_map", "flat_map", "chain", "inspect", "take_while", "skip_while", "copied", "cloned", "fuse", "map_while", "by_ref", "into_iter", "rev", "skip", "take", "step_by", "scan"}


def handle(c, st, fn, path, a):
    if not a or fn is not None and fn.local: return NOTHANDLED
    n = path.rsplit("::", 1)[-1]
    r, v = look(c, st, a[0])
    k = v[0] if type(v) is tuple and v else None
    w = st.world
    if k == 'SB' and w.fin and n != "push":
        resolve(c, st, a)
        r, v = look(c, st, a[0]); k = v[0]
    if k in ('CHARS', 'IDX', 'BYTES') and n in ("map", "filter", "filter_map", "inspect", "enumerate", "for_each"):
        v = ('AD', k, ()); k = 'AD'
    if k == 'AD':
        if n == "for_each": v = ('AD', v[1], v[2] + (("map", a[1]),))
        elif n in ("map", "filter", "filter_map", "inspect"): return ('AD', v[1], v[2] + ((n, a[1]),))
        elif n in ("enumerate",): return ('AD', v[1], v[2] + ((n, None),))
        elif n in ("copied", "cloned", "into_iter", "by_ref"): return v
        elif n == "from_iter": n = "collect"
        if n in ("next", "collect", "for_each"): return run(c, st, n, v)
        if n in ("extend", "spec_extend"): return NOTHANDLED
        return ('ALT', "characters are left out or in another order", None) if n in ("rev", "skip", "step_by") else NOTHANDLED
    if k == 'CHARS' and n == "peekable": return ('PK', None)
    if k == 'PK':
        ty = c.e.ret_type(st)
        if n in ("into_iter", "by_ref"): return a[0]
        if n == "next":
            if v[1] is not None:
                c.put(st, r, ('PK', None))
                return c.e.some(ty, v[1]) if v[1] != 'END' else c.e.none(ty)
            i = c.feasible(st)
            if not i: ended(c, st); return c.e.none(ty)
            return c.e.some(ty, handout(c, st, NEOF))
        if n in ("peek", "peek_mut"):
            if v[1] is None:
                i = c.feasible(st)
                if i: x = handout(c, st, NEOF)
                else: ended(c, st); x = 'END'
                v = ('PK', x); c.put(st, r, v)
            return c.e.none(ty) if v[1] == 'END' else c.e.some(ty, ('R', ('V', v[1]), ()))
        return NOTHANDLED
    std = not st.frames[-1].fn.local
    if k == 'VP':
        if n in ("add", "offset", "cast", "as_ptr", "as_mut_ptr"): return v
        if n == "write":
            r2, v2 = look(c, st, v[1])
            new = append(c, st, v2, a[1])
            if new is None: return NOTHANDLED
            c.put(st, r2, new); return UNIT
        return NOTHANDLED
    if k in ('CHARS', 'BYTES', 'IDX'):
        if n == "next":
            i = c.feasible(st, 3 if k == 'BYTES' else 2)
            ty = c.e.ret_type(st)
            if not i: ended(c, st); return c.e.none(ty)
            if k == 'BYTES' and i == 2:
                handout(c, st, NEOF & ~ASCII); return c.e.some(ty, ('X',))
            x = handout(c, st, NEOF & ASCII if k == 'BYTES' else NEOF)
            return c.e.some(ty, x if k != 'IDX' else ('T', (('X',), x)))
        if n == "size_hint":
            ty = c.e.types[c.e.ret_type(st)]["f"][1]
            return ('T', (0, c.e.none(ty)))
        if n == "rev" or n in ("skip", "step_by") and type(a[1]) is int and a[1] > (n == "step_by"): return ('ALT', "characters are left out or in another order", None)
        if n == "skip" and a[1] == 0: return v
        if n == "take" and type(a[1]) is int:
            if a[1] >= 1 << 31: return v
            return ('ALT', "only its first characters are taken", None) if c.feasible(st) else v
        if n in ("collect", "from_iter") and k == 'CHARS': return ('SRC',)
        if n in ("into_iter", "by_ref"): return a[0]
        if n == "count" and len(a) == 1: return ('X',) if w.gen is not None else ('BLEN',) if k == 'BYTES' else ('LEN', 0)
        return NOTHANDLED
    if n in ("collect", "from_iter") and k == 'A': return ('STD',)
    if n == "as_mut_ptr" and std and (k in ('SB', 'ALT') or k == 'V' and v[1] == 'nc' and not v[3]): return ('VP', r)
    if n == "set_len" and std and k in ('SB', 'ALT', 'V'): return UNIT
    if std and k in ('SB', 'ALT') and n in ("len", "capacity"): return 0 if n == "len" else 1
    if n in ("push",) and len(a) == 2 and k in ('SB', 'ALT', 'SRC', 'SRCSTR', 'S', 'V'):
        new = append(c, st, v, a[1])
        if new is None: return NOTHANDLED
        c.put(st, r, new); return UNIT
    if n in ("extend", "extend_from_slice", "push_str", "spec_extend") and len(a) == 2:
        r2, x = look(c, st, a[1])
        if type(x) is tuple and x and x[0] == 'SB' and w.fin: resolve(c, st, a); r2, x = look(c, st, a[1])
        if x in (('CHARS',), ('SRC',), ('SRCSTR',)) and (k == 'V' and v[1] == 'nc' and not v[3] or k == 'S' and v[1] == ()) and w.gen is None:
            c.put(st, r, ('SRC',) if k == 'V' else ('SRCSTR',)); return UNIT
        if k == 'ALT' or k in ('SRC', 'SRCSTR') and type(x) is tuple and x and x[0] == 'str' and x[1]:
            if k != 'ALT': c.put(st, r, ('ALT', "something is added to it", pattern(c, st, x)))
            return UNIT
        if x == ('IDX',) or x == ('BYTES',): x = ('AD', x[0], ())
        if type(x) is tuple and x and x[0] == 'AD' and (k == 'V' and v[1] == 'nc' and not v[3] or k == 'S' and v[1] == () or k == 'SB'):
            return run(c, st, "extend", x, r)
        if type(x) is tuple and x and x[0] == 'A' and n != "push_str": return ('STD',)
        return NOTHANDLED
    if n == "add" and k in ('SRCSTR', 'ALT') and "String" in path:
        r2, x = look(c, st, a[1])
        if k == 'ALT': return v
        if type(x) is tuple and x and x[0] == 'str': return ('ALT', "something is added to it", pattern(c, st, x)) if x[1] else v
        return NOTHANDLED
    if k == 'ALT':
        if n in SAME or n in TRIM or n in FOLD or n in LAZY or n in ("chars", "iter", "collect", "replace", "replacen", "join", "concat", "as_bytes", "bytes"): return v
        if n in ("insert", "insert_str", "truncate", "retain", "dedup", "clear", "reserve", "shrink_to_fit"): return UNIT
        if n in ("starts_with", "ends_with", "contains", "is_empty"): return c.feasible(st)
        if n in ("strip_prefix", "strip_suffix"): return c.e.some(c.e.ret_type(st), v) if c.feasible(st) else c.e.none(c.e.ret_type(st))
        if n == "len": return ('X',)
        return NOTHANDLED
    if k in ('LINES', 'SPLIT'):
        if n == "collect": return v
        if n in ("join", "concat"):
            if k == 'LINES' or n == "concat": return ('ALT', "it is put together from its lines or parts", 1 << 13 | 1 << 10 if k == 'LINES' else v[2])
            r2, x = look(c, st, a[1])
            if x == v[1]: return ('SRCSTR',)
            return ('ALT', "it is put together from its lines or parts", v[2]) if type(x) is tuple and x and x[0] == 'str' else NOTHANDLED
        if n == "next":
            return c.e.some(c.e.ret_type(st), ('ALT', "only its first part is taken", v[2]) if c.feasible(st) else ('SRCSTR',))
        if n in ("deref", "as_slice", "into_iter"): return a[0]
        return NOTHANDLED
    if k not in ('SRC', 'SRCSTR'): return NOTHANDLED
    if n == "chars": return ('CHARS',)
    if n in ("iter", "into_iter") and k == 'SRC': return ('CHARS',)
    if n == "char_indices": return ('IDX',)
    if n == "bytes": return ('BYTES',)
    if n in ("from_iter",) and len(a) == 1: return ('SRCSTR',)
    if n in ("into_boxed_slice", "into_boxed_str", "from", "into", "to_vec", "to_owned", "into_owned", "into_string", "to_string") and len(a) == 1: return v
    if n in ("replace", "replacen"):
        r1, x = look(c, st, a[1]); r2, y = look(c, st, a[2])
        if x == y or type(x) is int and y == ('str', chr(x)): return v
        if not (type(y) is tuple and y and y[0] == 'str'): return NOTHANDLED
        return ('ALT', "parts of it are replaced", pattern(c, st, a[1])) if c.feasible(st) else v
    if n in TRIM:
        m = WHITE if len(a) == 1 else pattern(c, st, a[1])
        return ('ALT', "it is trimmed", m) if c.feasible(st) else v
    if n in FOLD: return ('ALT', "letters are changed", LETTERS) if c.feasible(st) else v
    if n in ("starts_with", "ends_with", "contains") and (len(a) < 2 or pattern(c, st, a[1]) is not None): return c.feasible(st)
    if n in ("strip_prefix", "strip_suffix"):
        m = pattern(c, st, a[1])
        return c.e.some(c.e.ret_type(st), ('ALT', "a part is taken off", m)) if c.feasible(st) else c.e.none(c.e.ret_type(st))
    if n in ("split_once", "rsplit_once", "find", "rfind") and pattern(c, st, a[1]) is not None:
        if not c.feasible(st): return c.e.none(c.e.ret_type(st))
        p = ('ALT', "only a part is taken", pattern(c, st, a[1]))
        return c.e.some(c.e.ret_type(st), ('T', (p, p)) if "once" in n else ('X',))
    if n == "lines": return ('LINES', None, 1 << 13 | 1 << 10)
    if n in ("split", "splitn", "split_terminator", "rsplit") and pattern(c, st, a[-1]) is not None:
        r1, x = look(c, st, a[-1])
        return ('SPLIT', x if n == "split" and type(x) is tuple else ('str', chr(x)) if n == "split" and type(x) is int else None, pattern(c, st, a[-1]))
    if n in ("split_whitespace", "split_ascii_whitespace"): return ('SPLIT', None, WHITE)
    if n in ("truncate",) and type(a[1]) is int:
        if a[1] < 1 << 31 and c.feasible(st): c.put(st, r, ('ALT', "it is cut off", None))
        return UNIT
    if n in ("insert", "insert_str"):
        c.put(st, r, ('ALT', "something is added to it", pattern(c, st, a[2]))); return UNIT
    if n in ("pop", "remove", "swap_remove"):
        x = handfree(c, st)
        c.put(st, r, ('ALT', "a character is removed", None))
        return c.e.some(c.e.ret_type(st), x) if n == "pop" else x
    if n in ("last", "first"):
        if not c.feasible(st): return c.e.none(c.e.ret_type(st))
        return c.e.some(c.e.ret_type(st), ('R', ('V', handfree(c, st)), ()))
    if n in ("dedup",): c.put(st, r, ('ALT', "repeated characters are left out", None)); return UNIT
    return NOTHANDLED


def handfree(c, st):
    st.world.cells[12] = NEOF
    return ('ch', 12)


def examine(c, st):
    """Is what the new tokenizer reads the source?  Returns (why, mask) when not, None when it is."""
    found = []; good = []; seen = set()

    def go(v, depth):
        if type(v) is not tuple or not v or depth > 9: return
        if v[0] in ('SRC', 'SRCSTR'): good.append(v)
        elif v[0] == 'ALT': found.append((v[1], v[2]))
        elif v[0] == 'SB': found.append(("its end is left out", None))
        elif v[0] == 'A':
            for x in v[3]: go(x, depth + 1)
        elif v[0] == 'T':
            for x in v[1]: go(x, depth + 1)
        elif v[0] == 'B' and v[1] in st.heap and v[1] not in seen: seen.add(v[1]); go(st.heap[v[1]], depth + 1)
    idle = st.world.gen is not None
    if st.world.fin: resolve(c, st)
    go(st.heap[c.TOK], 0)
    if idle and not found and not good: return "none of its characters is taken", None
    return found[0] if found and not good else None


def concerned(m):
    """the properties a changed source breaks: those of the characters concerned"""
    if m is None: return {"L09", "L10"}
    out = {"L10"}
    def has(s): return any(m >> ord(ch) & 1 for ch in s)
    if has("\r\n"): out |= {"L09", "L11"}
    if has("\t "): out |= {"L08", "L11"}
    if has("\0\x1a\x0c"): out |= {"L09"}
    if has("0123456789"): out |= {"L05"}
    if has("()[]{}"): out |= {"L07"}
    if has("+-*/%@<>=&|^~!.,:;"): out |= {"L03"}
    if m & LETTERS or has("_"): out |= {"L04"}
    return out
