"""Disjunctive abstract interpretation over the MIR dump.

An abstract state is a stack of frames (function, block, abstract locals), an abstract heap and the client's abstract
world.  The engine runs a worklist over (program point, abstract state) with memoisation at control-flow joins, so loops
are handled by reaching a fixpoint; it never executes the program and never asks a solver.  What a scalar, a token, a
string or a vector is abstracted to is decided by the client (parser or lexer analysis).

Values (immutable):
  int                      known scalar (bool, char, integers)
  ('A', ty, variant, fs)   struct / enum value with a known variant
  ('T', fs)                tuple or array
  ('C', ty, fs)            closure
  ('R', base, path)        reference/pointer; base ('L', depth, local) or ('H', heap id); path of field/element steps
  ('B', hid)               Box, content in the heap
  ('P', hid, k)            a part of a Box while it is being dereferenced
  ('str', s)               &str with known text
  ('F', ty)                function item
  None                     uninitialised / moved / dropped
  anything else            abstract value of the client
"""

import resource
from collections import deque
import time

from . import mir
from .purity import interior

DEADLINE = time.time() + 600        # an analysis that has not finished by then leaves the rest undecided
MAX_KB = 12 << 20


class Limit(Exception):
    pass


class Unsupported(Exception):
    """The analysis met a construct it cannot represent: the path is reported as undecided."""


class Fork(Exception):
    """Raised while evaluating a statement: redo it once per alternative after refining the state."""

    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """The path ends here (client decided)."""


UNIT = ('T', ())


class Frame:
    __slots__ = ("fn", "bb", "si", "locals", "dest", "target")

    def __init__(self, fn, locals_, dest, target):
        self.fn = fn; self.bb = 0; self.si = 0; self.locals = locals_; self.dest = dest; self.target = target

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.bb = self.bb; f.si = self.si; f.locals = dict(self.locals)
        f.dest = self.dest; f.target = self.target
        return f


class State:
    __slots__ = ("frames", "heap", "world", "nexth", "dirty", "entered", "trace", "extra")

    def __init__(self, world):
        self.frames = []; self.heap = {}; self.world = world; self.nexth = 0; self.dirty = True; self.entered = True; self.trace = None; self.extra = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap); s.world = self.world.copy(); s.nexth = self.nexth; s.dirty = True; s.entered = self.entered
        s.trace = self.trace; s.extra = self.extra
        return s

    def alloc(self, v):
        h = self.nexth; self.nexth += 1
        self.heap[h] = v
        return h

    # --- places -------------------------------------------------------------------------------------------------
    def base_get(self, base):
        if base[0] == 'L':
            return self.frames[base[1]].locals.get(base[2])
        return self.heap[base[1]]

    def base_set(self, base, v):
        if base[0] == 'L':
            self.frames[base[1]].locals[base[2]] = v
        else:
            self.heap[base[1]] = v


class Engine:
    """Client interface (methods a client overrides):
       call(st, fn, path, args, span)   -> None (not handled) or a value, may raise Fork / Stop / Unsupported
       proj(st, val, step, base, path)  -> project into a client value
       set_proj(st, val, step, new)     -> functional update of a client value
       discr(st, val)                   -> int or symbolic
       switch(st, val, values)          -> index into values or -1 (otherwise); may Fork
       binop(st, op, a, b, ty)          -> value
       deref(st, val)                   -> for client references: returns the value referenced
       on_return(st, val), on_panic(st, what, span), canon(val, ren), world_canon(ren)
    """

    def __init__(self, prog, client, max_states=400000):
        self.p = prog; self.c = client; self.types = prog.types
        self.steps = 0; self.max_states = max_states; self.limited = False
        self.seen = {}
        self.wide = 1 << 60
        self.memo_hits = 0
        self.unsupported = []
        client.e = self

    # --- running ------------------------------------------------------------------------------------------------
    def push(self, st, fn, args, dest, target):
        if not fn.has_body: raise Unsupported("no body for " + fn.name)
        if len(st.frames) > 40: raise Unsupported("call depth in " + fn.name)
        fn.prepare()
        loc = {}
        for i, a in enumerate(args): loc[i + 1] = a
        st.frames.append(Frame(fn, loc, dest, target))
        st.entered = True

    def run(self, st): self.run_all(deque([st]))

    def run_all(self, work):
        """depth first; breadth first once the number of states says that some path does not come to an end"""
        c = self.c
        while work:
            st = work.popleft() if len(self.seen) > self.wide else work.pop()
            try:
                if c.pick is not None: c.pick(st)
                self.advance(st, work)
            except Stop:
                pass
            except Unsupported as e:
                f = st.frames[-1] if st.frames else None
                self.unsupported.append((str(e), f.fn.short if f else "?", self.span(st)))
                c.on_unsupported(st, str(e))
            except (TypeError, IndexError, KeyError, ValueError, AttributeError) as e:
                # a value of a shape the interpreter does not know: this path is not decided
                tb = e.__traceback__
                while tb.tb_next is not None: tb = tb.tb_next
                msg = "unmodelled value (%s at %s:%d)" % (type(e).__name__, tb.tb_frame.f_code.co_name, tb.tb_lineno)
                f = st.frames[-1] if st.frames else None
                self.unsupported.append((msg, f.fn.short if f else "?", self.span(st)))
                c.on_unsupported(st, msg)
            except Limit:
                self.unsupported.append(("state limit", "", "?"))
                c.on_unsupported(st, "state limit")
                self.limited = True
                work.clear()
                return

    def span(self, st):
        if not st.frames: return "?"
        # innermost frame in the analysed crate
        for f in reversed(st.frames):
            b = f.fn.blocks[f.bb]
            sp = None
            if f.si < len(b["s"]):
                s = b["s"][f.si]
                sp = s[-1] if isinstance(s[-1], str) else None
            if sp is None: sp = b.get("sp")
            if sp and not sp.startswith("/"): return sp
        return "?"

    def advance(self, st, work):
        """Run one state until it forks, merges, ends."""
        turns = 0
        while True:
            f = st.frames[-1]
            fn = f.fn
            if st.entered:
                st.entered = False
                if fn.loophead[f.bb] or (st.dirty and fn.joins[f.bb]):
                    try: self.c.settle(st)
                    except Fork as fk:
                        for alt in fk.alts:
                            s2 = st.copy()
                            alt(s2); s2.entered = True; s2.dirty = True
                            work.append(s2)
                        return
                    if not self.memo(st): return
                    st.dirty = False
                    turns += 1
                    if turns > 8 and len(self.seen) > self.wide:
                        work.append(st); return
            blk = fn.blocks[f.bb]
            stmts = blk["s"]
            n = len(stmts)
            try:
                while f.si < n:
                    self.stmt(st, f, stmts[f.si])
                    f.si += 1
                if self.term(st, f, blk["t"]): return
            except Fork as fk:
                self.steps += len(fk.alts)
                if self.steps > 8 * self.max_states or self.steps % 256 == 0 and time.time() > DEADLINE: raise Limit()
                if len(fk.alts) == 1:
                    fk.alts[0](st); st.dirty = True
                    continue
                for alt in fk.alts[1:]:
                    s2 = st.copy()
                    alt(s2)
                    work.append(s2)
                fk.alts[0](st); st.dirty = True
                continue

    # --- memoisation --------------------------------------------------------------------------------------------
    def memo(self, st):
        key = self.canon_state(st)
        c = self.c
        old = self.seen.get(key)
        if old is not None:
            self.memo_hits += 1
            c.on_merge(st, old)
            return False
        self.seen[key] = c.on_new(st)
        n = len(self.seen)
        if n > self.max_states or n > self.wide and n % 1024 == 0 and c.enough(): raise Limit()
        if n % 256 == 0 and (time.time() > DEADLINE or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > MAX_KB): raise Limit()
        return True

    def canon_state(self, st):
        if self.c.prune is not None: self.c.prune(st)
        ren = Renamer(self, st)
        out = self.canon_frames(st, ren)
        out.append(self.c.world_canon(st, ren))
        return ren.finish(out)

    def canon_frames(self, st, ren):
        out = []
        for i, f in enumerate(st.frames):
            top = i == len(st.frames) - 1
            fn = f.fn
            if top:
                live = fn.live_in[f.bb]
                out.append((fn.id, f.bb))
            else:
                nx = st.frames[i + 1]
                live = fn.live_in[nx.target] if nx.target is not None else ()
                out.append((fn.id, f.bb))
                d = nx.dest
                if d is not None and d[1]: live = set(live) | {d[0]}
            flags = fn.flags
            for l in sorted(live):
                if l in flags: continue
                v = f.locals.get(l)
                out.append((l, ren.val(v)))
        return out

    # --- statements ---------------------------------------------------------------------------------------------
    def stmt(self, st, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, f, s[2], s[1])
            pl = s[1]
            if not pl[1]: f.locals[pl[0]] = v
            else: self.write(st, f, pl, v)
        elif k == "dead":
            f.locals.pop(s[1], None)
        elif k == "sd":
            raise Unsupported("SetDiscriminant")
        elif k == "intr":
            raise Unsupported("intrinsic statement")

    def resolve(self, st, f, place):
        """place -> (base, path) with a concrete base."""
        base = ('L', len(st.frames) - 1, place[0])
        path = ()
        for pr in place[1]:
            if pr == "*":
                v = self.get(st, base, path)
                while True:
                    if type(v) is tuple:
                        if v[0] == 'R': base, path = v[1], v[2]; break
                        if v[0] == 'B' or v[0] == 'P': base, path = ('H', v[1]), (); break
                        if v[0] == 'str': base, path = ('V', v), (); break
                    r = self.c.deref(st, v)
                    if r is None: raise Unsupported("deref of %r" % (v,))
                    base, path = r
                    break
            elif pr[0] == "f":
                path = path + (pr[1],)
            elif pr[0] == "d":
                path = path + (('d', pr[1]),)
            elif pr[0] == "i":
                iv = f.locals.get(pr[1])
                path = path + (('e', iv),)
            elif pr[0] == "ci":
                path = path + (('ci', pr[1], pr[2]),)
            else:
                raise Unsupported("projection %r" % (pr,))
        return base, path

    def get(self, st, base, path):
        if base[0] == 'V': v = base[1]
        else: v = st.base_get(base)
        for s in path: v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        if type(v) is tuple:
            t = v[0]
            if t == 'A':
                if type(s) is int: return v[3][s]
                if s[0] == 'd':
                    if v[2] != s[1]: raise Unsupported("downcast to inactive variant")
                    return v
            elif t == 'T':
                if type(s) is int: return v[1][s]
                if s[0] == 'e' and type(s[1]) is int: return v[1][s[1]]
                if s[0] == 'ci': return v[1][len(v[1]) - s[1] if s[2] else s[1]]
            elif t == 'C':
                if type(s) is int: return v[2][s]
            elif t in ('B', 'P'):
                if type(s) is int: return ('P', v[1])
        return self.c.proj(st, v, s)

    def read(self, st, f, place):
        if not place[1]:
            return f.locals.get(place[0])
        b, p = self.resolve(st, f, place)
        return self.get(st, b, p)

    def put(self, st, base, path, v):
        if not path:
            st.base_set(base, v); return
        if base[0] == 'V': raise Unsupported("write to constant")
        st.base_set(base, self.upd(st, st.base_get(base), path, v))

    def upd(self, st, old, path, new):
        if not path: return new
        s = path[0]
        if type(old) is tuple:
            if old[0] == 'A':
                if type(s) is int:
                    fs = list(old[3]); fs[s] = self.upd(st, fs[s], path[1:], new)
                    return ('A', old[1], old[2], tuple(fs))
                if s[0] == 'd': return self.upd(st, old, path[1:], new)
            elif old[0] == 'T':
                i = s if type(s) is int else (s[1] if s[0] == 'e' else None)
                if type(i) is int:
                    fs = list(old[1]); fs[i] = self.upd(st, fs[i], path[1:], new)
                    return ('T', tuple(fs))
            elif old[0] == 'C':
                fs = list(old[2]); fs[s] = self.upd(st, fs[s], path[1:], new)
                return ('C', old[1], tuple(fs))
        if old is None:
            raise Unsupported("partial initialisation")
        return self.c.set_proj(st, old, path, new, self)

    def write(self, st, f, place, v):
        b, p = self.resolve(st, f, place)
        self.put(st, b, p, v)

    def operand(self, st, f, o):
        k = o[0]
        if k == "c" or k == "m":
            return self.read(st, f, o[1])
        if k == "k":
            return self.const(o[1], o[2])
        if k == "rc": return 0
        raise Unsupported("operand %r" % (o,))

    def const(self, ty, c):
        if c is None:
            t = self.types[ty]
            if t["k"] == "fndef": return ('F', ty)
            raise Unsupported("opaque constant of type %r" % (t.get("name") or t["k"],))
        if "s" in c: return c["s"]
        if "str" in c: return ('str', c["str"])
        if "zst" in c:
            t = self.types[c["zst"]]
            if t["k"] == "fndef": return ('F', c["zst"])
            if t["k"] == "tuple": return UNIT
            if t["k"] == "adt": return ('A', c["zst"], 0, tuple(self.zst(x[1]) for x in t["v"][0]["f"]) if t["v"] else ())
            if t["k"] == "array": return ('T', ())
            return ('F', c["zst"])
        if "agg" in c:
            t = self.types[c["ty"]]
            fs = tuple(self.const(None, x) for x in c["agg"])
            if t["k"] == "tuple": return ('T', fs)
            if t["k"] == "array": return ('T', fs)
            return ("A", c["ty"], c.get("v", 0) or 0, fs)
        if "arr" in c: return ('T', tuple(self.const(None, x) for x in c["arr"]))
        if "ref" in c: return ('R', ('V', self.const(None, c["ref"])), ())
        if "refarr" in c: return ('R', ('V', ('T', tuple(self.const(None, x) for x in c["refarr"]))), ())
        if "fnptr" in c: return ('FP', c["fnptr"])
        if "static" in c:
            # an immutable item holds its initial value for good
            if "init" in c and ty is not None and self.types[ty]["k"] == "ref" and not interior(self.p, ty, set()): return ('R', ('V', self.const(None, c["init"])), ())
            return self.c.static(c)
        raise Unsupported("constant %s" % list(c)[:2])

    def zst(self, ty):
        t = self.types[ty]
        if t["k"] == "tuple": return UNIT
        if t["k"] == "adt" and t["v"]: return ('A', ty, 0, tuple(self.zst(x[1]) for x in t["v"][0]["f"]))
        return ('F', ty)

    def place_type(self, f, place):
        ty = f.fn.locals[place[0]]
        if not place[1]: return ty
        for pr in reversed(place[1]):
            if pr == "*":
                break
            if pr[0] == "f": return pr[2]
            break
        # walk
        variant = 0
        for pr in place[1]:
            t = self.types[ty]
            if pr == "*": ty = t.get("t")
            elif pr[0] == "f": ty = pr[2]
            elif pr[0] == "d": pass
            else: ty = t.get("t")
            if ty is None: return None
        return ty

    def operand_type(self, f, o):
        if o[0] in ("c", "m"): return self.place_type(f, o[1])
        if o[0] == "k": return o[1]
        return None

    def rvalue(self, st, f, r, dst):
        k = r[0]
        if k == "use": return self.operand(st, f, r[1])
        if k == "ref" or k == "addr":
            b, p = self.resolve(st, f, r[1])
            if b[0] == 'V' and not p: return b[1] if type(b[1]) is tuple and b[1][0] == 'str' else ('R', b, p)
            if self.c.ref_hook is not None:
                x = self.c.ref_hook(st, b, p)
                if x is not None: return x
            return ('R', b, p)
        if k == "agg":
            fs = tuple(self.operand(st, f, o) for o in r[2])
            a = r[1]
            if a[0] == "adt": return self.c.make_adt(st, a[1], a[2], fs)
            if a[0] == "closure": return ('C', a[1], fs)
            if a[0] == "rawptr": return fs[0]
            return ('T', fs)
        if k == "discr":
            v = self.discr(st, self.read(st, f, r[1]))
            if type(v) is int and v >= 128:
                it = self.int_ty(self.place_type(f, dst))
                if it is not None: v = self.wrap(v, it)
            return v
        if k == "bin":
            a = self.operand(st, f, r[2]); b = self.operand(st, f, r[3])
            ty = self.operand_type(f, r[2])
            if r[1] == "Cmp": return self.threeway(st, a, b, ty, self.place_type(f, dst))
            return self.binop(st, r[1], a, b, ty)
        if k == "cbin":
            a = self.operand(st, f, r[2]); b = self.operand(st, f, r[3])
            return self.cbinop(st, r[1], a, b, self.operand_type(f, r[2]))
        if k == "un":
            a = self.operand(st, f, r[2])
            return self.unop(st, r[1], a, self.operand_type(f, r[2]))
        if k == "cast":
            a = self.operand(st, f, r[2])
            return self.cast(st, r[1], a, r[3])
        if k == "len":
            v = self.read(st, f, r[1])
            if type(v) is tuple and v[0] == 'T': return len(v[1])
            return self.c.length(st, v)
        if k == "rep":
            a = self.operand(st, f, r[1])
            n = r[2]
            if type(n) is int and n <= 64: return ('T', (a,) * n)
        raise Unsupported("rvalue %s" % k)

    def discr(self, st, v):
        if type(v) is tuple and v[0] == 'A':
            d = self.types[v[1]]["v"][v[2]]["discr"]
            return v[2] if d is None else d
        return self.c.discr(st, v)

    def int_ty(self, ty):
        t = self.types[ty] if ty is not None else None
        if t is None: return None
        if t["k"] == "int": return t["signed"], t["bits"]
        if t["k"] == "char": return False, 32
        if t["k"] == "bool": return False, 1
        return None

    @staticmethod
    def wrap(n, it):
        s, b = it
        n &= (1 << b) - 1
        if s and n >> (b - 1): n -= 1 << b
        return n

    def threeway(self, st, a, b, ty, rty):
        self.c.threeway_ok(a, b)
        k = 0 if self.truth(self.binop(st, "Lt", a, b, ty)) else 1 if self.truth(self.binop(st, "Eq", a, b, ty)) else 2
        if rty is None: raise Unsupported("three-way comparison")
        return ('A', rty, k, ())

    @staticmethod
    def truth(v):
        if type(v) is not int: raise Unsupported("three-way comparison of an unknown value")
        return v

    def binop(self, st, op, a, b, ty):
        if self.c.int_hook is not None:
            r = self.c.int_hook(st, op, a, b, ty)
            if r is not None: return r
        if type(a) is int and type(b) is int:
            if op == "Eq": return int(a == b)
            if op == "Ne": return int(a != b)
            if op == "Lt": return int(a < b)
            if op == "Le": return int(a <= b)
            if op == "Gt": return int(a > b)
            if op == "Ge": return int(a >= b)
            it = self.int_ty(ty)
            if it is None: raise Unsupported("binop type")
            if op.startswith("Add"): n = a + b
            elif op.startswith("Sub"): n = a - b
            elif op.startswith("Mul"): n = a * b
            elif op == "Div":
                if b == 0: raise Unsupported("division by zero")
                n = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == "Rem":
                if b == 0: raise Unsupported("division by zero")
                n = abs(a) % abs(b) * (-1 if a < 0 else 1)
            elif op == "BitAnd": n = a & b
            elif op == "BitOr": n = a | b
            elif op == "BitXor": n = a ^ b
            elif op.startswith("Shl"): n = a << (b % it[1])
            elif op.startswith("Shr"): n = (a if it[0] else a & ((1 << it[1]) - 1)) >> (b % it[1])
            else: raise Unsupported("binop " + op)
            return self.wrap(n, it)
        return self.c.binop(st, op, a, b, ty)

    def cbinop(self, st, op, a, b, ty):
        if self.c.int_hook is not None:
            r = self.c.int_hook(st, op, a, b, ty)
            if r is not None: return ('T', (r, 0))
        if type(a) is int and type(b) is int:
            it = self.int_ty(ty)
            n = {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(op[:3])
            if n is None: raise Unsupported("checked " + op)
            w = self.wrap(n, it)
            if w == n and self.c.overflow is not None and self.c.overflow(st, op, n, it): return ('T', (self.c.OVER, 1))
            return ('T', (w, int(w != n)))
        return self.c.cbinop(st, op, a, b, ty)

    def unop(self, st, op, a, ty):
        if type(a) is int:
            it = self.int_ty(ty)
            if op == "Not": return (1 - a) if it == (False, 1) else self.wrap(~a, it)
            if op == "Neg": return self.wrap(-a, it)
        if op == "PtrMetadata":
            v = a
            if type(v) is tuple and v[0] == 'R':
                x = self.get(st, v[1], v[2])
                if type(x) is tuple and x[0] == 'T': return len(x[1])
                return self.c.length(st, x)
            if type(v) is tuple and v[0] == 'str': return len(v[1].encode())
        return self.c.unop(st, op, a, ty)

    def cast(self, st, kind, a, ty):
        if kind == "IntToInt":
            if type(a) is int:
                it = self.int_ty(ty)
                if it is None: raise Unsupported("cast")
                r = self.c.narrow(st, a, it) if self.c.narrow is not None and it[1] > 1 else None
                return self.wrap(a, it) if r is None else r
            return self.c.cast(st, kind, a, ty)
        if kind in ("BoxDerefTransmute", "Transmute", "PtrToPtr", "Subtype") or kind.startswith("PointerCoercion"):
            if kind.startswith("PointerCoercion") and type(a) is tuple and a[0] in ('F', 'C'): return a
            if type(a) is tuple and a[0] == 'P': return ('R', ('H', a[1]), ())
            if type(a) is tuple and a[0] in ('R', 'B', 'str', 'F', 'FP', 'C'): return a
            if type(a) is int and kind == "Transmute":
                it = self.int_ty(ty)
                if it: return self.wrap(a, it)
            return self.c.cast(st, kind, a, ty)
        return self.c.cast(st, kind, a, ty)

    # --- terminators --------------------------------------------------------------------------------------------
    def goto(self, st, f, b):
        f.bb = b; f.si = 0; st.entered = True

    def term(self, st, f, t):
        k = t[0]
        if k == "goto":
            self.goto(st, f, t[1]); return False
        if k == "switch":
            v = self.operand(st, f, t[1])
            if type(v) is int:
                # switch values are raw bits
                raw = v
                if v < 0:
                    it = self.int_ty(self.operand_type(f, t[1]))
                    if it is None: raise Unsupported("switch on a negative value")
                    raw = v & ((1 << it[1]) - 1)
                for x in t[2]:
                    if x[0] == raw: self.goto(st, f, x[1]); return False
                self.goto(st, f, t[3]); return False
            i = self.c.switch(st, v, [x[0] for x in t[2]], f.fn.blocks[t[3]]["t"][0] == "unreach" if t[3] is not None else True)
            self.goto(st, f, t[2][i][1] if i >= 0 else t[3]); return False
        if k == "ret":
            return self.ret(st, f)
        if k == "drop":
            self.goto(st, f, t[2]); return False
        if k == "assert":
            v = self.operand(st, f, t[1])
            exp = 1 if t[2] else 0
            if type(v) is int:
                if v != exp:
                    self.c.on_panic(st, "assertion: %s" % (t[3],), self.span(st)); return True
                self.goto(st, f, t[4]); return False
            i = self.c.switch(st, v, [1 - exp, exp], True)
            if i == 0:
                self.c.on_panic(st, "assertion: %s" % (t[3],), self.span(st)); return True
            self.goto(st, f, t[4]); return False
        if k == "call":
            return self.call(st, f, t)
        if k == "unreach":
            self.c.on_unreachable(st); return True
        if k == "resume": return True
        raise Unsupported("terminator %s" % k)

    def ret(self, st, f):
        v = f.locals.get(0, UNIT)
        self.c.before_return(st, f, v)
        if len(st.frames) == 1:
            self.c.on_return(st, v)
            return True
        st.frames.pop()
        if f.target is None: return True
        g = st.frames[-1]
        d = f.dest
        if d[1]: self.write(st, g, d, v)
        else: g.locals[d[0]] = v
        self.goto(st, g, f.target)
        return False

    def call(self, st, f, t):
        callee, fop, argops, dest, target = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, f, a) for a in argops]
        fn = None; path = None
        if type(callee) is int: fn = self.p.fns[callee]; path = fn.path
        elif type(callee) is str: path = callee
        else:
            v = self.operand(st, f, fop)
            if type(v) is tuple and v[0] == 'FP': fn = self.p.fns[v[1]]; path = fn.path
            elif type(v) is tuple and v[0] == 'F':
                inst = self.types[v[1]].get("inst")
                path = self.types[v[1]].get("path")
                if type(inst) is int: fn = self.p.fns[inst]; path = fn.path
            elif type(v) is tuple and v[0] == 'C':
                # a closure without captures used as a function
                fn = self.closure_body(v); path = fn.path
                t = self.types[fn.locals[1]]
                args = [('R', ('V', v), ()) if t["k"] == "ref" else v] + args
            else: raise Unsupported("indirect call")
        return self.invoke(st, fn, path, args, dest, target)

    def invoke(self, st, fn, path, args, dest, target):
        f = st.frames[-1]
        r = self.c.call(st, fn, path, args)
        if r is NOTHANDLED:
            r = self.model(st, fn, path, args)
        if r is NOTHANDLED:
            if (fn is None or not fn.has_body) and path.rsplit("::", 1)[-1] in ("Some", "Ok", "Err"):
                # a constructor used as a function
                ty = self.place_type(f, dest)
                i = [v["name"] for v in self.types[ty]["v"]].index(path.rsplit("::", 1)[-1])
                r = ('A', ty, i, tuple(args))
        if r is NOTHANDLED:
            if fn is None or not fn.has_body:
                raise Unsupported("call of %s" % path)
            if not fn.local and not self.c.interpret_std(fn):
                raise Unsupported("call of %s" % path)
            # closure shims: tupled arguments
            args = self.fix_args(st, fn, args)
            self.push(st, fn, args, dest, target)
            return False
        if type(r) is tuple and r and r[0] == 'INVOKE':
            return self.invoke(st, r[1], r[1].path, list(r[2]), dest, target)
        if type(r) is tuple and r == ('PUSHED',): return False
        if target is None: return True
        if dest[1]: self.write(st, f, dest, r)
        else: f.locals[dest[0]] = r
        self.goto(st, f, target)
        return False

    def closure_body(self, v):
        i = self.types[v[1]].get("body")
        if type(i) is not int or not self.p.fns[i].has_body: raise Unsupported("indirect call")
        return self.p.fns[i]

    def fix_args(self, st, fn, args):
        if len(args) == fn.argc:
            # a closure taking one argument is called with a one-element tuple of arguments
            a = args[-1] if args else None
            if fn.argc == 2 and type(a) is tuple and a[0] == 'T' and len(a[1]) == 1 and "{closure" in fn.path:
                t = self.types[fn.locals[2]]
                if t["k"] != "tuple" or len(t["f"]) != 1: return [args[0], a[1][0]]
            return args
        if len(args) == 2 and type(args[1]) is tuple and args[1][0] == 'T':
            flat = [args[0]] + list(args[1][1])
            if len(flat) == fn.argc: return flat
            if len(args[1][1]) == fn.argc: return list(args[1][1])
        raise Unsupported("argument count of " + fn.name)

    # --- models of library functions ----------------------------------------------------------------------------
    def load(self, st, r):
        """Value a reference points to."""
        if type(r) is tuple:
            if r[0] == 'R': return self.get(st, r[1], r[2])
            if r[0] in ('B', 'P'): return st.heap[r[1]]
            if r[0] == 'str': return r
        x = self.c.deref(st, r)
        if x is None: raise Unsupported("load of %r" % (r,))
        return self.get(st, x[0], x[1])

    def store(self, st, r, v):
        if type(r) is tuple:
            if r[0] == 'R': return self.put(st, r[1], r[2], v)
            if r[0] in ('B', 'P'): st.heap[r[1]] = v; return
        raise Unsupported("store through %r" % (r,))

    def some(self, ty, v): return ('A', ty, 1, (v,))

    def none(self, ty): return ('A', ty, 0, ())

    def ret_type(self, st):
        """Type of the place the current call writes to."""
        f = st.frames[-1]
        t = f.fn.blocks[f.bb]["t"]
        return self.place_type(f, t[4])

    def clone(self, st, v):
        if type(v) is tuple:
            k = v[0]
            if k == 'A': return ('A', v[1], v[2], tuple(self.clone(st, x) for x in v[3]))
            if k == 'T': return ('T', tuple(self.clone(st, x) for x in v[1]))
            if k == 'C': return ('C', v[1], tuple(self.clone(st, x) for x in v[2]))
            if k == 'B': return ('B', st.alloc(self.clone(st, st.heap[v[1]])))
            if k == 'R' or k == 'str': return v
            return self.c.clone(st, v)
        return v

    def model(self, st, fn, path, args):
        m = MODELS.get(path)
        if m is not None: return m(self, st, fn, args)
        if path.endswith("::clone") and "Clone" in path and len(args) == 1 and not (fn is not None and fn.local):
            return self.clone(st, self.load(st, args[0]))
        for suffix, m in SUFFIX:
            if path.endswith(suffix): return m(self, st, fn, args)
        return NOTHANDLED


class _NH:
    def __repr__(self): return "NOTHANDLED"


NOTHANDLED = _NH()


class Renamer:
    """Canonical names for heap cells and client symbols, in order of first visit."""

    def __init__(self, e, st):
        self.e = e; self.st = st; self.h = {}; self.hv = []; self.sym = {}; self.loc = set(); self.extra = []; self.ci = e.c.canon_int

    def val(self, v):
        if type(v) is int and self.ci is not None: return self.ci(self.st, v)
        if type(v) is not tuple or not v: return v
        k = v[0]
        if k == 'A': return ('A', v[1], v[2], tuple(self.val(x) for x in v[3]))
        if k == 'T': return ('T', tuple(self.val(x) for x in v[1]))
        if k == 'C': return ('C', v[1], tuple(self.val(x) for x in v[2]))
        if k == 'B' or k == 'P': return (k, self.hid(v[1])) + v[2:]
        if k == 'R':
            b = v[1]
            if b[0] == 'H': b = ('H', self.hid(b[1]))
            elif b[0] == 'L':
                if (b[1], b[2]) not in self.loc:
                    self.loc.add((b[1], b[2]))
                    self.extra.append((b[1], b[2]))
            elif b[0] == 'V': b = ('V', self.val(b[1]))
            return ('R', b, tuple(self.step(s) for s in v[2]))
        if k == 'str' or k == 'F' or k == 'FP': return v
        return self.e.c.canon(self.st, v, self)

    def step(self, s):
        if type(s) is tuple and s[0] == 'e' and type(s[1]) is tuple: return ('e', self.val(s[1]))
        return s

    def hid(self, h):
        n = self.h.get(h)
        if n is None:
            n = self.h[h] = len(self.h)
            self.hv.append(h)
        return n

    def symbol(self, s):
        n = self.sym.get(s)
        if n is None: n = self.sym[s] = len(self.sym)
        return n

    def reach(self, out):
        i = j = 0
        while i < len(self.hv) or j < len(self.extra):
            if i < len(self.hv):
                out.append(self.val(self.st.heap[self.hv[i]])); i += 1
            else:
                d, l = self.extra[j]; j += 1
                out.append((d, l, self.val(self.st.frames[d].locals.get(l))))

    def finish(self, out):
        self.reach(out)
        tail = self.e.c.canon_tail(self.st, self)
        if self.e.c.remap is not None: return self.e.c.remap(self.st, (tuple(out), tail))
        return (tuple(out), tail)


class Client:
    pick = None
    prune = None
    ref_hook = None
    int_hook = None
    narrow = overflow = None     # number put into a type of few bits
    canon_int = None
    remap = None
    e = None

    def call(self, st, fn, path, args): return NOTHANDLED

    def proj(self, st, v, s): raise Unsupported("projection %r of %r" % (s, v))
    def saturated(self, st, op, a, b, v): return None

    def set_proj(self, st, v, path, new, e): raise Unsupported("write into %r" % (v,))

    def discr(self, st, v): raise Unsupported("discriminant of %r" % (v,))

    def switch(self, st, v, values, exhaustive): raise Unsupported("switch on %r" % (v,))

    def binop(self, st, op, a, b, ty): raise Unsupported("%s of %r, %r" % (op, a, b))

    def cbinop(self, st, op, a, b, ty): raise Unsupported("%s of %r, %r" % (op, a, b))

    def unop(self, st, op, a, ty): raise Unsupported("%s of %r" % (op, a))

    def cast(self, st, kind, a, ty): raise Unsupported("cast %s of %r" % (kind, a))

    def deref(self, st, v): return None

    def length(self, st, v): raise Unsupported("length of %r" % (v,))

    def clone(self, st, v): return v

    def static(self, c): raise Unsupported("static item")

    def threeway_ok(self, a, b): pass

    def make_adt(self, st, ty, variant, fs): return ('A', ty, variant, fs)

    def interpret_std(self, fn): return True

    def before_return(self, st, f, v): pass

    def on_return(self, st, v): pass

    def on_panic(self, st, what, span): pass

    def on_unreachable(self, st): pass

    def on_unsupported(self, st, msg): pass

    def settle(self, st): pass

    def enough(self): return False

    def on_new(self, st): return True

    def on_merge(self, st, old): pass

    def canon(self, st, v, ren): return v

    def world_canon(self, st, ren): return ()

    def canon_tail(self, st, ren): return ()


MODELS = {}
SUFFIX = []


def model(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco


def suffix(*names):
    def deco(f):
        for n in names: SUFFIX.append((n, f))
        return f
    return deco


@suffix("::clone::Clone::clone")
def m_clone(e, st, fn, args): return e.clone(st, e.load(st, args[0]))


@suffix("::boxed::Box::<T>::new")
def m_box_new(e, st, fn, args): return ('B', st.alloc(args[0]))


@suffix("::hint::must_use", "::convert::identity", "::hint::black_box")
def m_id(e, st, fn, args): return args[0]


@suffix("::mem::replace")
def m_replace(e, st, fn, args):
    v = e.load(st, args[0]); e.store(st, args[0], args[1]); return v


@suffix("::mem::swap")
def m_swap(e, st, fn, args):
    a, b = e.load(st, args[0]), e.load(st, args[1])
    e.store(st, args[0], b); e.store(st, args[1], a); return UNIT


@suffix("::mem::drop", "::mem::forget")
def m_drop(e, st, fn, args): return UNIT


@suffix("::option::Option::<T>::take")
def m_take(e, st, fn, args):
    v = e.load(st, args[0])
    if type(v) is not tuple or v[0] != 'A': raise Unsupported("take of %r" % (v,))
    e.store(st, args[0], ('A', v[1], 0, ())); return v


@suffix("::ptr::read", "::ptr::mut_ptr::<impl *mut T>::read", "::ptr::const_ptr::<impl *const T>::read", "::intrinsics::read_via_copy")
def m_read(e, st, fn, args): return e.load(st, args[0])


@suffix("::ptr::write", "::ptr::mut_ptr::<impl *mut T>::write", "::intrinsics::write_via_move")
def m_write(e, st, fn, args): e.store(st, args[0], args[1]); return UNIT


def m_arith(op):
    def f(e, st, fn, args): return e.binop(st, op, args[0], args[1], e.ret_type(st))
    return f


def m_saturate(op):
    def f(e, st, fn, args):
        ty = e.ret_type(st)
        t = e.cbinop(st, op, args[0], args[1], ty)
        v, over = t[1]
        if type(over) is not int:
            r = e.c.saturated(st, op, args[0], args[1], v)
            if r is None: raise Unsupported("saturating arithmetic of an unknown value")
            return r
        if not over: return v
        s, b = e.int_ty(ty)
        low = op == "Sub" if type(args[1]) is not int or args[1] >= 0 else op == "Add"
        if op == "Mul": raise Unsupported("saturating multiplication")
        return (-(1 << b - 1) if s else 0) if low else (1 << b - s) - 1
    return f


def m_pick(op):
    def f(e, st, fn, args):
        r = e.binop(st, op, args[0], args[1], e.ret_type(st))
        return args[0] if e.truth(r) else args[1]
    return f


for _op in ("Add", "Sub", "Mul"):
    suffix("::intrinsics::wrapping_" + _op.lower(), "::intrinsics::unchecked_" + _op.lower())(m_arith(_op))
    suffix("::intrinsics::saturating_" + _op.lower())(m_saturate(_op))
for _op in ("Div", "Rem"): suffix("::intrinsics::unchecked_" + _op.lower(), "::intrinsics::exact_" + _op.lower())(m_arith(_op))
suffix("::intrinsics::integer_min")(m_pick("Lt"))
suffix("::intrinsics::integer_max")(m_pick("Gt"))


# Box<T>: AsRef / Deref forward to the content
@suffix("::boxed::Box<T, A> as std::ops::Deref>::deref", "::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut",
        "::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref", "::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut",
        "::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow")
def m_box_deref(e, st, fn, args):
    b = e.load(st, args[0])
    return ('R', ('H', b[1]), ())


@suffix(" as std::ops::Drop>::drop")
def m_drop(e, st, fn, args):
    if fn is not None and fn.local: return NOTHANDLED
    return UNIT


def _closure_call(e, st, fn, args):
    """Fn*/call on closures and function items."""
    f = args[0]
    g = f
    while type(g) is tuple and g[0] == 'R':
        g = e.load(st, g)
    tup = args[1]
    if type(g) is tuple and g[0] == 'F':
        inst = e.types[g[1]].get("inst")
        if type(inst) is int: return ('INVOKE', e.p.fns[inst], tup[1])
    if type(g) is tuple and g[0] == 'FP': return ('INVOKE', e.p.fns[g[1]], tup[1])
    return NOTHANDLED


@suffix("::ops::FnOnce::call_once", "::ops::FnMut::call_mut", "::ops::Fn::call")
def m_call(e, st, fn, args): return _closure_call(e, st, fn, args)
