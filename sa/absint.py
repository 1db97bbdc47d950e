"""Path-partitioned abstract interpretation over the exported CFGs.

Domain: integer intervals with optional symbolic form (sym + offset), difference constraints between
symbols, three-valued booleans that remember their condition, pointers (base, offset), and opaque
objects (by identity) with a tracked size.  States are kept apart (no join); loops are iterated until
no new state appears, with widening of integers at loop heads; calls of own functions chosen by the client are
inlined, all others forget what they may write.  Nothing is executed: every value is an abstraction."""
import os
import time

from .facts import Node, show

INF = 1 << 70
MAXSTATES = 6000
BUDGET = 480              # seconds of processor time for everything in a check


class Limit(Exception):
    pass


class I:
    """abstract integer"""
    __slots__ = ("lo", "hi", "sym", "off", "fl", "bits")

    def __init__(self, lo, hi, sym=None, off=0, fl=frozenset(), bits=None):
        self.lo = lo; self.hi = hi; self.sym = sym; self.off = off; self.fl = fl
        # optional: the low bits of the value, least significant first; an entry is 0, 1 or (symbol, bit number)
        self.bits = bits

    def key(self): return ("i", self.lo, self.hi, self.sym, self.off, self.fl, self.bits)
    def __eq__(self, o): return isinstance(o, I) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def const(self): return self.lo if self.lo == self.hi else None
    def __repr__(self):
        s = f"[{self.lo},{self.hi}]"
        if self.sym is not None: s = f"{self.sym}+{self.off}{s}"
        if self.fl: s += "!" + ",".join(self.fl)
        if self.bits: s += "b" + "".join(str(b) if isinstance(b, int) else "x" for b in reversed(self.bits))
        return s


def K(v): return I(v, v)


TOPB = ("top",)
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")


class State:
    __slots__ = ("env", "rng", "dif", "ne", "bools", "memo", "ts", "alias", "fresh")

    def __init__(self):
        self.env = {}; self.rng = {}; self.dif = {}; self.ne = {}; self.bools = {}; self.memo = {}
        self.ts = None; self.alias = {}; self.fresh = 0

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.rng = dict(self.rng); s.dif = dict(self.dif); s.ne = dict(self.ne)
        s.bools = dict(self.bools); s.memo = dict(self.memo); s.ts = self.ts; s.alias = dict(self.alias)
        s.fresh = self.fresh
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.rng.items()), frozenset(self.dif.items()),
                frozenset(self.ne.items()), frozenset(self.bools.items()), self.ts, frozenset(self.alias.items()))

    # -- integer symbols
    def bounds(self, v):
        lo, hi = v.lo, v.hi
        if v.sym is not None:
            a, b = self.rng.get(v.sym, (-INF, INF))
            lo = max(lo, a + v.off); hi = min(hi, b + v.off)
        if v.bits is not None and lo >= 0 and hi < 1 << len(v.bits):
            a, b = self.bitbounds(v.bits)
            lo = max(lo, a); hi = min(hi, b)
        return lo, hi

    # -- values known bit by bit
    def fixbit(self, e):
        """an entry whose value follows from the range of its symbol is that value"""
        if isinstance(e, int): return e
        l, h = self.rng.get(e[0], (-INF, INF))
        if l >= 0 and h < INF and l >> e[1] == h >> e[1]: return (l >> e[1]) & 1
        return e

    def bitbounds(self, bits):
        lo = hi = 0
        i = 0
        while i < len(bits):
            e = bits[i]
            if isinstance(e, int):
                lo += e << i; hi += e << i; i += 1; continue
            j = i + 1
            while j < len(bits) and bits[j] == (e[0], e[1] + j - i): j += 1
            l, h = self.rng.get(e[0], (-INF, INF))
            m = (1 << (j - i)) - 1
            if l >= 0 and l >> (e[1] + j - i) == h >> (e[1] + j - i): a, b = (l >> e[1]) & m, (h >> e[1]) & m
            else: a, b = 0, m
            lo += a << i; hi += b << i
            i = j
        return lo, hi

    def bitsof(self, v, w):
        """the w low bits of v (two's complement), None if not all are known"""
        lo, hi = self.bounds(v)
        if lo == hi: return tuple((lo >> i) & 1 for i in range(w))
        if v.bits is not None:
            b = v.bits
            if len(b) < w:
                if lo >= 0 and hi < 1 << len(b): b = b + (0,) * (w - len(b))
                elif lo >= -(1 << len(b) - 1) and hi < 1 << len(b) - 1: b = b + (b[-1],) * (w - len(b))
                else: return None
            return tuple(self.fixbit(e) for e in b[:w])
        if v.sym is None: return None
        l, h = self.rng.get(v.sym, (-INF, INF))
        if l < 0 or h >= 1 << 64: return None
        if v.off == 0: b = tuple((v.sym, i) if i < h.bit_length() else 0 for i in range(w))
        else:
            m = (v.off & -v.off).bit_length() - 1
            b = tuple((v.sym, i) for i in range(min(m, w)))
            if len(b) < w:
                # the part above: known when it does not depend on the value
                if lo >> m != hi >> m: return None
                b += tuple((lo >> i) & 1 for i in range(len(b), w))
        return tuple(self.fixbit(e) for e in b)

    def frombits(self, bits, w, sg, fl=frozenset()):
        """value of a w bit integer with these bits"""
        bits = tuple(self.fixbit(e) for e in bits[:w])
        bits = bits + (0,) * (w - len(bits))
        base = 0
        if sg:
            if bits[-1] == 1: base = -(1 << w)
            elif bits[-1] != 0: return I(-(1 << w - 1), (1 << w - 1) - 1, None, 0, fl, bits)
        lo, hi = self.bitbounds(bits)
        if lo == hi: return I(lo + base, lo + base, None, 0, fl)
        sym, off = None, 0
        syms = {e[0] for e in bits if not isinstance(e, int)}
        if len(syms) == 1:
            y = next(iter(syms))
            l, h = self.rng[y]
            k = h.bit_length()
            if all(bits[i] == (y, i) or not isinstance(bits[i], tuple) for i in range(len(bits))) and l >= 0:
                c = 0
                for i in range(k):
                    f = self.fixbit((y, i))
                    if isinstance(f, tuple):
                        if i >= len(bits) or bits[i] != f: break
                    else: c += f << i
                else:
                    sym = y
                    off = sum(e << i for i, e in enumerate(bits) if isinstance(e, int)) - c + base
        while len(bits) > 1 and bits[-1] == 0 and not sg: bits = bits[:-1]
        return I(lo + base, hi + base, sym, off, fl, bits)

    def diff_max(self, a, b):
        """upper bound of sym a - sym b, None if unknown"""
        if a == b: return 0
        best = {a: 0}
        todo = [a]
        # a - x <= best[x]; follow constraints (x, y): x - y <= c
        for _ in range(40):
            if not todo: break
            x = todo.pop(0)
            for (p, q), c in self.dif.items():
                if p == x and best[x] + c < best.get(q, INF):
                    best[q] = best[x] + c; todo.append(q)
        r = best.get(b)
        ra, rb = self.rng.get(a), self.rng.get(b)
        if ra and rb and ra[1] < INF and rb[0] > -INF:
            w = ra[1] - rb[0]
            r = w if r is None else min(r, w)
        return r

    def cmp(self, op, x, y):
        """True/False/None"""
        if op in (">", ">="): return self.cmp({">": "<", ">=": "<="}[op], y, x)
        if op == "!=":
            r = self.cmp("==", x, y)
            return None if r is None else not r
        xl, xh = self.bounds(x); yl, yh = self.bounds(y)
        if op == "==":
            if xl == xh == yl == yh: return True
            if xh < yl or yh < xl: return False
            if x.sym is not None and x.sym == y.sym: return x.off == y.off
            if x.sym is not None and yl == yh and (yl - x.off) in self.ne.get(x.sym, ()): return False
            if y.sym is not None and xl == xh and (xl - y.off) in self.ne.get(y.sym, ()): return False
            if x.sym is not None and y.sym is not None:
                d, e = self.diff_max(x.sym, y.sym), self.diff_max(y.sym, x.sym)
                if d is not None and d + x.off - y.off < 0: return False
                if e is not None and e + y.off - x.off < 0: return False
                if d is not None and e is not None and d + x.off - y.off == 0 and e + y.off - x.off == 0: return True
            return None
        strict = op == "<"
        if xh < yl or (not strict and xh <= yl): return True
        if xl > yh or (strict and xl >= yh): return False
        if x.sym is not None and y.sym is not None:
            d = self.diff_max(x.sym, y.sym)
            if d is not None:
                d += x.off - y.off
                if d < 0 or (not strict and d <= 0): return True
            e = self.diff_max(y.sym, x.sym)
            if e is not None:
                e += y.off - x.off
                if e < 0 or (strict and e <= 0): return False
        return None

    def _setb(self, sym, lo, hi):
        a, b = self.rng.get(sym, (-INF, INF))
        lo = max(a, lo); hi = min(b, hi)
        ne = self.ne.get(sym, ())
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        if lo > hi: return False
        self.rng[sym] = (lo, hi)
        return True

    def _prop(self):
        for _ in range(6):
            ch = False
            for (a, b), c in self.dif.items():
                ra = self.rng.get(a, (-INF, INF)); rb = self.rng.get(b, (-INF, INF))
                if rb[1] + c < ra[1]:
                    if not self._setb(a, -INF, rb[1] + c): return False
                    ch = True
                ra = self.rng.get(a, (-INF, INF))
                if ra[0] - c > rb[0]:
                    if not self._setb(b, ra[0] - c, INF): return False
                    ch = True
            if not ch: break
        return True

    def assume_cmp(self, op, x, y):
        """refine; False when infeasible"""
        r = self.cmp(op, x, y)
        if r is False: return False
        if r is True: return True
        if op in (">", ">="): return self.assume_cmp({">": "<", ">=": "<="}[op], y, x)
        xl, xh = self.bounds(x); yl, yh = self.bounds(y)
        if op == "==":
            if x.sym is not None and not self._setb(x.sym, yl - x.off, yh - x.off): return False
            if y.sym is not None and not self._setb(y.sym, xl - y.off, xh - y.off): return False
            if x.sym is not None and y.sym is not None and x.sym != y.sym:
                self._dif(x.sym, y.sym, y.off - x.off); self._dif(y.sym, x.sym, x.off - y.off)
            return self._prop()
        if op == "!=":
            for p, ql, qh in ((x, yl, yh), (y, xl, xh)):
                if p.sym is not None and ql == qh:
                    c = ql - p.off
                    self.ne[p.sym] = frozenset(self.ne.get(p.sym, frozenset()) | {c})
                    if not self._setb(p.sym, -INF, INF): return False
            return self._prop()
        d = 1 if op == "<" else 0
        if x.sym is not None and not self._setb(x.sym, -INF, yh - d - x.off): return False
        if y.sym is not None and not self._setb(y.sym, xl + d - y.off, INF): return False
        if x.sym is not None and y.sym is not None and x.sym != y.sym:
            # x.sym + xo <= y.sym + yo - d
            self._dif(x.sym, y.sym, y.off - d - x.off)
        return self._prop()

    def _dif(self, a, b, c):
        if self.dif.get((a, b), INF) > c: self.dif[(a, b)] = c

    def forget(self, sym):
        """sym gets a new meaning: drop every use of the old one"""
        for k, v in list(self.env.items()):
            if isinstance(v, I) and uses(v, sym):
                lo, hi = self.bounds(v)
                self.env[k] = I(lo, hi, None, 0, v.fl)
            elif isinstance(v, tuple) and v and v[0] == "p" and isinstance(v[2], I) and v[2].sym == sym:
                lo, hi = self.bounds(v[2])
                self.env[k] = ("p", v[1], I(lo, hi))
            elif isinstance(v, tuple) and v and v[0] == "b" and uses(v[1], sym):
                self.env[k] = ("b", TOPB)
        for k, v in list(self.memo.items()):
            if isinstance(v, I) and uses(v, sym):
                lo, hi = self.bounds(v)
                self.memo[k] = I(lo, hi, None, 0, v.fl)
        self.rng.pop(sym, None); self.ne.pop(sym, None); self.bools.pop(sym, None)
        for k in [k for k in self.dif if sym in k]: del self.dif[k]

    # -- conditions
    def truth(self, c):
        k = c[0]
        if k == "c": return c[1]
        if k == "not":
            t = self.truth(c[1]); return None if t is None else not t
        if k == "cmp": return self.cmp(c[1], c[2], c[3])
        if k == "sym": return self.bools.get(c[1])
        if k == "and":
            a, b = self.truth(c[1]), self.truth(c[2])
            if a is False or b is False: return False
            return True if a and b else None
        if k == "or":
            a, b = self.truth(c[1]), self.truth(c[2])
            if a or b: return True
            return False if a is False and b is False else None
        return None

    def assume(self, c, want):
        k = c[0]
        if k == "c": return c[1] == want
        if k == "not": return self.assume(c[1], not want)
        if k == "cmp":
            op = c[1]
            if not want: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            return self.assume_cmp(op, c[2], c[3])
        if k == "sym":
            v = self.bools.get(c[1])
            if v is None:
                self.bools[c[1]] = want; return True
            return v == want
        if k == "and" and want: return self.assume(c[1], True) and self.assume(c[2], True)
        if k == "or" and not want: return self.assume(c[1], False) and self.assume(c[2], False)
        t = self.truth(c)
        return t is None or t == want


def uses(c, sym):
    if isinstance(c, I): return c.sym == sym or c.bits is not None and any(isinstance(b, tuple) and b[0] == sym for b in c.bits)
    if isinstance(c, tuple): return any(uses(x, sym) or x == sym for x in c)
    return False


def refine(s, c):
    """split s so that comparisons in c of values known bit by bit with constants are decided"""
    if c[0] == "not": return refine(s, c[1])
    if c[0] in ("and", "or"):
        return [y for x in refine(s, c[1]) for y in refine(x, c[2])]
    if c[0] != "cmp" or s.truth(c) is not None: return [s]
    x, y = c[2], c[3]
    if x.bits is None and y.bits is not None: x, y = y, x
    if x.bits is None or x.sym is not None: return [s]
    l, h = s.bounds(y)
    if l != h or l < 0: return [s]
    lo, hi = s.bounds(x)
    if lo < 0 or hi >= 1 << len(x.bits): return [s]
    bits = [s.fixbit(e) for e in x.bits]
    # slices, most significant first
    out, cur = [], s
    i = len(bits) - 1
    while i >= 0:
        e = bits[i]
        cb = (l >> i) & 1
        if isinstance(e, int):
            if e != cb: out.append(cur); return out
            i -= 1; continue
        j = i
        while j > 0 and bits[j - 1] == (e[0], e[1] - (i - j) - 1): j -= 1
        lowbit = e[1] - (i - j)
        n = i - j + 1
        a, b = cur.rng.get(e[0], (-INF, INF))
        # the slice must reach the lowest bit of the symbol and everything above it must be known
        if lowbit != 0 or a < 0 or a >> n != b >> n:
            out.append(cur); return out
        want = (a >> n << n) + ((l >> j) & ((1 << n) - 1))
        v = I(a, b, e[0], 0)
        for op in ("<", ">"):
            t = cur.copy()
            if t.cmp(op, v, K(want)) is not False and t.assume_cmp(op, v, K(want)): out.append(t)
        t = cur.copy()
        if not t.assume_cmp("==", v, K(want)): return out
        cur = t
        bits = [cur.fixbit(z) for z in x.bits]
        i = j - 1
    out.append(cur)
    return out


def exact(s, c):
    """does assuming c (or its negation) describe exactly the executions that go that way"""
    if s.truth(c) is not None: return True
    k = c[0]
    if k == "not": return exact(s, c[1])
    if k == "sym": return True
    if k == "cmp":
        def ok(v, w):
            l, h = s.bounds(v)
            return l == h or v.sym is not None
        return ok(c[2], c[3]) and ok(c[3], c[2])
    return False


def NOT(c):
    if c[0] == "c": return ("c", not c[1])
    if c[0] == "not": return c[1]
    return ("not", c)


class Outcome:
    __slots__ = ("state", "val", "thrown", "node")

    def __init__(self, s, v=None, thrown=None, node=None):
        self.state = s; self.val = v; self.thrown = thrown; self.node = node


class Client:
    """what a rule adds to the interpreter"""
    split = False        # fork states so that integral conversions that wrap stay exact
    bits = False         # track values bit by bit
    def head(self, it, s, fr, bid): pass                      # a state arrives at a loop head
    def returned(self, it, outs, fr): return outs             # the outcomes of an inlined call
    def unknown(self, it, s, n): pass                         # something is read through an untracked pointer
    def fuzzy(self, it, s, fr, b): pass                       # a branch was taken on a condition that is not tracked exactly
    unwinds = False      # run destructors when an exception leaves a function
    ranges = False      # conditions of range-based loops are evaluated
    def inline(self, f, node): return False
    def call(self, it, s, fr, n, recv, args): return None   # [(state, value)] to override
    def access(self, it, s, fr, n, base, idx): pass           # subscript base[idx]
    def step(self, it, s, fr, n): pass                        # before any element
    def deref(self, it, s, fr, n, ptr): return None           # value of *ptr
    def ptrarith(self, it, s, fr, n, old, new): pass
    def truncated(self, it, s, fr, n, val): pass
    def wrapped(self, it, s, fr, n, val): pass
    def lost(self, it, s, loc): pass
    merge = False        # states are merged at every block (values of parts of an expression in progress included)
    slim = None          # slim(s): forget everything irrelevant at the start of a block; states are then merged
    def outkey(self, v): return repr(v)     # what tells results of a call apart when slim is used
    def entercatch(self, it, s, fr, b): pass


class Frame:
    __slots__ = ("fn", "id", "depth", "this", "caps", "stack", "up")

    def __init__(self, fn, id, depth, this, caps=None, stack=(), up=None):
        self.fn = fn; self.id = id; self.depth = depth; self.this = this; self.caps = caps or {}; self.stack = stack
        self.up = up         # (calling frame, call)


CONSTM = {"size", "empty", "length", "find", "contains", "count", "begin", "end", "cbegin", "cend", "c_str", "data",
          "at", "front", "back", "starts_with", "ends_with", "substr", "good", "eof", "fail", "bad", "operator bool",
          "operator!", "has_value", "value", "operator*", "operator->", "get", "max_size", "capacity"}


class Interp:
    def __init__(self, prog, client, maxdepth=8, widen=4, maxstates=MAXSTATES, maxtime=120):
        self.until = min(time.process_time() + maxtime, BUDGET)
        self.p = prog; self.cl = client; self.maxdepth = maxdepth; self.widen = widen; self.maxstates = maxstates
        self.nstates = 0
        self.inval = 0
        self.frames = 0
        self.fork_own = None     # own calls that may throw although not inlined
        self.fnseen = set()

    # -- storage -----------------------------------------------------------------------------
    def symfor(self, s, name, t, lo=None, hi=None):
        """a fresh meaning for symbol name with the range of type t"""
        s.forget(name)
        r = t.range if t is not None else None
        lo = lo if lo is not None else (r[0] if r else -INF)
        hi = hi if hi is not None else (r[1] if r else INF)
        s.rng[name] = (lo, hi)
        return I(lo, hi, name, 0)

    def fresh(self, s, n, t, tag=""):
        """unknown value made at node n"""
        t = t.strip() if t is not None else None
        name = f"{tag}@{n.of.q.split('::')[-1] if n is not None and n.of is not None else ''}.{n.i if n is not None else s.fresh}"
        if t is None: return ("o", name)
        if t.k == "bool":
            s.forget(name)
            return ("b", ("sym", name))
        if t.range is not None: return self.symfor(s, name, t)
        if t.k == "ptr": return ("p", name, K(0))
        return ("o", name)

    def load(self, s, loc, t, n=None):
        v = s.env.get(loc)
        if v is not None: return v
        t = t.strip() if t is not None else None
        if loc[0] == "g" and t is not None and t.range is not None:
            c = self.gconst(loc)
            if isinstance(c, bool): return ("b", ("c", c))
            if isinstance(c, int): return ("b", ("c", bool(c))) if t.k == "bool" else K(c)
        name = "m" + locname(loc)
        if t is None: v = ("o", name)
        elif t.k == "bool":
            s.forget(name); v = ("b", ("sym", name))
        elif t.range is not None: v = self.symfor(s, name, t)
        elif t.k == "ptr": v = ("p", name, K(0))
        elif t.k == "rec": return ("l", loc)
        else: v = ("o", name)
        s.env[loc] = v
        return v

    def gconst(self, loc):
        """value of (a part of) a constant namespace or static variable"""
        g = self.p.gvars.get(loc[1])
        if g is None or "val" not in g or not (g.get("constexpr") or g["t"].const): return None
        v = g["val"]
        i = 2
        while i < len(loc):
            if isinstance(v, dict) and len(v) == 1 and loc[i] not in v: v = next(iter(v.values())); continue
            if loc[i] == "[]":
                k = loc[i + 1] if i + 1 < len(loc) else None
                if not (isinstance(v, list) and isinstance(k, tuple) and k[0] == "k" and 0 <= k[1] < len(v)): return None
                v = v[k[1]]; i += 2
            elif isinstance(v, dict) and loc[i] in v: v = v[loc[i]]; i += 1
            else: return None
        return v if isinstance(v, (int, bool)) else None

    def store(self, s, loc, v):
        if loc is None: return
        if isinstance(v, tuple) and v and v[0] == "l":
            self.copyobj(s, v[1], loc)
            return
        self.kill(s, loc)
        s.env[loc] = v

    def kill(self, s, loc):
        n = len(loc)
        for k in [k for k in s.env if k[:n] == loc]: del s.env[k]
        nm = "m" + locname(loc)
        for sym in [x for x in list(s.rng) + list(s.bools) if isinstance(x, str) and (x == nm or x.startswith(nm + "."))]:
            s.forget(sym)
        if loc and loc[-1] == "[]": return

    def copyobj(self, s, src, dst):
        if src == dst: return
        n = len(src)
        items = [(k[n:], v) for k, v in s.env.items() if k[:n] == src]
        # make the size relation explicit
        self.kill(s, dst)
        for k, v in items: s.env[dst + k] = v
        if src not in s.env: s.env[dst] = ("o", "m" + locname(src))

    def size(self, s, loc, t):
        t = t.strip() if t is not None else None
        if t is not None and t.k == "rec" and t.n == "std::array": return K(t.a[1])
        if t is not None and t.k == "arr": return K(t.len)
        l = loc + ("#size",)
        v = s.env.get(l)
        if v is None:
            v = self.symfor(s, "m" + locname(l), None, 0, (1 << 62))
            s.env[l] = v
        return v

    def setsize(self, s, loc, v):
        for k in [k for k in s.env if k[:len(loc)] == loc and k != loc + ("#size",)]: del s.env[k]
        s.env[loc + ("#size",)] = v

    def drop(self, s, loc):
        """forget everything about the object at loc"""
        self.cl.lost(self, s, loc)
        self.kill(s, loc)

    def rv(self, s, v, t, n=None):
        if isinstance(v, tuple) and v and v[0] == "l":
            st = t.strip() if t is not None else None
            if st is not None and st.k == "rec": return v
            return self.load(s, v[1], t, n)
        return v

    # -- integers ----------------------------------------------------------------------------
    def fit(self, s, fr, n, v, t):
        """value v computed mathematically, stored in type t"""
        r = t.range if t is not None else None
        if r is None: return v
        lo, hi = s.bounds(v)
        if lo >= r[0] and hi <= r[1]: return I(max(v.lo, lo), min(v.hi, hi), v.sym, v.off, v.fl, v.bits)
        if self.cl.bits and r[0] == 0 and v.bits is not None and lo >= 0 and len(v.bits) >= t.w:
            return s.frombits(v.bits, t.w, 0, v.fl)
        self.cl.wrapped(self, s, fr, n, v)
        w = self.fresh(s, n, t, "wrap")
        if isinstance(w, I): return I(w.lo, w.hi, w.sym, w.off, v.fl | {"wrap"})
        return w

    def convert(self, s, fr, n, v, t):
        """integral conversion of v to type t"""
        t = t.strip()
        r = t.range
        if isinstance(v, tuple):
            if v[0] == "b":
                if t.k == "bool": return v
                tr = s.truth(v[1])
                if tr is not None: return K(int(tr))
                w = self.fresh(s, n, t, "b2i")
                return I(0, 1, None, 0)
            if t.k == "bool":
                if v[0] == "p" : return ("b", self.tocond(s, v))
                return ("b", TOPB)
            return self.fresh(s, n, t)
        if not isinstance(v, I) or r is None: return v
        if t.k == "bool": return ("b", ("cmp", "!=", v, K(0)))
        lo, hi = s.bounds(v)
        if lo >= r[0] and hi <= r[1]: return v
        if lo == hi:   # constant: exact wrap
            m = 1 << t.w
            x = lo % m
            if t.sg and x >= m // 2: x -= m
            return I(x, x, None, 0, v.fl | {"lossy"})
        if self.cl.bits:
            b = s.bitsof(v, t.w)
            if b is not None: return s.frombits(b, t.w, t.sg, v.fl)
        self.cl.truncated(self, s, fr, n, v)
        w = self.fresh(s, n, t, "trunc")
        return I(w.lo, w.hi, w.sym, w.off, v.fl | {"lossy"})

    def arith(self, s, fr, n, op, a, b, t):
        if not isinstance(a, I) or not isinstance(b, I): return self.fresh(s, n, t)
        if self.cl.bits and op in ("&", "|", "^", "<<", ">>", "+", "-", "*", "/", "%"):
            v = self.bitop(s, op, a, b, t)
            if v is not None: return self.fit(s, fr, n, v, t)
        al, ah = s.bounds(a); bl, bh = s.bounds(b)
        fl = a.fl | b.fl
        v = None
        if op == "+":
            sym, off = None, 0
            if a.sym is not None and bl == bh: sym, off = a.sym, a.off + bl
            elif b.sym is not None and al == ah: sym, off = b.sym, b.off + al
            v = I(al + bl, ah + bh, sym, off, fl)
        elif op == "-":
            sym, off = None, 0
            if a.sym is not None and bl == bh: sym, off = a.sym, a.off - bl
            lo, hi = al - bh, ah - bl
            if a.sym is not None and b.sym is not None:
                d = s.diff_max(a.sym, b.sym); e = s.diff_max(b.sym, a.sym)
                if d is not None: hi = min(hi, d + a.off - b.off)
                if e is not None: lo = max(lo, -(e + b.off - a.off))
            v = I(lo, hi, sym, off, fl)
        elif op == "*":
            c = [al * bl, al * bh, ah * bl, ah * bh]
            v = I(min(c), max(c), None, 0, fl)
        elif op == "/" and bl == bh and bl > 0:
            q = lambda x: abs(x) // bl * (1 if x >= 0 else -1)
            v = I(q(al), q(ah), None, 0, fl)
        elif op == "%" and bl == bh and bl > 0:
            if al >= 0: v = I(0, min(ah, bl - 1), None, 0, fl)
            else: v = I(-(bl - 1), bl - 1, None, 0, fl)
        elif op == "%" and al >= 0 and bl >= 0:
            v = I(0, max(0, min(ah, bh - 1)), None, 0, fl)
        elif op == "&" and al >= 0 and bl >= 0:
            v = I(al & bl, al & bl) if al == ah and bl == bh else I(0, min(ah, bh), None, 0, fl)
        elif op == "&" and (bl == bh >= 0 or al == ah >= 0):
            v = I(0, bl if bl == bh and bl >= 0 else al, None, 0, fl)
        elif op in ("|", "^") and al >= 0 and bl >= 0:
            if al == ah and bl == bh: v = K(al | bl if op == "|" else al ^ bl)
            else:
                m = (1 << max(ah, bh).bit_length()) - 1
                v = I(max(al, bl) if op == "|" else 0, m, None, 0, fl)
        elif op == "<<" and bl == bh and 0 <= bl < 64:
            v = I(al << bl, ah << bl, None, 0, fl)
        elif op == ">>" and bl == bh and 0 <= bl < 64:
            v = I(al >> bl, ah >> bl, None, 0, fl)
        if v is None:
            w = self.fresh(s, n, t)
            return I(w.lo, w.hi, w.sym, w.off, fl) if isinstance(w, I) else w
        return self.fit(s, fr, n, v, t)

    def bitop(self, s, op, a, b, t):
        """the operation on values known bit by bit; None if that says nothing"""
        al, ah = s.bounds(a); bl, bh = s.bounds(b)
        if al == ah and bl == bh: return None
        w = t.w if t is not None and t.range is not None else 64
        sg = t.sg if t is not None and t.range is not None else 1
        if op in ("*", "/", "%"):
            if bl != bh or bl <= 0 or bl & (bl - 1) or al < 0: return None
            k = bl.bit_length() - 1
            if op == "%": op, b = "&", K(bl - 1)
            else: op, b = ("<<" if op == "*" else ">>"), K(k)
            bl, bh = s.bounds(b)
        fl = a.fl | b.fl
        if op in ("+", "-") and (a.sym is not None and a.bits is None and bl == bh or b.sym is not None and b.bits is None and al == ah):
            return None   # linear: kept that way
        if op in ("<<", ">>"):
            if bl != bh or not 0 <= bl < w: return None
            if op == ">>" and al < 0: return None
            x = s.bitsof(a, w)
            if x is None: return None
            if op == ">>": return s.frombits(x[bl:], w, sg, fl)
            x = (0,) * bl + x
            if sg and any(e != 0 for e in x[w - 1:]): return None
            return s.frombits(x, w, sg, fl)
        x, y = s.bitsof(a, w), s.bitsof(b, w)
        if x is None or y is None: return None
        r = []
        for p, q in zip(x, y):
            e = None
            if op == "&":
                if p == 0 or q == 0: e = 0
                elif p == 1: e = q
                elif q == 1 or p == q: e = p
            elif op == "|":
                if p == 1 or q == 1: e = 1
                elif p == 0: e = q
                elif q == 0 or p == q: e = p
            elif op == "^":
                if p == 0: e = q
                elif q == 0: e = p
                elif isinstance(p, int) and isinstance(q, int): e = p ^ q
                elif p == q: e = 0
            elif op == "+":
                if p == 0: e = q
                elif q == 0: e = p
            elif op == "-":
                if q == 0: e = p
                elif p == 1 and q == 1: e = 0
            if e is None: return None
            r.append(e)
        return s.frombits(tuple(r), w, sg, fl)

    # -- expression evaluation -----------------------------------------------------------------
    # ev returns a list of (state, value); effects of calls may fork the state
    def val(self, s, fr, n):
        """value of an already evaluated node (or a simple one)"""
        if n is None: return None
        m = s.memo.get(n.i)
        if m is not None: return m
        self.inval += 1
        try: r = self.ev(s, fr, n)
        finally: self.inval -= 1
        # a pure expression that was not a CFG element of its own: single outcome expected
        st, v = r[0]
        if st is not s:
            s.env, s.rng, s.dif, s.ne, s.bools, s.memo, s.ts = st.env, st.rng, st.dif, st.ne, st.bools, st.memo, st.ts
        return v

    def rval(self, s, fr, n):
        v = self.val(s, fr, n)
        return self.rv(s, v, n.t, n)

    def cond(self, s, fr, n):
        """condition formula of a node in boolean context"""
        v = self.rval(s, fr, n)
        return self.tocond(s, v, n)

    def tocond(self, s, v, n=None):
        if isinstance(v, tuple) and v[0] == "b": return v[1]
        if isinstance(v, I): return ("cmp", "!=", v, K(0))
        if isinstance(v, tuple) and v[0] == "p":
            if v[1] == "null": return ("c", False)
            if isinstance(v[1], tuple): return ("c", True)
            return ("sym", "nz" + str(v[1]))
        return TOPB

    def lvalof(self, s, fr, n):
        v = self.val(s, fr, n)
        if isinstance(v, tuple) and v and v[0] == "l": return v[1]
        return None

    def varloc(self, s, fr, n):
        v = n.var
        if v is None: return None
        if v in fr.caps:
            return fr.caps[v]
        if n.g: return ("g", v)
        ref = s.alias.get((fr.id, v))
        if ref is not None: return ref
        return ("v", fr.id, v)

    def thisloc(self, fr): return fr.this

    def ev(self, s, fr, n):
        k = n.k
        if n.v is not None and n.t is not None and n.t.strip().range is not None and not (n.lv and n.t and not n.t.const and k == "DeclRefExpr"):
            if k == "DeclRefExpr" and n.g and n.lv and self.wants_place(n):
                loc = ("g", n.var)
                s.env[loc] = ("b", ("c", bool(n.v))) if n.t.strip().k == "bool" else K(n.v)
                return [(s, ("l", loc))]
            if n.t.strip().k == "bool": return [(s, ("b", ("c", bool(n.v))))]
            # keep side-effect free constants
            return [(s, K(n.v))]
        if k == "DeclRefExpr":
            if n.d.get("fn"): return [(s, ("fn", n.f))]
            if n.var and n.var.startswith("std::") and n.var.rsplit("::", 1)[0] in ("std::strong_ordering", "std::weak_ordering"):
                w = {"less": (0, 1), "greater": (1, 0)}.get(n.var.rsplit("::", 1)[1], (0, 0))
                return [(s, ("3w", K(w[0]), K(w[1])))]
            if n.bind is not None:
                a = s.alias.get((fr.id, n.bind))
                if a is not None: return [(s, ("l", a))]
                if n.bind in fr.caps: return [(s, ("l", fr.caps[n.bind]))]
                return [(s, ("l", ("v", fr.id, n.bind)))]
            loc = self.varloc(s, fr, n)
            if loc is None: return [(s, ("o", "ec"))]
            return [(s, ("l", loc))]
        if k == "CXXThisExpr": return [(s, ("p", fr.this, K(0)))]
        if k == "MemberExpr":
            if n.g: return [(s, ("l", ("g", n.var)))]
            if n.d.get("fn"): return [(s, ("fn", n.f))]
            b = self.val(s, fr, n.c[0])
            loc = self.objloc(s, fr, n.c[0], b, bool(n.arrow))
            loc2 = loc + (n.m,)
            # a reference member refers to something else
            return [(s, ("l", loc2))]
        if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"): return [(s, self.fresh(s, n, n.t))]
        if k == "StringLiteral": return [(s, ("lit", n.s if isinstance(n.s, str) else tuple(n.s)))]
        if k in ("CXXNullPtrLiteralExpr",): return [(s, ("p", "null", K(0)))]
        if k == "UnaryOperator": return self.unary(s, fr, n)
        if k == "BinaryOperator": return self.binary(s, fr, n)
        if k == "CompoundAssignOperator": return self.compound(s, fr, n)
        if k.endswith("CastExpr"): return self.cast(s, fr, n)
        if k == "ConditionalOperator":
            arm = s.memo.get(("arm", n.i))
            if arm is None:
                c = self.cond(s, fr, n.c[0])
                t = s.truth(c)
                arm = None if t is None else (1 if t else 2)
            if arm is None: return [(s, self.fresh(s, n, n.t))]
            return [(s, self.val(s, fr, n.c[arm]))]
        if k == "ArraySubscriptExpr":
            b = self.rval(s, fr, n.c[0]); i = self.rval(s, fr, n.c[1])
            if n.c[0].t is not None and n.c[0].t.strip().k == "arr":
                loc = self.lvalof(s, fr, n.c[0]) or ("?", n.i)
                self.cl.access(self, s, fr, n, (loc, n.c[0].t), i)
                return [(s, ("l", loc + ("[]", idxkey(i))))]
            return self.index_ptr(s, fr, n, b, i)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return self.call(s, fr, n)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.construct(s, fr, n)
        if k == "InitListExpr":
            if len(n.c) == 1 and n.c[0] is not None and (n.lv or n.c[0].lv and self.refinit(n)): return [(s, self.val(s, fr, n.c[0]))]
            if len(n.c) == 1 and n.c[0] is not None and n.t is not None and n.c[0].t is not None and n.t.strip().k == "rec" \
                    and n.t.strip().s.replace("const ", "") == n.c[0].t.strip().s.replace("const ", ""):
                return [(s, self.val(s, fr, n.c[0]))]
            if n.t is not None and n.t.strip().range is not None and len(n.c) == 1:
                return [(s, self.rval(s, fr, n.c[0]))]
            if n.t is not None and n.t.strip().range is not None and not n.c: return [(s, K(0) if n.t.strip().k != "bool" else ("b", ("c", False)))]
            if n.t is not None and n.t.strip().k == "ptr":
                return [(s, self.rval(s, fr, n.c[0]) if n.c else ("p", "null", K(0)))]
            loc = ("tmp", fr.id, n.i)
            self.kill(s, loc)
            flds = n.fields or []
            for i, c in enumerate(n.c):
                if c is None: continue
                v = self.rval(s, fr, c)
                self.store(s, loc + ((flds[i],) if i < len(flds) else ("[]", ("k", i))), v)
            if n.t is not None and (n.t.strip().k == "arr" or n.t.strip().k == "rec" and n.t.strip().n == "std::initializer_list"): s.env[loc + ("#size",)] = K(len(n.c))
            return [(s, ("l", loc))]
        if k == "ImplicitValueInitExpr":
            return [(s, K(0) if n.t.strip().range is not None and n.t.strip().k != "bool" else self.zero(n.t))]
        if k == "CXXScalarValueInitExpr": return [(s, self.zero(n.t))]
        if k == "LambdaExpr":
            caps = {}
            for c in n.d["caps"]:
                key = c.get("var") or c.get("bind")
                if key is None: continue
                fake = s.alias.get((fr.id, key)) or fr.caps.get(key) or ("v", fr.id, key)
                if c.get("ic") and c.get("init") is not None:
                    fake = ("v", fr.id, key)
                    self.store(s, fake, self.rval(s, fr, c["init"]))
                caps[key] = fake
            return [(s, ("lam", n.lam, tuple(sorted(caps.items())), fr.this))]
        if k == "DeclStmt": return self.declstmt(s, fr, n)
        if k in ("CXXThrowExpr", "ReturnStmt"): return [(s, None)]
        if k == "SizeOfPackExpr" or k == "UnaryExprOrTypeTraitExpr": return [(s, self.fresh(s, n, n.t))]
        if k in ("OpaqueValueExpr",) and n.c: return [(s, self.val(s, fr, n.c[0]))]
        if n.t is not None and n.t.k != "void": return [(s, self.fresh(s, n, n.t))]
        return [(s, None)]

    def refinit(self, n):
        """is n the braced initialiser of a reference"""
        x = n.up
        return x is not None and x.k == "DeclStmt" and any(v.get("init") is n and v["t"].k == "ref" for v in x.d["d"])

    def wants_place(self, n):
        """is the place of a constant needed, not its value"""
        x = n.up
        while x is not None and x.k in ("ConditionalOperator", "ParenExpr"): x = x.up
        if x is None: return False
        return x.k == "UnaryOperator" and x.op == "&" or x.k == "ReturnStmt" and n.of is not None and n.of.ret is not None and n.of.ret.k == "ref"

    def zero(self, t):
        t = t.strip()
        if t.k == "bool": return ("b", ("c", False))
        if t.range is not None: return K(0)
        if t.k == "ptr": return ("p", "null", K(0))
        return ("o", "zero")

    def objloc(self, s, fr, n, v, arrow):
        """location of the object a member is taken of"""
        if isinstance(v, tuple) and v:
            if v[0] == "l":
                if arrow:
                    pv = self.load(s, v[1], n.t)
                    if isinstance(pv, tuple) and pv[0] == "p":
                        return pv[1] if isinstance(pv[1], tuple) else ("h", pv[1])
                    if isinstance(pv, tuple) and pv[0] == "l": return pv[1] + ("*",)
                    return ("h", str(pv))
                return v[1]
            if v[0] == "p": return v[1] if isinstance(v[1], tuple) else ("h", v[1])
            if v[0] == "o": return ("h", v[1])
        return ("tmp", fr.id, n.i)

    def index_ptr(self, s, fr, n, b, i):
        if isinstance(b, tuple) and b[0] == "p" and isinstance(i, I):
            off = self.arith(s, fr, n, "+", b[2], i, None)
            return self.derefp(s, fr, n, ("p", b[1], off))
        if isinstance(b, tuple) and b[0] == "l":
            self.cl.access(self, s, fr, n, (b[1], None), i)
            return [(s, ("l", b[1] + ("[]", idxkey(i))))]
        self.cl.access(self, s, fr, n, (None, None), i)
        return [(s, self.fresh(s, n, n.t))]

    def derefp(self, s, fr, n, p):
        r = self.cl.deref(self, s, fr, n, p)
        if r is not None: return r if isinstance(r, list) else [(s, r)]
        base = p[1] if isinstance(p[1], tuple) else ("h", p[1])
        if base[-1] == "#il": return [(s, ("l", base[:-1] + ("[]", idxkey(p[2]))))]
        o = p[2].const() if isinstance(p[2], I) else None
        if o == 0: return [(s, ("l", base))]
        return [(s, ("l", base + ("[]", idxkey(p[2]))))]

    def unary(self, s, fr, n):
        op = n.op
        c = n.c[0]
        if op == "&":
            v = self.val(s, fr, c)
            if isinstance(v, tuple) and v and v[0] == "l": return [(s, ("p", v[1], K(0)))]
            return [(s, self.fresh(s, n, n.t))]
        if op == "*":
            p = self.rval(s, fr, c)
            if isinstance(p, tuple) and p[0] == "p": return self.derefp(s, fr, n, p)
            if isinstance(p, tuple) and p[0] == "l": return [(s, p)]
            self.cl.unknown(self, s, n)
            return [(s, self.fresh(s, n, n.t))]
        if op in ("++", "--"):
            loc = self.lvalof(s, fr, c)
            old = self.rval(s, fr, c)
            one = K(1 if op == "++" else -1)
            if isinstance(old, tuple) and old[0] == "p":
                new = ("p", old[1], self.arith(s, fr, n, "+", old[2], one, None))
                self.cl.ptrarith(self, s, fr, n, old, new)
            elif isinstance(old, I):
                # small types are promoted to int first, then converted back
                w = self.arith(s, fr, n, "+", old, one, None)
                new = self.fit(s, fr, n, w, c.t.strip())
            else: new = self.fresh(s, n, c.t)
            if loc is not None: self.assign(s, loc, new)
            return [(s, old if n.post else (("l", loc) if loc is not None else new))]
        v = self.rval(s, fr, c)
        if op == "!": return [(s, ("b", NOT(self.tocond(s, v, c))))]
        if op == "-" and isinstance(v, I):
            lo, hi = s.bounds(v)
            return [(s, self.fit(s, fr, n, I(-hi, -lo, None, 0, v.fl), n.t))]
        if op == "+": return [(s, v)]
        if op == "~" and isinstance(v, I):
            lo, hi = s.bounds(v)
            return [(s, self.fit(s, fr, n, I(~hi, ~lo, None, 0, v.fl), n.t))]
        return [(s, self.fresh(s, n, n.t))]

    def assign(self, s, loc, v):
        if isinstance(v, tuple) and v and v[0] == "l": self.copyobj(s, v[1], loc); return
        old = s.env.get(loc)
        self.kill(s, loc)
        s.env[loc] = v

    CMP = {"<", "<=", ">", ">=", "==", "!="}

    def binary(self, s, fr, n):
        op = n.op
        if op in ("&&", "||"):
            f = s.memo.get(("sc", n.i))
            if f is not None: return [(s, ("b", ("c", f == "T")))]
            a = self.cond(s, fr, n.c[0])
            t = s.truth(a)
            if op == "&&" and t is False: return [(s, ("b", ("c", False)))]
            if op == "||" and t is True: return [(s, ("b", ("c", True)))]
            b = self.cond(s, fr, n.c[1])
            if t is not None: return [(s, ("b", b))]
            return [(s, ("b", ("and" if op == "&&" else "or", a, b)))]
        if op == ",": 
            return [(s, self.val(s, fr, n.c[1]))]
        if op == "=":
            loc = self.lvalof(s, fr, n.c[0])
            v = self.rval(s, fr, n.c[1])
            if loc is not None: self.assign(s, loc, v)
            return [(s, ("l", loc) if loc is not None else v)]
        a, b = self.rval(s, fr, n.c[0]), self.rval(s, fr, n.c[1])
        if op == "<=>" and isinstance(a, I) and isinstance(b, I): return [(s, ("3w", a, b))]
        if op in self.CMP:
            if isinstance(a, I) and isinstance(b, I): return [(s, ("b", ("cmp", op, a, b)))]
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
                if a[0] == "b" and b[0] == "b" and op in ("==", "!="):
                    ta, tb = s.truth(a[1]), s.truth(b[1])
                    if tb is not None:
                        c = a[1] if tb else NOT(a[1])
                        return [(s, ("b", c if op == "==" else NOT(c)))]
                    if ta is not None:
                        c = b[1] if ta else NOT(b[1])
                        return [(s, ("b", c if op == "==" else NOT(c)))]
                    return [(s, ("b", ("or", ("and", a[1], b[1]), ("and", NOT(a[1]), NOT(b[1]))) if op == "==" else
                                 ("or", ("and", a[1], NOT(b[1])), ("and", NOT(a[1]), b[1]))))]
                if a[0] == "p" and b[0] == "p":
                    if a[1] == b[1] and isinstance(a[2], I): return [(s, ("b", ("cmp", op, a[2], b[2])))]
                    if op in ("==", "!=") and isinstance(a[1], tuple) and isinstance(b[1], tuple) and a[1][0] in ("v", "g", "obj") and b[1][0] in ("v", "g", "obj") \
                            and a[1][:len(b[1])] != b[1] and b[1][:len(a[1])] != a[1]: return [(s, ("b", ("c", op == "!=")))]
                    if "null" in (a[1], b[1]):
                        x = a if b[1] == "null" else b
                        nz = ("c", True) if isinstance(x[1], tuple) else ("sym", "nz" + str(x[1]))
                        return [(s, ("b", NOT(nz) if op == "==" else nz))]
                    if self.cl.bits: return [(s, ("b", TOPB))]
            if isinstance(a, tuple) and a and a[0] == "b" and isinstance(b, I):
                a = self.convert(s, fr, n, a, b_int())
                return [(s, ("b", ("cmp", op, a, b)))]
            if isinstance(b, tuple) and b and b[0] == "b" and isinstance(a, I):
                b = self.convert(s, fr, n, b, b_int())
                return [(s, ("b", ("cmp", op, a, b)))]
            return [(s, self.fresh(s, n, n.t))]
        if isinstance(a, tuple) and a and a[0] == "p":
            if op in ("+", "-") and isinstance(b, I):
                nb = b
                new = ("p", a[1], self.arith(s, fr, n, op, a[2], b, None))
                self.cl.ptrarith(self, s, fr, n, a, new)
                return [(s, new)]
            if op == "-" and isinstance(b, tuple) and b[0] == "p" and a[1] == b[1]:
                return [(s, self.arith(s, fr, n, "-", a[2], b[2], n.t))]
        if isinstance(b, tuple) and b and b[0] == "p" and op == "+" and isinstance(a, I):
            return [(s, ("p", b[1], self.arith(s, fr, n, "+", b[2], a, None)))]
        if isinstance(a, tuple) and a and a[0] == "b": a = self.convert(s, fr, n, a, n.t.strip())
        if isinstance(b, tuple) and b and b[0] == "b": b = self.convert(s, fr, n, b, n.t.strip())
        return [(s, self.arith(s, fr, n, op, a, b, n.t.strip()))]

    def compound(self, s, fr, n):
        loc = self.lvalof(s, fr, n.c[0])
        a, b = self.rval(s, fr, n.c[0]), self.rval(s, fr, n.c[1])
        op = n.op[:-1]
        if isinstance(a, tuple) and a and a[0] == "p" and isinstance(b, I) and op in ("+", "-"):
            new = ("p", a[1], self.arith(s, fr, n, op, a[2], b, None))
            self.cl.ptrarith(self, s, fr, n, a, new)
        elif isinstance(a, tuple) and a and a[0] == "b":
            new = ("b", TOPB)
        else:
            ct = (n.ct or n.t).strip()
            w = self.arith(s, fr, n, op, a, b, ct)
            new = self.convert(s, fr, n, w, n.c[0].t.strip()) if isinstance(w, I) else w
        if loc is not None: self.assign(s, loc, new)
        return [(s, ("l", loc) if loc is not None else new)]

    def cast(self, s, fr, n):
        ck = n.ck
        c = n.c[0]
        v = self.val(s, fr, c)
        if ck == "IntegralCast" and self.cl.split and not self.inval:
            x = self.rv(s, v, c.t, c)
            r = n.t.strip().range
            if isinstance(x, I) and r is not None and n.t.strip().k != "bool":
                lo, hi = s.bounds(x)
                m = r[1] - r[0] + 1
                k0, k1 = (lo - r[0]) // m, (hi - r[0]) // m
                if k0 != k1 and k1 - k0 < 3:
                    out = []
                    for k in range(k0, k1 + 1):
                        s2 = s.copy()
                        a, b = max(lo, r[0] + k * m), min(hi, r[1] + k * m)
                        if x.sym is not None and not (s2.assume_cmp(">=", x, K(a)) and s2.assume_cmp("<=", x, K(b))): continue
                        out.append((s2, I(a - k * m, b - k * m, x.sym, x.off - k * m, x.fl)))
                    return out
        if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral"):
            return [(s, self.convert(s, fr, n, self.rv(s, v, c.t, c), n.t))]
        if ck == "PointerToBoolean": return [(s, ("b", self.tocond(s, self.rv(s, v, c.t, c), c)))]
        if ck == "NullToPointer": return [(s, ("p", "null", K(0)))]
        if ck in ("ArrayToPointerDecay",) and self.cl.bits:
            return [(s, v)] if isinstance(v, tuple) and v and v[0] == "lit" else [(s, ("p", v[1], K(0)) if isinstance(v, tuple) and v and v[0] == "l" else self.fresh(s, n, n.t))]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "BitCast", "LValueBitCast", "Dynamic",
                  "ConstructorConversion", "UserDefinedConversion"):
            return [(s, v)]
        if ck in ("ToVoid",): return [(s, None)]
        return [(s, self.fresh(s, n, n.t))]

    def declstmt(self, s, fr, n):
        for v in n.d["d"]:
            init = v.get("init")
            if v.get("static"): continue
            loc = ("v", fr.id, v["var"])
            if v["t"].k == "ref":
                s.alias.pop((fr.id, v["var"]), None)
                x = self.val(s, fr, init) if init is not None else None
                if isinstance(x, tuple) and x and x[0] == "l": s.alias[(fr.id, v["var"])] = x[1]
                else:
                    self.kill(s, loc)
                    if x is not None: s.env[loc] = x
            else:
                s.alias.pop((fr.id, v["var"]), None)
                self.kill(s, loc)
                if init is not None:
                    x = self.rv(s, self.val(s, fr, init), v["t"])
                    if isinstance(x, tuple) and x and x[0] == "l": self.copyobj(s, x[1], loc)
                    elif x is not None: s.env[loc] = x
            for i, b in enumerate(v.get("bind", ())):
                e = b["e"]
                tgt = None
                if e is not None and e.k == "Hold" and v["t"].deref().strip().k == "rec" and v["t"].deref().strip().n == "std::pair":
                    tgt = s.alias.get((fr.id, v["var"]), loc) + (("first", "second")[i],)
                elif e is not None and e.k != "Hold":
                    x = self.val(s, fr, e)
                    if isinstance(x, tuple) and x and x[0] == "l": tgt = x[1]
                s.alias[(fr.id, b["id"])] = tgt if tgt is not None else loc + (b["n"],)
        return [(s, None)]

    # -- calls ---------------------------------------------------------------------------------
    def construct(self, s, fr, n):
        t = n.t.strip()
        args = [a for a in n.c[1:]]
        vals = [self.val(s, fr, a) for a in args]
        r = self.cl.call(self, s, fr, n, None, vals)
        if r is not None: return r
        if n.copy and len(args) == 1:
            v = vals[0]
            if isinstance(v, tuple) and v and v[0] == "l" and isinstance(s.env.get(v[1]), tuple) and s.env[v[1]][:1] == ("3w",): v = s.env[v[1]]
            if isinstance(v, tuple) and v and v[0] in ("l", "lam", "o", "p", "3w"): return [(s, v)]
        g = self.p.fns.get(n.f)
        loc = ("tmp", fr.id, n.i)
        if g is not None and g.body is not None and fr.depth < self.maxdepth and self.cl.inline(g, n) and g.id not in fr.stack:
            self.kill(s, loc)
            return self.inline(s, fr, n, g, loc, args, vals)
        self.kill(s, loc)
        if t.k == "rec" and t.n == "std::optional": return self.mkopt(s, loc, args, vals)
        # strings and containers with a known size
        if t.k == "rec" and t.n in ("std::basic_string", "std::vector", "std::map", "std::set", "std::basic_string_view"):
            if not args: s.env[loc + ("#size",)] = K(0)
            elif len(vals) >= 1 and isinstance(vals[0], tuple) and vals[0] and vals[0][0] == "lit" and t.n != "std::vector":
                s.env[loc + ("#size",)] = K(len(vals[0][1]))
            return [(s, ("l", loc))]
        for i, a in enumerate(args):
            self.escape(s, fr, n, a, vals[i], (n.pt or [None] * 9)[i] if i < len(n.pt or []) else None)
        s.env[loc] = ("o", f"new@{n.i}")
        return [(s, ("l", loc))]

    def mkopt(self, s, loc, args, vals):
        """optional at loc made from the constructor arguments"""
        if not args or args[0] is not None and args[0].t is not None and args[0].t.strip().n == "std::nullopt_t":
            s.env[loc + ("#has",)] = ("b", ("c", False))
            return [(s, ("l", loc))]
        at = args[0].t.strip() if args[0] is not None and args[0].t is not None else None
        if at is not None and at.k == "rec" and at.n == "std::optional":
            v = vals[0]
            if isinstance(v, tuple) and v and v[0] == "l":
                s.env[loc + ("#has",)] = self.opthas(s, v[1])
                self.store(s, loc + ("*",), self.rv(s, ("l", v[1] + ("*",)), at.a[0] if at.a and hasattr(at.a[0], "k") else None))
            return [(s, ("l", loc))]
        s.env[loc + ("#has",)] = ("b", ("c", True))
        v = self.rv(s, vals[0], at)
        if v is not None: self.store(s, loc + ("*",), v)
        return [(s, ("l", loc))]

    def opthas(self, s, loc):
        l = loc + ("#has",)
        v = s.env.get(l)
        if v is None:
            v = ("b", ("sym", "m" + locname(l)))
            s.env[l] = v
        return v

    def strfacts(self, s, fr, n, loc, rt, short, vals, args):
        """queries of strings whose result says something about the size"""
        if rt.n not in ("std::basic_string", "std::basic_string_view"): return None
        z = self.size(s, loc, rt)
        if short in ("starts_with", "ends_with", "contains"):
            k = self.strlen(s, vals[0], args[0])
            lo, hi = s.bounds(k)
            return [(s, ("b", ("and", ("cmp", ">=", z, K(lo)), ("sym", self.freshsym(s, n)))))]
        if short in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            k = self.strlen(s, vals[0], args[0])
            lo, hi = s.bounds(k)
            need = max(lo, 0) if short in ("find", "rfind") else 1
            a = s.copy()
            name = f"pos@{fr.id}.{n.i}"
            p = self.symfor(s, name, None, 0, (1 << 62))
            out = [(a, K((1 << 64) - 1))]
            # p + need <= size
            if s.assume_cmp("<=", I(p.lo + need, p.hi + need, p.sym, need), z):
                if short == "find" and len(vals) > 1:
                    frm = self.rv(s, vals[1], args[1].t, args[1])
                    if isinstance(frm, I): s.assume_cmp(">=", p, frm)
                out.append((s, p))
            return out
        if short == "substr" and vals:
            pos = self.rv(s, vals[0], args[0].t, args[0])
            cnt = self.rv(s, vals[1], args[1].t, args[1]) if len(vals) > 1 else None
            r = ("tmp", fr.id, n.i)
            self.kill(s, r)
            if isinstance(pos, I):
                # afterwards pos <= size (it would have thrown)
                if not s.assume_cmp("<=", pos, z): return []
                rest = self.arith(s, fr, n, "-", z, pos, None)
                if isinstance(rest, I):
                    lo, hi = s.bounds(rest)
                    lo = max(lo, 0)
                    if isinstance(cnt, I):
                        cl, ch = s.bounds(cnt)
                        if s.cmp("<=", cnt, rest) is True: sz = cnt
                        elif s.cmp(">=", cnt, rest) is True: sz = I(lo, hi, rest.sym, rest.off)
                        else: sz = I(max(0, min(lo, cl)), min(hi, ch))
                    else: sz = I(lo, hi, rest.sym, rest.off)
                    s.env[r + ("#size",)] = sz
            return [(s, ("l", r))]
        return None

    def freshsym(self, s, n, tag=""):
        name = f"{tag}@{n.of.q.split('::')[-1] if n is not None and n.of is not None else ''}.{n.i if n is not None else s.fresh}"
        s.forget(name)
        return name

    def escape(self, s, fr, n, a, v, pt):
        """argument passed to an unknown callee: forget what it may modify"""
        if a is None: return
        if isinstance(v, tuple) and v:
            if v[0] == "l":
                t = pt if pt is not None else a.t
                if pt is not None:
                    if pt.k == "ref" and not pt.to.const and a.t is not None and not a.t.const: self.drop(s, v[1])
                    elif pt.k == "ptr":
                        pv = self.load(s, v[1], a.t)
                        self.escape_ptr(s, pv, pt)
                elif a.lv and a.t is not None and not a.t.const:
                    self.drop(s, v[1])
            elif v[0] == "p": self.escape_ptr(s, v, pt or a.t)
            elif v[0] == "lam":
                # the callee may call it any number of times: forget what it may write through references
                for g in self.p.lambdas.get(v[1], []):
                    if g.name != "operator()": continue
                    for w in self.written(g):
                        loc = dict(v[2]).get(w)
                        if loc is not None: self.drop(s, loc)
                    if self.writes_this(g) and v[3] is not None: self.drop(s, v[3])

    def escape_ptr(self, s, v, t):
        if isinstance(v, tuple) and v and v[0] == "p" and isinstance(v[1], tuple):
            if t is None or t.k != "ptr" or not t.to.const: self.drop(s, v[1])

    def written(self, g):
        if not hasattr(g, "_written"):
            w = set()
            from .effects import ASSIGN
            for n in g.nodes():
                x = None
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN: x = n.c[0]
                elif n.k == "UnaryOperator" and n.op in ("++", "--"): x = n.c[0]
                elif n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.f and not n.cm: x = n.c[0] if n.c[0] is not None else n.c[1]
                while x is not None and x.k in ("MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr", "ImplicitCastExpr"): x = x.c[0]
                if x is not None and x.k == "DeclRefExpr": w.add(x.var or x.bind)
            g._written = w
        return g._written

    def writes_this(self, g):
        return any(n.k == "CXXThisExpr" for n in g.nodes())

    def call(self, s, fr, n):
        recvn = n.c[0] if n.c else None
        args = n.c[1:]
        recv = self.val(s, fr, recvn) if recvn is not None else None
        vals = [self.val(s, fr, a) if a is not None else None for a in args]
        r = self.cl.call(self, s, fr, n, recv, vals)
        if r is not None: return r
        fq = n.fq or ""
        short = fq.split("::")[-1]
        # calling a lambda value
        if n.k == "CXXOperatorCallExpr" and n.oper == "()" and isinstance(recv, tuple) and recv and recv[0] in ("lam", "l"):
            lam = recv if recv[0] == "lam" else s.env.get(recv[1])
            if isinstance(lam, tuple) and lam and lam[0] == "lam":
                g = self.p.fns.get(n.f)
                if g is not None and fr.depth < self.maxdepth and g.id not in fr.stack:
                    return self.inline(s, fr, n, g, lam[3], args, vals, dict(lam[2]))
        ts = self.p.targets(n)
        if len(ts) == 1 and ts[0].body is not None and fr.depth < self.maxdepth and self.cl.inline(ts[0], n) and ts[0].id not in fr.stack:
            g = ts[0]
            this = None
            if recvn is not None and g.cls is not None:
                this = self.objloc(s, fr, recvn, recv, bool(n.arrow))
            return self.inline(s, fr, n, g, this, args, vals)
        if fq in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"): return [(s, vals[0])]
        if not n.own:
            r = self.std(s, fr, n, fq, short, recvn, recv, args, vals)
            if r is not None: return r
        return self.unknown(s, fr, n, recvn, recv, args, vals)

    def unknown(self, s, fr, n, recvn, recv, args, vals):
        # effects: arguments, receiver, own object when a non-const member is called
        g = self.p.fns.get(n.f)
        for i, a in enumerate(args):
            pt = None
            if n.pt and i < len(n.pt): pt = n.pt[i]
            elif g is not None and i < len(g.params): pt = g.params[i]["t"]
            self.escape(s, fr, n, a, vals[i] if i < len(vals) else None, pt)
        if recvn is not None and not n.cm and not n.sm:
            loc = self.objloc(s, fr, recvn, recv, bool(n.arrow))
            if n.own and isinstance(loc, tuple):
                self.drop(s, loc)
            elif not n.own: self.drop(s, loc)
        if n.own:
            for k in [k for k in s.env if k[0] == "g"]: del s.env[k]
        if n.t is not None and n.t.k == "void": return [(s, None)]
        if n.lv: 
            loc = ("r", fr.id, n.i)
            self.kill(s, loc)
            return [(s, ("l", loc))]
        if n.t is not None and n.t.strip().k == "rec":
            loc = ("tmp", fr.id, n.i)
            self.kill(s, loc)
            s.env[loc] = ("o", f"ret@{n.i}")
            return [(s, ("l", loc))]
        return [(s, self.fresh(s, n, n.t))]

    def std(self, s, fr, n, fq, short, recvn, recv, args, vals):
        if fq in ("std::min", "std::max", "std::clamp") and recvn is None and len(vals) == (3 if fq == "std::clamp" else 2) and all(a.t.strip().range is not None for a in args):
            xs = [self.rv(s, v, a.t, a) for v, a in zip(vals, args)]
            if all(isinstance(x, I) for x in xs):
                def both(s, a, b, va, vb):
                    """a < b or not"""
                    res = []
                    for want, r in ((True, va), (False, vb)):
                        t = s.truth(("cmp", "<", a, b))
                        if t is not None and t != want: continue
                        ns = s.copy()
                        if ns.assume(("cmp", "<", a, b), want) is not False: res.append((ns, r))
                    return res
                if fq == "std::min": return both(s, xs[1], xs[0], vals[1], vals[0])
                if fq == "std::max": return both(s, xs[0], xs[1], vals[1], vals[0])
                res = []
                for ns, r in both(s, xs[0], xs[1], vals[1], None):
                    if r is not None: res.append((ns, r))
                    else: res += both(ns, xs[2], xs[0], vals[2], vals[0])
                return res
        if recvn is None and short in ("countl_one", "countl_zero") and fq.startswith("std::") and len(vals) == 1:
            x = self.rv(s, vals[0], args[0].t, args[0])
            t = args[0].t.strip()
            if isinstance(x, I) and t.range is not None and not t.sg:
                lo, hi = s.bounds(x)
                w = t.w
                def ones(v):
                    k = 0
                    while k < w and v >> (w - 1 - k) & 1: k += 1
                    return k
                if short == "countl_one": return [(s, I(ones(lo), ones(hi)))]
                return [(s, I(w - hi.bit_length(), w - lo.bit_length()))]
        if recvn is not None:
            loc = self.objloc(s, fr, recvn, recv, bool(n.arrow))
            rt = recvn.t.deref() if n.arrow else recvn.t.strip()
            cont = rt.k == "rec" and rt.n in ("std::basic_string", "std::vector", "std::map", "std::set", "std::array",
                                              "std::basic_string_view", "std::deque", "std::unordered_map", "std::unordered_set",
                                              "std::initializer_list", "std::multimap")
            if cont and rt.n == "std::initializer_list" and short in ("begin", "end") and loc is not None:
                z = s.env.get(loc + ("#size",))
                if isinstance(z, I) and z.const() is not None: return [(s, ("p", loc + ("#il",), K(0) if short == "begin" else z))]
            if cont:
                if short in ("size", "length"): return [(s, self.size(s, loc, rt))]
                if short == "empty": return [(s, ("b", ("cmp", "==", self.size(s, loc, rt), K(0))))]
                if short in ("operator[]", "at") and rt.n in ("std::basic_string", "std::vector", "std::array", "std::basic_string_view", "std::deque"):
                    i = self.rv(s, vals[0], args[0].t, args[0])
                    if short == "operator[]": self.cl.access(self, s, fr, n, (loc, rt), i)
                    return [(s, ("l", loc + ("[]", idxkey(i))))]
                if short == "front": return [(s, ("l", loc + ("[]", ("k", 0))))]
                if short == "back": return [(s, ("l", loc + ("[]", "last")))]
                if short == "clear":
                    self.cl.lost(self, s, loc); self.setsize(s, loc, K(0)); return [(s, None)]
                if short in ("push_back", "emplace_back") and rt.n in ("std::vector", "std::basic_string"):
                    z = self.arith(s, fr, n, "+", self.size(s, loc, rt), K(1), None)
                    self.setsize(s, loc, z)
                    for i, a in enumerate(args): self.escape(s, fr, n, a, vals[i], (n.pt or [])[i] if i < len(n.pt or []) else None)
                    if n.t.k == "void": return [(s, None)]
                    return [(s, ("l", loc + ("[]", "last")))]
                if short == "pop_back":
                    self.setsize(s, loc, self.arith(s, fr, n, "-", self.size(s, loc, rt), K(1), None)); return [(s, None)]
                if short == "resize" and vals:
                    v = self.rv(s, vals[0], args[0].t, args[0])
                    self.setsize(s, loc, v if isinstance(v, I) else self.fresh(s, n, args[0].t)); return [(s, None)]
                if short == "operator=" and vals and isinstance(vals[0], tuple) and vals[0] and vals[0][0] == "l":
                    self.cl.lost(self, s, loc)
                    self.copyobj(s, vals[0][1], loc); return [(s, ("l", loc))]
                if short == "operator+=" and rt.n == "std::basic_string":
                    add = self.strlen(s, vals[0], args[0])
                    z = self.arith(s, fr, n, "+", self.size(s, loc, rt), add, None)
                    self.setsize(s, loc, z)
                    return [(s, ("l", loc))]
            if rt.k == "rec" and rt.n == "std::optional":
                if short in ("operator bool", "has_value"): return [(s, self.opthas(s, loc))]
                if short == "operator=" and vals:
                    self.cl.lost(self, s, loc)
                    at = args[0].t.strip() if args[0].t is not None else None
                    if at is not None and at.k == "rec" and at.n == "std::optional" and isinstance(vals[0], tuple) and vals[0] and vals[0][0] == "l":
                        self.copyobj(s, vals[0][1], loc)
                        return [(s, ("l", loc))]
                    self.kill(s, loc)
                    self.mkopt(s, loc, args, vals)
                    return [(s, ("l", loc))]
                if short == "reset":
                    self.kill(s, loc); s.env[loc + ("#has",)] = ("b", ("c", False)); return [(s, None)]
                if short == "emplace":
                    self.kill(s, loc); self.mkopt(s, loc, args, vals); return [(s, ("l", loc + ("*",)))]
                if short == "value_or" and n.t is not None and n.t.strip().range is not None and vals:
                    a = s.copy()
                    res = []
                    h = self.tocond(s, self.opthas(s, loc))
                    if s.assume(h, True): res.append((s, self.load(s, loc + ("*",), n.t)))
                    if a.assume(h, False): res.append((a, self.rv(a, vals[0], args[0].t, args[0])))
                    return res
            if cont:
                r = self.strfacts(s, fr, n, loc, rt, short, vals, args)
                if r is not None: return r
            if rt.k == "rec" and short in ("operator bool", "has_value"):
                return [(s, ("b", ("sym", "has" + locname(loc))))]
            if rt.k == "rec" and rt.n in ("std::optional", "std::shared_ptr", "std::__shared_ptr", "std::unique_ptr",
                                         "std::__shared_ptr_access") and short in ("operator*", "operator->", "get", "value"):
                if short in ("operator->", "get"): return [(s, ("p", loc + ("*",), K(0)))]
                return [(s, ("l", loc + ("*",)))]
            if short == "operator=" and vals and rt.k == "rec":
                v = vals[0]
                if isinstance(v, tuple) and v and v[0] == "l":
                    self.cl.lost(self, s, loc)
                    self.copyobj(s, v[1], loc); return [(s, ("l", loc))]
        if n.k == "CXXOperatorCallExpr" and n.oper in self.CMP:
            av = [v for v in ([recv] if recvn is not None else []) + list(vals)]
            av = [s.env[v[1]] if isinstance(v, tuple) and v and v[0] == "l" and isinstance(s.env.get(v[1]), tuple) and s.env[v[1]][:1] == ("3w",) else v for v in av]
            w = [isinstance(v, tuple) and v[:1] == ("3w",) for v in av]
            if len(av) == 2 and w[0] != w[1]:
                a, b = (av[0][1], av[0][2]) if w[0] else (av[1][2], av[1][1])
                return [(s, ("b", ("cmp", n.oper, a, b)))]
        if n.k == "CXXOperatorCallExpr" and n.oper in ("==", "!=") or n.k == "CallExpr" and short in ("operator==",):
            av = [(recvn, recv)] + list(zip(args, vals)) if recvn is not None else list(zip(args, vals))
            if len(av) == 2:
                (xa, xv), (ya, yv) = av
                xt = xa.t.strip() if xa is not None and xa.t is not None else None
                yt = ya.t.strip() if ya is not None and ya.t is not None else None
                r = None
                if xt is not None and yt is not None:
                    if yt.k == "rec" and yt.n == "std::optional" and not (xt.k == "rec" and xt.n == "std::optional"):
                        (xa, xv, xt), (ya, yv, yt) = (ya, yv, yt), (xa, xv, xt)
                    if xt.k == "rec" and xt.n == "std::optional" and isinstance(xv, tuple) and xv and xv[0] == "l":
                        h = self.tocond(s, self.opthas(s, xv[1]))
                        if yt.n == "std::nullopt_t": r = NOT(h)
                        elif yt.range is not None:
                            a, b = self.load(s, xv[1] + ("*",), yt), self.rv(s, yv, yt, ya)
                            if isinstance(a, I) and isinstance(b, I): r = ("and", h, ("cmp", "==", a, b))
                    elif {xt.n, yt.n} & {"std::basic_string", "std::basic_string_view"}:
                        def sz(v, a, t):
                            if isinstance(v, tuple) and v and v[0] == "l" and t.k == "rec": return self.size(s, v[1], t)
                            if isinstance(v, tuple) and v and v[0] == "lit": return K(len(v[1]))
                            return None
                        a, b = sz(xv, xa, xt), sz(yv, ya, yt)
                        if a is not None and b is not None: r = ("and", ("cmp", "==", a, b), ("sym", self.freshsym(s, n)))
                if r is not None: return [(s, ("b", r if n.oper != "!=" else NOT(r)))]
        return None

    def strlen(self, s, v, a):
        if isinstance(v, tuple) and v and v[0] == "lit": return K(len(v[1]))
        t = a.t.strip() if a is not None and a.t is not None else None
        if t is not None and t.range is not None: return K(1)
        if isinstance(v, tuple) and v and v[0] == "l" and t is not None and t.k == "rec": return self.size(s, v[1], t)
        return I(0, 1 << 40)

    def inline(self, s, fr, n, g, this, args, vals, caps=None):
        """list of (state, value) of the normal returns; throws are queued"""
        self.frames += 1
        nid = f"{fr.id}/{n.i}"
        nf = Frame(g, nid, fr.depth + 1, this, caps, fr.stack + (g.id,), (fr, n))
        # clear what an earlier call at this site left
        for k in [k for k in s.env if k[0] in ("v", "tmp", "r") and k[1] == nid or k[0] in ("v", "tmp", "r") and str(k[1]).startswith(nid + "/")]: del s.env[k]
        for k in [k for k in s.alias if k[0] == nid or str(k[0]).startswith(nid + "/")]: del s.alias[k]
        ns = s.copy()
        ns.memo = {}
        self.bind(ns, nf, g, args, vals, fr)
        iv, self.inval = self.inval, 0
        try: outs = self.run(ns, nf)
        finally: self.inval = iv
        res = []
        outs = self.cl.returned(self, outs, nf)
        for o in outs:
            o.state.memo = dict(s.memo)
            if o.thrown is not None:
                self.pending.append((o, n))
                continue
            v = o.val
            if v is None and g.kind == "ctor": v = ("l", this)
            # results that live in the callee's frame keep their location
            res.append((o.state, v))
        if not res: return [] 
        return res

    def bind(self, s, nf, g, args, vals, fr):
        for i, p in enumerate(g.params):
            v = vals[i] if i < len(vals) else None
            loc = ("v", nf.id, p["var"])
            if p["t"].k == "ref":
                if isinstance(v, tuple) and v and v[0] == "l": s.alias[(nf.id, p["var"])] = v[1]
                elif v is not None: s.env[loc] = v
            else:
                if v is None: continue
                a = args[i] if i < len(args) else None
                x = self.rv(s, v, p["t"])
                if isinstance(x, tuple) and x and x[0] == "l": self.copyobj(s, x[1], loc)
                else: s.env[loc] = x

    # -- control flow --------------------------------------------------------------------------
    def heads(self, g):
        """blocks that are targets of back edges"""
        c = g.cfg
        if not hasattr(c, "_heads"):
            heads, color = set(), {}
            st = [(c.entry, iter(c.blocks[c.entry].succ))]
            color[c.entry] = 1
            while st:
                b, itr = st[-1]
                for x in itr:
                    if x is None: continue
                    if color.get(x) == 1: heads.add(x)
                    elif x not in color:
                        color[x] = 1
                        st.append((x, iter(c.blocks[x].succ)))
                        break
                else:
                    color[b] = 2
                    st.pop()
            c._heads = heads
        return c._heads

    pending = []

    depth0 = True

    def run(self, s, fr):
        """outcomes of calling fr.fn in state s; what the interpreter can't model is a Limit"""
        if not self.depth0 or os.environ.get("SA_DEBUG"): return self.run1(s, fr)
        self.depth0 = False
        try: return self.run1(s, fr)
        except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, RecursionError) as x:
            raise Limit(f"{fr.fn.id[:60]}: not modelled ({type(x).__name__} {str(x)[:40]})")
        finally: self.depth0 = True

    def run1(self, s, fr):
        g = fr.fn
        self.fnseen.add(g.id)
        if g.cfg is None: return [Outcome(s, None)]
        outs = []
        seen = {}
        work = [(g.cfg.entry, s)]
        heads = self.heads(g)
        while work:
            bid, st = work.pop()
            self.nstates += 1
            if time.process_time() > self.until: raise Limit(f"takes too long in {g.id}")
            if self.nstates > self.maxstates: raise Limit(f"too many states in {g.id}")
            b = g.cfg.blocks[bid]
            if bid in heads: self.cl.head(self, st, fr, bid)
            if self.cl.merge:
                self.cl.slim(st)
                live = memolive(g)[bid]
                st.memo = {m: v for m, v in st.memo.items() if m in live or m == "ret"}
                k = (st.key(), frozenset((m, repr(v)) for m, v in st.memo.items()))
                if k in seen.setdefault(bid, set()): continue
                seen[bid].add(k)
            elif self.cl.slim is not None:
                self.cl.slim(st)
                k = st.key()
                if bid != g.cfg.exit:
                    if k in seen.setdefault(bid, set()): continue
                    seen[bid].add(k)
            elif bid in heads:
                st.memo = {}
                ss, ks = seen.setdefault(bid, ([], set()))
                k = st.key()
                if k in ks: continue
                if len(ss) >= self.widen:
                    st = self.widened(st, ss[-1], len(ss) >= 3 * self.widen)
                    k = st.key()
                    if k in ks: continue
                ss.append(st.copy()); ks.add(k)
            if b.catch is not None: self.cl.entercatch(self, st, fr, b)
            if bid == g.cfg.exit:
                outs.append(Outcome(st, st.memo.get("ret"), None, None))
                continue
            for o in self.block(st, fr, b):
                if isinstance(o, Outcome): outs.append(o)
                else: work.append(o)
        if self.cl.slim is not None:
            uniq = {}
            for o in outs:
                self.cl.slim(o.state)
                v = o.val if not (isinstance(o.val, tuple) and o.val and o.val[0] == "o") else None
                uniq.setdefault((o.state.key(), o.thrown is None, self.cl.outkey(v)), o)
            outs = list(uniq.values())
        return outs

    def widened(self, st, old, hard):
        """drop integer facts that changed since the last visit; a changed integer gets a symbol of its own, so that
        conditions on it still say something"""
        s = st.copy()
        chg = []
        for k, v in list(s.env.items()):
            ov = old.env.get(k)
            if isinstance(v, I):
                lo, hi = s.bounds(v)
                wname = "w" + locname(k)
                if isinstance(ov, I):
                    if v.sym == wname and ov.sym == wname and v.off == 0 and not hard:
                        ol, oh = old.bounds(ov)
                        if (lo, hi) == (ol, oh): continue
                    elif ov == v and s.bounds(v) == old.bounds(ov): continue
                    ol, oh = old.bounds(ov)
                    nlo = lo if lo >= ol and not hard else None
                    nhi = hi if hi <= oh and not hard else None
                    # counters that only grow keep their lower bound, and the other way round
                    if lo >= ol: nlo = ol
                    if hi <= oh: nhi = oh
                else: nlo = nhi = None
                chg.append((k, v, wname, -INF if nlo is None else nlo, INF if nhi is None else nhi))
            elif isinstance(v, tuple) and v and v[0] == "p" and ov != v:
                s.env[k] = ("p", v[1], I(-INF, INF))
            elif isinstance(v, tuple) and v and v[0] == "b" and ov != v: s.env[k] = ("b", TOPB)
        for k, v, wname, lo, hi in chg:
            # relations with other symbols that hold for both the old and the new value survive
            rel = []
            ov = old.env.get(k)
            if isinstance(ov, I):
                for t in list(s.rng):
                    if t == wname or not isinstance(t, str): continue
                    def ub(state, x):
                        if x.sym is None:
                            return None
                        d = state.diff_max(x.sym, t)
                        return None if d is None else d + x.off
                    a, b = (ub(s, v), ub(old, ov)) if t in old.rng and old.rng.get(t) == s.rng.get(t) else (None, None)
                    if v.sym is not None and ov.sym is None and a is not None:
                        # the first value was a constant: compare bounds
                        tl = old.rng.get(t, (-INF, INF))[0]
                        b = old.bounds(ov)[1] - tl if tl > -INF else None
                    if a is not None and b is not None and max(a, b) <= 0: rel.append((t, max(a, b)))
            s.forget(wname)
            s.rng[wname] = (lo, hi)
            for t, c in rel: s._dif(wname, t, c)
            s.env[k] = I(lo, hi, wname, 0, v.fl)
        used = set()
        def mark(c):
            if isinstance(c, I):
                if c.sym is not None: used.add(c.sym)
            elif isinstance(c, tuple):
                for x in c: mark(x)
        for v in s.env.values(): mark(v)
        for r in list(s.rng):
            if r not in used: s.forget(r)
        return s

    def handlers(self, fr, n):
        """handler entry blocks of the innermost try around n: [(block, caught type)]"""
        x, below = n.up, n
        while x is not None:
            if x.k == "CXXTryStmt" and x.d["body"] is not None and self.within(below, x.d["body"]):
                res = []
                ids = {h["i"]: h for h in x.d["h"]}
                for b in fr.fn.cfg.blocks.values():
                    if b.catch in ids: res.append((b.id, ids[b.catch]))
                return res
            below = x
            x = x.up
        return []

    def within(self, n, body):
        return n is body

    def block(self, st, fr, b):
        """run a block; yields Outcome or (next block, state)"""
        res = []
        states = [st]
        for el in b.elems:
            if el is None: continue
            nxt = []
            for s in states:
                if isinstance(el, dict):
                    if "init" in el: self.ctorinit(s, fr, el); nxt.append(s)
                    elif "dtor" in el: nxt.extend(self.destroy(s, fr, el["dtor"], el.get("f")))
                    else: nxt.append(s)
                    continue
                self.cl.step(self, s, fr, el)
                if el.k == "ReturnStmt":
                    v = None
                    if el.c and el.c[0] is not None:
                        v = self.val(s, fr, el.c[0])
                        if not (fr.fn.ret is not None and fr.fn.ret.k == "ref"):
                            v = self.rv(s, v, fr.fn.ret)
                    s.memo["ret"] = v
                    nxt.append(s); continue
                if el.k == "CXXThrowExpr":
                    res.extend(self.throw(s, fr, el, el.tt))
                    continue
                save, self.pending = self.pending, []
                hs = self.handlers(fr, el) if el.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr") else []
                pre = s.copy() if hs else None
                rs = self.ev(s, fr, el)
                mine, self.pending = self.pending, save
                for o, cn in mine: res.extend(self.throw(o.state, fr, el, o.thrown, o.node))
                if hs and (not self.p.targets(el) or self.fork_own is not None and self.fork_own(el)):
                    for hb, h in hs: res.append((hb, pre.copy()))
                if not hs and self.fork_own is not None and self.cl.unwinds and el.k in CALLS and self.fork_own(el) and not mine:
                    res.extend(self.throw(s.copy(), fr, el, "?"))
                for s2, v in rs:
                    if v is not None: s2.memo[el.i] = v
                    elif el.k in CALLS and el.t is not None and el.t.s == "void": s2.memo[el.i] = ("o", "void")   # isn't done again
                    else: s2.memo.pop(el.i, None)
                    nxt.append(s2)
            states = nxt
            if not states: return res
        for s in states: res.extend(self.branch(s, fr, b))
        return res

    def destroy(self, s, fr, var, fid):
        """end of the lifetime of a local object: states after its destructor"""
        g = self.p.fns.get(fid)
        if g is None or g.body is None or g.cfg is None or fr.depth >= self.maxdepth or g.id in fr.stack or not self.cl.inline(g, None):
            return [s]
        nf = Frame(g, f"{fr.id}/~{var}", fr.depth + 1, ("v", fr.id, var), None, fr.stack + (g.id,))
        memo = s.memo
        ns = s.copy(); ns.memo = {}
        res = []
        for o in self.run(ns, nf):
            if o.thrown is not None: continue
            o.state.memo = dict(memo)
            res.append(o.state)
        return res

    def unwind(self, s, fr):
        """destructors of the live locals when an exception leaves the function"""
        states = [s]
        seen = set()
        for b in fr.fn.cfg.blocks.values():
            for el in b.elems:
                if isinstance(el, dict) and "dtor" in el and el["dtor"] not in seen:
                    seen.add(el["dtor"])
                    loc = ("v", fr.id, el["dtor"])
                    nxt = []
                    for x in states:
                        if any(k[:3] == loc for k in x.env): nxt.extend(self.destroy(x, fr, el["dtor"], el.get("f")))
                        else: nxt.append(x)
                    states = nxt
        return states

    def throw(self, s, fr, n, t, origin=None):
        hs = self.handlers(fr, n)
        if hs: return [(hb, s.copy()) for hb, h in hs]
        if self.cl.unwinds: return [Outcome(x, None, t or "rethrow", origin or n) for x in self.unwind(s, fr)]
        return [Outcome(s, None, t or "rethrow", origin or n)]

    def ctorinit(self, s, fr, el):
        e = el["e"]
        if not isinstance(e, Node): return
        v = self.rval(s, fr, e)
        if el["init"] == "~base":
            # a base or the delegated-to constructor made part of this object
            if fr.this is not None and isinstance(v, tuple) and v and v[0] == "l" and v[1] != fr.this:
                k = len(v[1])
                for l, x in list(s.env.items()):
                    if l[:k] == v[1] and len(l) > k: s.env[fr.this + l[k:]] = x
            return
        if fr.this is not None and v is not None: self.store(s, fr.this + (el["init"],), v)

    def branch(self, s, fr, b):
        res = []
        succ = b.succ
        if b.noret: return [Outcome(s, None, "noreturn", None)]
        t = b.term
        if t is None or len(succ) < 2:
            return [(x, s) for x in succ[:1] if x is not None] if len(succ) <= 1 else [(x, s.copy()) for x in succ if x is not None]
        if t.k == "SwitchStmt":
            v = self.rval(s, fr, b.cond) if b.cond is not None else None
            cases = []
            for x in succ:
                if x is None: continue
                xb = fr.fn.cfg.blocks[x]
                if xb.case is not None: cases.append(xb.case)
            for x in succ:
                if x is None: continue
                xb = fr.fn.cfg.blocks[x]
                s2 = s.copy()
                if isinstance(v, I):
                    if xb.case is not None:
                        if not s2.assume_cmp("==", v, K(xb.case)): continue
                    elif not all(s2.assume_cmp("!=", v, K(c)) for c in cases): continue
                res.append((x, s2))
            return res
        if t.k == "CXXTryStmt": return [(x, s.copy()) for x in succ if x is not None]
        if b.cond is None: return [(x, s.copy()) for x in succ if x is not None]
        if t.k == "CXXForRangeStmt":
            if (self.cl.bits or self.cl.ranges) and s.truth(self.cond(s, fr, b.cond)) is not None:
                return self.branch2(s, fr, b, self.cond(s, fr, b.cond))
            return [(x, s.copy()) for x in succ if x is not None]
        if t.k == "BinaryOperator" and t.op in ("&&", "||"):
            c = self.cond(s, fr, b.cond)
        elif t.k == "ConditionalOperator": c = self.cond(s, fr, b.cond)
        else: c = self.cond(s, fr, b.cond)
        if self.cl.bits and s.truth(c) is None:
            for x in refine(s, c): res.extend(self.branch2(x, fr, b, c))
            return res
        return self.branch2(s, fr, b, c)

    def branch2(self, s, fr, b, c):
        res = []
        succ = b.succ
        t = b.term
        ex = exact(s, c)
        for idx, want in ((0, True), (1, False)):
            x = succ[idx]
            if x is None: continue
            s2 = s.copy()
            if not s2.assume(c, want): continue
            if not ex: self.cl.fuzzy(self, s2, fr, b)
            if t.k == "BinaryOperator" and t.op in ("&&", "||"):
                # which successor skips the right operand?
                short = (t.op == "&&" and not want) or (t.op == "||" and want)
                if short: s2.memo[("sc", t.i)] = "F" if t.op == "&&" else "T"
                else: s2.memo.pop(("sc", t.i), None)
            elif t.k in ("ConditionalOperator",):
                s2.memo[("arm", t.i)] = 1 if want else 2
            res.append((x, s2))
        return res


def memolive(g):
    """block -> remembered values (of nodes, of decided && || ?:) that may still be used there"""
    c = g.cfg
    if hasattr(c, "_memolive"): return c._memolive
    defs, uses = {}, {}
    top = {}
    for b in c.blocks.values():
        for el in list(b.elems) + [b.cond]:
            if isinstance(el, dict): el = el.get("e")
            if not isinstance(el, Node): continue
            for x in el.walk():
                if x is not el or el is b.cond: uses.setdefault(x.i, set()).add(b.id)
                uses.setdefault(("sc", x.i), set()).add(b.id); uses.setdefault(("arm", x.i), set()).add(b.id)
        for el in b.elems:
            if isinstance(el, Node): defs.setdefault(el.i, set()).add(b.id)
        t = b.term
        if t is not None and t.k in ("BinaryOperator", "ConditionalOperator"):
            defs.setdefault(("sc", t.i), set()).add(b.id); defs.setdefault(("arm", t.i), set()).add(b.id)
        if t is not None:
            for x in t.c:
                if x is not None: uses.setdefault(x.i, set()).add(b.id)
    live = {b: set() for b in c.blocks}
    for m, us in uses.items():
        ds = defs.get(m)
        if not ds or us <= ds: continue
        # live at the entry of the blocks from which a use is reached without a new definition
        todo = [u for u in us if u not in ds]
        seen = set(todo)
        while todo:
            u = todo.pop()
            live[u].add(m)
            for q in c.blocks[u].pred:
                if q not in seen and q not in ds: seen.add(q); todo.append(q)
    c._memolive = live
    return live


class _IntT:
    k = "int"; w = 32; sg = 1
    range = (-(1 << 31), (1 << 31) - 1)
    def strip(self): return self


def b_int(): return _IntT()


def idxkey(i):
    if isinstance(i, I):
        if i.const() is not None: return ("k", i.const())
        if i.sym is not None: return ("s", i.sym, i.off)
    return "any"


def locname(loc):
    return ".".join(str(x) for x in loc)
