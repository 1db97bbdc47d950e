"""Abstract interpretation of code that walks a zero-terminated byte string.

The string is unknown: when a byte is first read the state is forked into the groups of byte values that UTF-8
distinguishes; values computed from bytes are kept bit by bit.  At loop heads positions are made relative to the
smallest live position, so a loop is covered by finitely many states.  Strings built by the code are sequences of such
values.  Nothing is executed, no concrete string is chosen."""
from .absint import Client, Frame, I, Interp, K, Limit, State, INF, TOPB, locname, uses
from .facts import Node

# groups a byte is put in when it is first read; comparisons split them further where needed
LEAD = [(0, 0), (1, 0x7f), (0x80, 0xbf), (0xc0, 0xdf), (0xe0, 0xef), (0xf0, 0xf7), (0xf8, 0xfb), (0xfc, 0xfd), (0xfe, 0xfe), (0xff, 0xff)]
NEXT = [(0, 0), (1, 0x7f), (0x80, 0xbf), (0xc0, 0xff)]
# groups with different meaning for UTF-8
FINE = [(0, 0), (1, 0x7f), (0x80, 0xbf), (0xc0, 0xc1), (0xc2, 0xdf), (0xe0, 0xe0), (0xe1, 0xec), (0xed, 0xed), (0xee, 0xef),
        (0xf0, 0xf0), (0xf1, 0xf3), (0xf4, 0xf4), (0xf5, 0xf7), (0xf8, 0xff)]
FINE2 = [(0, 0), (1, 0x7f), (0x80, 0x8f), (0x90, 0x9f), (0xa0, 0xbf), (0xc0, 0xff)]
CODES = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xd800, 0xdfff), (0xe000, 0xffff), (0x10000, 0x10ffff), (0x110000, 0xffffffff)]
IMP = ("#imp",)


def isbase(b): return isinstance(b, str) and (b == "str0" or b.startswith("str@"))


def liveness(g):
    """live variables at the start of every block of g: {block: set of variable keys}"""
    if hasattr(g, "_live"): return g._live
    c = g.cfg
    elems = {id(e) for b in c.blocks.values() for e in b.elems if e is not None and not isinstance(e, dict)}
    def walk(n, top=True):
        # operands that are elements of their own are not evaluated again
        if not top and id(n) in elems: return
        yield n
        for x in n.c or ():
            if x is not None: yield from walk(x, False)
    def tr(b, out):
        live = set(out)
        def uses_in(n):
            if n is None or isinstance(n, dict): return
            if n.k == "DeclRefExpr":
                if n.var: live.add(n.var)
                if n.bind: live.add(n.bind)
            elif n.k == "LambdaExpr":
                for cp in n.d["caps"]:
                    k = cp.get("var") or cp.get("bind")
                    if k: live.add(k)
        if b.cond is not None:
            for x in walk(b.cond, False): uses_in(x)
        for el in reversed(b.elems):
            if el is None: continue
            if isinstance(el, dict):
                if isinstance(el.get("e"), Node):
                    for x in walk(el["e"], False): uses_in(x)
                continue
            if el.k == "DeclStmt":
                for v in el.d["d"]:
                    live.discard(v["var"])
                    for bb in v.get("bind", ()): live.discard(bb["id"])
                for v in el.d["d"]:
                    if v.get("init") is not None:
                        for x in walk(v["init"], False): uses_in(x)
            else:
                for x in walk(el): uses_in(x)
        return live
    inn = {b: set() for b in c.blocks}
    ch = True
    while ch:
        ch = False
        for b in c.blocks.values():
            out = set()
            for x in b.succ:
                if x is not None: out |= inn[x]
            r = tr(b, out)
            if r != inn[b.id]: inn[b.id] = r; ch = True
    g._live = inn
    g._livetr = tr
    return inn


def outermost(c):
    """heads of loops that are in no other loop"""
    if hasattr(c, "_outer"): return c._outer
    reach = {}
    def go(b):
        if b not in reach:
            todo, r = [b], set()
            while todo:
                for y in c.blocks[todo.pop()].succ:
                    if y is not None and y not in r: r.add(y); todo.append(y)
            reach[b] = r
        return reach[b]
    order, todo = [], [c.entry]
    while todo:
        b = todo.pop(0)
        if b in order: continue
        order.append(b)
        todo += [y for y in c.blocks[b].succ if y is not None]
    out = set()
    for b in order:
        # the first block of a cycle that is reached
        if b in go(b) and not any(o in go(b) and b in go(o) for o in out): out.add(b)
    c._outer = out
    return out


def live_after(g, node):
    """variables live after the call node"""
    inn = liveness(g)
    for b in g.cfg.blocks.values():
        for i, el in enumerate(b.elems):
            if el is node:
                class B: pass
                x = B(); x.elems = b.elems[i + 1:]; x.cond = b.cond
                out = set()
                for y in b.succ:
                    if y is not None: out |= inn[y]
                return g._livetr(x, out)
    return None


def symsof(v):
    if isinstance(v, I):
        if v.sym is not None: yield v.sym
        for b in v.bits or ():
            if isinstance(b, tuple): yield b[0]
    elif isinstance(v, tuple):
        for x in v: yield from symsof(x)


def subst(v, mp):
    if isinstance(v, I):
        if v.sym not in mp and not any(isinstance(b, tuple) and b[0] in mp for b in v.bits or ()): return v
        return I(v.lo, v.hi, mp.get(v.sym, v.sym), v.off, v.fl,
                 None if v.bits is None else tuple((mp.get(b[0], b[0]), b[1]) if isinstance(b, tuple) else b for b in v.bits))
    if isinstance(v, tuple): return tuple(subst(x, mp) for x in v)
    return v


class Walker(Client):
    bits = True
    forgetful = False
    constroot = False        # the object analysed cannot change

    def __init__(self, prog):
        self.p = prog
        self.reads = 0           # reads of the string that were judged
        self.events = []         # (kind, node, message)
        self.undecided = []
        self.instr = set()       # locations of input string objects
        self.prm = {}            # symbols that survive loop heads (limits)
        self.counts = {}         # values seen at loop heads

    # -- policy
    def inline(self, f, n): return f.cfg is not None and f.file.startswith("libs/")
    def fuzzy(self, it, s, fr, b): s.env[IMP] = K(1)
    def unknown(self, it, s, n): s.env[IMP] = K(1)
    def precise(self, s): return IMP not in s.env

    def bad(self, kind, n, msg):
        if not any(e[0] == kind and e[1] is n for e in self.events): self.events.append((kind, n, msg))

    # -- bytes
    def byte(self, s, base, k): return s.env.get(("#by", base, k))

    def split(self, s, base, k, groups):
        """states in which byte k of the string lies in one group"""
        v = s.env.get(("#by", base, k))
        if v is None:
            nm = f"{base}[{k}]"
            s.rng[nm] = (0, 255)
            v = I(0, 255, nm, 0)
            s.env[("#by", base, k)] = v
        lo, hi = s.bounds(v)
        gs = [(max(a, lo), min(b, hi)) for a, b in groups if a <= hi and b >= lo]
        if len(gs) == 1: return [s]
        out = []
        for a, b in gs:
            s2 = s.copy()
            if s2.assume_cmp(">=", v, K(a)) and s2.assume_cmp("<=", v, K(b)): out.append(s2)
        return out

    def readbyte(self, s, n, base, o):
        """states after reading byte o of the string"""
        self.reads += 1
        if ("#gone", base) in s.env or o < 0:
            s.env[IMP] = K(1)
            return [s]
        if ("#past", base) in s.env:
            if self.precise(s): self.bad("past-end", n, "reads after moving over a byte that can be the terminator")
            else: self.undecided.append("read past a terminator on a path that is not tracked exactly")
            return []
        states = [s]
        for j in range(o):
            nxt = []
            for x in states:
                for y in self.split(x, base, j, NEXT if j else LEAD):
                    v = y.env[("#by", base, j)]
                    lo, hi = y.bounds(v)
                    if hi == 0:
                        if self.precise(y):
                            self.bad("past-end", n, f"reads byte {o} of the string although byte {j} can be the terminator")
                        else: self.undecided.append("read past a terminator on a path that is not tracked exactly")
                    else: nxt.append(y)
            states = nxt
        res = []
        for x in states: res.extend(self.split(x, base, o, NEXT if o else LEAD))
        return res

    def deref(self, it, s, fr, n, ptr):
        base, off = ptr[1], ptr[2]
        t = n.t.strip() if n.t is not None else None
        if isbase(base):
            o = off.const() if isinstance(off, I) else None
            if o is None and isinstance(off, I):
                lo, hi = s.bounds(off)
                if lo == hi: o = lo
            if o is None:
                s.env[IMP] = K(1); self.undecided.append("position not tracked")
                return [(s, it.fresh(s, n, n.t))]
            out = []
            for x in self.readbyte(s, n, base, o):
                v = self.byte(x, base, o)
                if v is None: out.append((x, it.fresh(x, n, n.t))); continue
                out.append((x, self.asint(x, v, t)))
            return out
        if base == "old":
            s.env[IMP] = K(1)
            return [(s, it.fresh(s, n, n.t))]
        if isinstance(base, tuple) and base and base[0] == "#sd":
            seq = s.env.get(base[1] + ("#seq",))
            o = off.const() if isinstance(off, I) else None
            if seq is None or o is None or seq[0] != "seq":
                s.env[IMP] = K(1)
                return [(s, it.fresh(s, n, n.t))]
            items = seq[1]
            self.reads += 1
            if 0 <= o < len(items): return [(s, self.asint(s, items[o], t))]
            if o == len(items): return [(s, K(0))]
            if self.precise(s): self.bad("past-end", n, f"reads byte {o} of a string of {len(items)} bytes")
            return []
        if isinstance(base, tuple) and base and base[0] == "#lit":
            o = off.const() if isinstance(off, I) else None
            if o is None:
                s.env[IMP] = K(1); return [(s, it.fresh(s, n, n.t))]
            if o < len(base[1]): return [(s, self.asint(s, K(base[1][o]), t))]
            if o == len(base[1]): return [(s, K(0))]
            self.bad("past-end", n, f"reads byte {o} of a literal of {len(base[1])} bytes")
            return []
        return None

    def asint(self, s, v, t):
        """byte value v read as type t"""
        if t is None or t.range is None: return v
        lo, hi = s.bounds(v)
        if t.w == 8 and t.sg:
            if lo >= 128: return I(lo - 256, hi - 256, v.sym, v.off - 256 if v.sym is not None else 0, v.fl)
            if hi >= 128: return I(-128, 127)
        return v

    def unsig(self, s, v):
        """a char as a byte"""
        if not isinstance(v, I): return v
        lo, hi = s.bounds(v)
        if lo >= 0 and hi <= 255: return v
        b = s.bitsof(v, 8)
        if b is None: return I(0, 255)
        return s.frombits(b, 8, 0)

    # -- strings
    def seqof(self, it, s, v, a):
        """items of a string like value, None if unknown"""
        if isinstance(v, tuple) and v:
            if v[0] == "lit": return tuple(K(ord(c) if isinstance(c, str) else c) for c in v[1])
            if v[0] == "l":
                if v[1] and v[1][0] == "g":
                    g = self.p.gvars.get(v[1][1])
                    b = litbytes(g.get("val")) if g is not None and (g.get("constexpr") or g["t"].const) else None
                    if b is not None: return tuple(K(x) for x in b)
                q = s.env.get(v[1] + ("#seq",))
                if q is not None and q[0] == "seq": return q[1]
                pv = s.env.get(v[1])
                if isinstance(pv, tuple) and pv[:1] == ("p",): return self.seqof(it, s, pv, a)
            if v[0] == "p" and isinstance(v[1], tuple) and v[2].const() == 0:
                if v[1][0] == "#lit": return tuple(K(x) for x in v[1][1])
                if v[1][0] == "#sd": return self.seqof(it, s, ("l", v[1][1]), a)
        return None

    def setseq(self, it, s, loc, items):
        it.kill(s, loc)
        s.env[loc + ("#seq",)] = ("seq", tuple(items)) if items is not None else ("any",)
        if items is not None: s.env[loc + ("#size",)] = K(len(items))

    def isstr(self, t):
        return t is not None and t.k == "rec" and t.n == "std::basic_string"

    def charbytes(self, s, v, rt):
        e = rt.a[0] if rt.a else None
        return self.unsig(s, v) if e is not None and getattr(e, "w", 0) == 8 else v

    def call(self, it, s, fr, n, recv, vals):
        recvn = n.c[0] if n.c else None
        args = n.c[1:]
        fq = n.fq or ""
        short = fq.split("::")[-1]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = n.t.strip()
            if t.k == "rec" and t.n == "std::basic_string_view" and len(args) == 1:
                q = self.seqof(it, s, vals[0], args[0])
                return [(s, ("p", ("#lit", tuple(x.lo for x in q)), K(0)))] if q is not None and all(isinstance(x, I) and x.const() is not None for x in q) else \
                    [(s, vals[0])] if q is not None else None
            if not self.isstr(t): return None
            if n.copy and len(args) == 1: return None
            loc = ("tmp", fr.id, n.i)
            real = [(a, v) for a, v in zip(args, vals) if a is not None and not (a.t is not None and a.t.strip().k == "rec" and a.t.strip().n == "std::allocator")]
            if not real: self.setseq(it, s, loc, ()); return [(s, ("l", loc))]
            if len(real) == 1:
                a, v = real[0]
                if a.k == "InitListExpr":
                    items = []
                    for c in a.c: items.append(self.charbytes(s, it.rval(s, fr, c), t))
                    self.setseq(it, s, loc, items if all(isinstance(x, I) for x in items) else None)
                    return [(s, ("l", loc))]
                x = it.rv(s, v, a.t, a)
                if isinstance(x, tuple) and x[:1] == ("p",) and isbase(x[1]) and isinstance(x[2], I):
                    it.kill(s, loc)      # the rest of the input
                    s.env[loc + ("#seq",)] = ("from", x[1], x[2])
                    return [(s, ("l", loc))]
                q = self.seqof(it, s, x, a)
                if q is None: q = self.seqof(it, s, v, a)
                self.setseq(it, s, loc, q)
                return [(s, ("l", loc))]
            self.setseq(it, s, loc, None)
            return [(s, ("l", loc))]
        if recvn is not None and self.isstr(recvn.t.deref() if n.arrow else recvn.t.strip()):
            rt = recvn.t.deref() if n.arrow else recvn.t.strip()
            loc = it.objloc(s, fr, recvn, recv, bool(n.arrow))
            if short in ("c_str", "data"):
                if loc in self.instr or any(loc[-len(x):] == x for x in self.instr): return [(s, ("p", "str0", K(0)))]
                q = s.env.get(loc + ("#seq",))
                if q is not None and q[0] == "from": return [(s, ("p", q[1], q[2]))]
                return [(s, ("p", ("#sd", loc), K(0)))]
            if "operator basic_string_view" in short or "basic_string_view" in fq and "::operator " in fq: return [(s, ("p", ("#sd", loc), K(0)))]
            cur = s.env.get(loc + ("#seq",))
            items = cur[1] if cur is not None and cur[0] == "seq" else None
            if short in ("operator+=", "push_back", "append") and len(args) == 1:
                a = args[0]
                v = it.rv(s, vals[0], a.t, a)
                if isinstance(v, I): add = (self.charbytes(s, v, rt),)
                else:
                    add = self.seqof(it, s, v, a)
                    if add is None: add = self.seqof(it, s, vals[0], a)
                z = it.size(s, loc, rt)
                nz = it.arith(s, fr, n, "+", z, K(len(add)) if add is not None else I(0, 1 << 40), None)
                it.setsize(s, loc, nz)
                s.env[loc + ("#seq",)] = ("seq", items + add) if items is not None and add is not None else ("any",)
                return [(s, None if short == "push_back" else ("l", loc))]
            if short in ("operator=", "assign") and len(args) == 1:
                a = args[0]
                v = it.rv(s, vals[0], a.t, a)
                if isinstance(v, I): self.setseq(it, s, loc, (self.charbytes(s, v, rt),))
                else:
                    q = self.seqof(it, s, v, a)
                    if q is None: q = self.seqof(it, s, vals[0], a)
                    self.setseq(it, s, loc, q)
                return [(s, ("l", loc))]
            if short == "clear": self.setseq(it, s, loc, ()); return [(s, None)]
            if short in ("reserve", "shrink_to_fit"): return [(s, None)]
            if short == "size" and items is not None: return [(s, K(len(items)))] if (loc + ("#size",)) not in s.env else None
            if short == "substr" and items is not None:
                av = [it.rv(s, v, a.t, a) for v, a in zip(vals, args) if a is not None]
                cs = [v.const() if isinstance(v, I) else None for v in av]
                r = ("tmp", fr.id, n.i)
                if all(x is not None for x in cs) and cs and cs[0] <= len(items):
                    self.setseq(it, s, r, items[cs[0]:][:cs[1] if len(cs) > 1 else None])
                    return [(s, ("l", r))]
        if n.k == "CXXOperatorCallExpr" and n.oper == "+" and self.isstr(n.t.strip() if n.t is not None else None):
            av = ([(recvn, recv)] if recvn is not None else []) + list(zip(args, vals))
            r = ("tmp", fr.id, n.i)
            items = ()
            for a, v in av:
                x = it.rv(s, v, a.t, a)
                q = (self.charbytes(s, x, n.t.strip()),) if isinstance(x, I) else self.seqof(it, s, x, a) or self.seqof(it, s, v, a)
                if isinstance(x, tuple) and x and x[0] == "l" and q is None: q = self.seqof(it, s, x, a)
                items = items + q if items is not None and q is not None else None
            self.setseq(it, s, r, items)
            return [(s, ("l", r))]
        if n.k == "CXXOperatorCallExpr" and n.oper in ("==", "!=") and (fq.startswith("std::")):
            av = ([(recvn, recv)] if recvn is not None else []) + list(zip(args, vals))
            if len(av) == 2 and any(a.t is not None and a.t.strip().k == "rec" and a.t.strip().n in ("std::basic_string", "std::basic_string_view") for a, v in av):
                q = [self.seqof(it, s, v, a) for a, v in av]
                if q[0] is None or q[1] is None:
                    s.env[IMP] = K(1)
                    return None
                if len(q[0]) != len(q[1]): return [(s, ("b", ("c", n.oper == "!=")))]
                out = []
                st = s
                for x, y in zip(*q):
                    r = st.cmp("==", x, y)
                    if r is True: continue
                    if r is False:
                        out.append((st, ("b", ("c", n.oper == "!=")))); st = None; break
                    ne = st.copy()
                    if ne.assume_cmp("!=", x, y):
                        if not (x.sym is not None or y.sym is not None): ne.env[IMP] = K(1)
                        out.append((ne, ("b", ("c", n.oper == "!="))))
                    if not st.assume_cmp("==", x, y): st = None; break
                if st is not None: out.append((st, ("b", ("c", n.oper == "=="))))
                return out
        return self.more(it, s, fr, n, recv, vals, short, fq)

    def more(self, it, s, fr, n, recv, vals, short, fq): return None

    # -- loop heads
    def live(self, s, fr, bid):
        """locations of live local variables, by frame id; and aliases of live references"""
        keep = {}
        f, at = fr, bid
        while f is not None:
            g = f.fn
            if at is bid and f is fr: lv = liveness(g)[bid]
            else: lv = live_after(g, at)
            keep[f.id] = lv
            if f.up is None: break
            f, at = f.up
        return keep

    def head(self, it, s, fr, bid):
        keep = self.live(s, fr, bid)
        refd = set()
        for (fid, var), loc in s.alias.items():
            lv = keep.get(fid, ())
            if lv is None or var in lv: refd.add(loc[:3])
        caps = set()
        f = fr
        while f is not None:
            for loc in f.caps.values(): caps.add(loc[:3])
            if f.this is not None and f.this[:1] == ("v",): caps.add(f.this[:3])
            f = f.up[0] if f.up else None
        pointed = {v[1][:3] for v in s.env.values() if isinstance(v, tuple) and v[:1] == ("p",) and isinstance(v[1], tuple) and v[1][-1] == "#il"}
        for k in list(s.env):
            if k[0] in ("v",) and len(k) >= 3:
                lv = keep.get(k[1])
                if k[1] not in keep: dead = k[:3] not in refd and k[:3] not in caps
                else: dead = lv is not None and k[2] not in lv and k[:3] not in refd and k[:3] not in caps
                if dead and not self.keepvar(fr, k): del s.env[k]
            elif k[0] in ("tmp", "r") and (k[1] == fr.id or k[1] not in keep) and k[:3] not in pointed: del s.env[k]
        for a in [a for a in s.alias if a[0] in keep and keep[a[0]] is not None and a[1] not in keep[a[0]] or a[0] not in keep]: del s.alias[a]
        self.counters(s, fr, bid)
        ptrs = [(k, v) for k, v in s.env.items() if isinstance(v, tuple) and v[:1] == ("p",) and isbase(v[1])]
        if self.forgetful:
            for k, v in list(ptrs):
                if k[0] == "tmp" and any(x[0] != "tmp" for x, _ in ptrs): s.env[k] = ("p", "old", K(0)); ptrs.remove((k, v))
        # a position kept in an object while a local one moves on is not followed further
        loc = [s.bounds(v[2])[0] for k, v in ptrs if k[0] == "v" and isinstance(v[2], I)]
        if loc:
            far = 1 if not self.forgetful or fr.up is None or self.constroot else 9
            for k, v in list(ptrs):
                if k[0] != "v" and isinstance(v[2], I) and s.bounds(v[2])[1] <= min(loc) - far:
                    s.env[k] = ("p", "old", K(0)); ptrs.remove((k, v))
        bases = {v[1] for k, v in ptrs}
        if len(bases) != 1: self.rule_head(it, s, fr, bid, None, 0); return
        base = next(iter(bases))
        offs = []
        for k, v in ptrs:
            l, h = s.bounds(v[2]) if isinstance(v[2], I) else (0, -1)
            if l != h: self.rule_head(it, s, fr, bid, None, 0); return
            offs.append(l)
        m = min(offs)
        if m < 0: return
        self.rule_head(it, s, fr, bid, base, m)
        past = s.env.get(("#past", base))
        for j in range(m):
            b = self.byte(s, base, j)
            if past is None and (b is None or s.bounds(b)[0] == 0): past = K(j)
        if self.forgetful:
            # of the bytes ahead only remember whether they are the terminator, unless a value was computed from one
            outer, f = bid in outermost(fr.fn.cfg), fr.up
            while f is not None and outer:
                outer, f = not it.heads(f[0].fn), f[0].up
            used = set()
            for k, v in s.env.items():
                if k[0] != "#by" and k[-1] != "#seq": used.update(symsof(v))
            for k, v in list(s.env.items()):
                if k[0] == "#by" and v.sym not in used:
                    l, h = s.bounds(v)
                    if h != 0:
                        r = (0x80, 0xbf) if 0x80 <= l and h <= 0xbf else (min(l, 1), 255)
                        s.rng[v.sym] = r; s.ne.pop(v.sym, None)
                        s.env[k] = I(*r, v.sym, 0)
                        if outer and k[2] > m and k[1] == base:
                            s.env.pop(k); s.forget(v.sym); s.rng.pop(v.sym, None)
        new = f"str@{fr.id}.{bid}"
        mp = {}
        for k, v in list(s.env.items()):
            if k[0] == "#by" and k[1] == base:
                if k[2] >= m: mp[v.sym] = f"{new}[{k[2] - m}]"
                del s.env[k]
        if self.forgetful:
            # the contents of strings copied from bytes that are left behind are forgotten, except for what kind of byte it was
            for k, v in list(s.env.items()):
                if k[-1] == "#seq" and v[0] == "seq" and any(y not in mp and isbase(y.split("[")[0]) for y in symsof(v)):
                    its = []
                    for i, x in enumerate(v[1]):
                        if isinstance(x, I) and x.sym is not None and x.sym not in mp:
                            y, (l, h) = f"copy.{locname(k)}.{i}", s.bounds(x)
                            r = kind(l, min(h, 255)) if l >= 0 else (-128, 127)
                            if y != x.sym: s.forget(y)
                            s.rng[y] = r
                            s.ne.pop(y, None)
                            x = I(*r, y, 0)
                        its.append(x)
                    s.env[k] = ("seq", tuple(its))
        # values computed from bytes that are left behind keep their meaning
        for k, v in s.env.items():
            for y in symsof(v):
                if y not in mp and isbase(y.split("[")[0]):
                    nm = "kept." + locname(k)
                    while nm in s.rng or nm in mp.values(): nm += "'"
                    mp[y] = nm
        for y in [y for y in s.rng if y not in mp and isinstance(y, str) and isbase(y.split("[")[0])]:
            s.rng.pop(y); s.ne.pop(y, None)
        for k, v in list(s.env.items()):
            s.env[k] = ("any",) if isinstance(v, tuple) and v[:1] == ("from",) else subst(v, mp)
        s.rng = {mp.get(y, y): r for y, r in s.rng.items()}
        s.ne = {mp.get(y, y): r for y, r in s.ne.items()}
        s.dif = {(mp.get(a, a), mp.get(b, b)): r for (a, b), r in s.dif.items() if (a in s.rng or a in mp) and (b in s.rng or b in mp)}
        for y in mp.values():
            if isbase(y.split("[")[0]):
                r = s.rng[y]
                s.env[("#by", new, int(y.split("[")[1][:-1]))] = I(r[0], r[1], y, 0)
        for k, v in ptrs: s.env[k] = ("p", new, K(s.bounds(v[2])[0] - m))
        if base != new:
            s.env[("#gone", base)] = K(1)
            s.env.pop(("#gone", new), None)
            s.env.pop(("#past", base), None)
        s.env.pop(("#past", new), None)
        if past is not None: s.env[("#past", new)] = past
        s.bools["nz" + new] = True
        for y in [y for y in s.bools if isinstance(y, str) and y.startswith("nzstr") and y != "nz" + new]: del s.bools[y]
        self.tidy(s)

    def returned(self, it, outs, fr):
        if not self.forgetful: return outs
        res = {}
        for o in outs:
            s, v = o.state, o.val
            plain = v is None or isinstance(v, I) and v.lo == v.hi or isinstance(v, tuple) and v[:1] == ("l",)
            mine = lambda x: str(x) == fr.id or str(x).startswith(fr.id + "/")
            if plain or isinstance(v, I) or isinstance(v, tuple) and v[:1] == ("b",):
                loc = v[1] if isinstance(v, tuple) and v[:1] == ("l",) else None
                for k in list(s.env):
                    if k[0] in ("v", "tmp", "r") and mine(k[1]) and not (loc is not None and k[:len(loc)] == loc): del s.env[k]
                if loc is None or not mine(loc[1] if len(loc) > 1 else ""):
                    for a in [a for a in s.alias if mine(a[0])]: del s.alias[a]
            if o.thrown is None and plain:
                for y, (l, h) in list(s.rng.items()):
                    if isinstance(y, str) and (isbase(y.split("[")[0]) or y.startswith("copy.")) and 0 <= l <= h <= 255:
                        r = kind(l, h)
                        if r != (l, h): s.rng[y] = r
                        s.ne.pop(y, None)
                for k, b in list(s.env.items()):
                    if k[0] == "#by": s.env[k] = I(*s.rng[b.sym], b.sym, 0)
                    elif k[-1] == "#seq" and b[0] == "seq" and k[0] == "v":
                        s.env[k] = ("seq", tuple(I(*s.rng[x.sym], x.sym, 0) if isinstance(x, I) and x.sym in s.rng and x.off == 0 and (isbase(x.sym.split("[")[0]) or x.sym.startswith("copy.")) else x for x in b[1]))
                self.tidy(s)
            res.setdefault((s.key(), o.thrown is None, repr(v)), o)
        return list(res.values())

    def counters(self, s, fr, bid):
        if self.forgetful:
            for k, v in list(s.env.items()):
                if k[-1] == "#seq" and v[0] == "any": s.env.pop(k[:-1] + ("#size",), None)
                elif k[-1] == "#seq" and v[0] == "seq":
                    h = self.counts.setdefault((fr.id, bid, k), set())
                    h.add(len(v[1]))
                    if len(h) > 5: s.env[k] = ("any",); s.env.pop(k[:-1] + ("#size",), None)
        """integers that keep changing are only known by their range and their relation to the limits"""
        for k, v in list(s.env.items()):
            if not isinstance(v, I) or k[0] != "v" or isinstance(k[-1], str) and k[-1].startswith("#") or len(k) != 3 and not self.forgetful: continue
            if v.sym is not None and isbase(v.sym.split("[")[0]): continue
            h = self.counts.setdefault((fr.id, bid, k), set())
            lo, hi = s.bounds(v)
            h.add((lo, hi, v.sym, v.off))
            if len(h) <= (9 if self.forgetful else 4): continue
            rel = []
            for y in self.prm:
                if y == v.sym or y not in s.rng: continue
                lim = I(*s.rng[y], y, 0)
                if s.cmp("<", v, lim) is True: rel.append((y, -1))
                elif s.cmp("<=", v, lim) is True: rel.append((y, 0))
            nm = "n" + locname(k)
            lo = min(x[0] for x in h)
            s.forget(nm)
            s.rng[nm] = (0 if lo >= 0 else -INF, INF)
            s.env[k] = I(0 if lo >= 0 else -INF, INF, nm, 0)
            for y, c in rel: s._dif(nm, y, c)

    def keepvar(self, fr, k): return False
    def rule_head(self, it, s, fr, bid, base, m): pass

    def tidy(self, s):
        """forget symbols nothing refers to"""
        used = set(self.prm)
        def mark(c):
            if isinstance(c, I):
                if c.sym is not None: used.add(c.sym)
                for b in c.bits or ():
                    if isinstance(b, tuple): used.add(b[0])
            elif isinstance(c, tuple):
                for x in c:
                    mark(x)
                    if isinstance(x, str): used.add(x)
        for v in s.env.values(): mark(v)
        for y in list(s.rng):
            if y not in used: s.forget(y)
        for y in list(s.bools):
            if isinstance(y, str) and y not in used and not y.startswith("nz"): s.bools.pop(y)


def kind(l, h):
    return max(x for x in (0, 1, 0x80, 0xc0, 0xe0, 0xf0, 0xf8) if x <= l), min(x for x in (0, 0x7f, 0xbf, 0xdf, 0xef, 0xf7, 0xff) if x >= h)


def litbytes(v):
    """bytes of a constant string (view) value"""
    if isinstance(v, dict):
        if "str" in v: return [ord(c) for c in v["str"]]
        if "_M_str" in v and "_M_len" in v:
            b = litbytes(v["_M_str"])
            return b[:v["_M_len"]] if b is not None else None
    return None


# -- what UTF-8 says ---------------------------------------------------------------------------
def classify(s, by):
    """by(k): value of byte k or None if it was never read.
    ('wf', length, bits) | ('mal', kinds, needed) | ('end',) | ('split', k): byte k must be known first"""
    def rg(k):
        v = by(k)
        return None if v is None else s.bounds(v)
    r = rg(0)
    if r is None: return ("split", 0)
    lo, hi = r
    if hi == 0: return ("end",)
    if lo == 0: return ("split", 0)
    def b(k, n): return s.bitsof(by(k), 8)[:n]
    def cont(k):
        r = rg(k)
        if r is None: return None
        l, h = r
        if l >= 0x80 and h <= 0xbf: return True
        if h < 0x80 or l > 0xbf: return False
        return None
    if hi <= 0x7f: return ("wf", 1, b(0, 7))
    if lo < 0x80: return ("split", 0)
    if hi <= 0xbf: return ("mal", {"ContinuationByte"})
    if lo < 0xc0: return ("split", 0)
    def upto(k, special):
        """the first k bytes after the lead are continuation bytes"""
        for j in range(1, k + 1):
            c = cont(j)
            if c is None: return ("split", j)
            if not c: return ("mal", {"MissingBytes"})
        return special()
    def ok(n):
        if n == 2: bits = b(1, 6) + b(0, 5)
        elif n == 3: bits = b(2, 6) + b(1, 6) + b(0, 4)
        else: bits = b(3, 6) + b(2, 6) + b(1, 6) + b(0, 3)
        return ("wf", n, bits)
    def second(lo2, hi2, n, below, above):
        l, h = rg(1)
        if h < lo2: return ("mal", {below})
        if l > hi2: return ("mal", {above})
        if l < lo2 or h > hi2: return ("split", 1)
        return ok(n)
    if hi <= 0xc1: return upto(1, lambda: ("mal", {"Overlong"}))
    if lo < 0xc2: return ("split", 0)
    if hi <= 0xdf: return upto(1, lambda: ok(2))
    if lo < 0xe0: return ("split", 0)
    if lo == hi == 0xe0: return upto(2, lambda: second(0xa0, 0xbf, 3, "Overlong", "?"))
    if lo == hi == 0xed: return upto(2, lambda: second(0x80, 0x9f, 3, "?", "InvalidCodePoint"))
    if hi <= 0xef and lo >= 0xe1 and not lo <= 0xed <= hi: return upto(2, lambda: ok(3))
    if lo < 0xf0: return ("split", 0)
    if lo == hi == 0xf0: return upto(3, lambda: second(0x90, 0xbf, 4, "Overlong", "?"))
    if lo == hi == 0xf4: return upto(3, lambda: second(0x80, 0x8f, 4, "?", "InvalidCodePoint"))
    if 0xf1 <= lo and hi <= 0xf3: return upto(3, lambda: ok(4))
    if 0xf5 <= lo and hi <= 0xf7: return upto(3, lambda: ("mal", {"InvalidCodePoint"}))
    if lo >= 0xf8: return ("mal", {"CharTooLong", "MissingBytes"})
    return ("split", 0)


def complete(w, s, base, then, k0=0):
    """fork s until the character at position k0 is classified: [(state, class)]"""
    out = []
    todo = [s]
    while todo:
        x = todo.pop()
        c = classify(x, lambda k: w.byte(x, base, k0 + k))
        if c[0] == "split":
            j = c[1]
            v = w.byte(x, base, k0 + j)
            todo.extend(w.split(x.copy() if v is None else x, base, k0 + j, FINE if j == 0 else FINE2))
            continue
        out.append((x, c))
    return out


def same(s, v, bits, w=32):
    """is integer v the value with these bits: True, False or None"""
    if not isinstance(v, I): return None
    want = s.frombits(tuple(bits), w, 0)
    wl, wh = s.bounds(want)
    lo, hi = s.bounds(v)
    if lo < 0: lo, hi = lo % (1 << w), hi % (1 << w)
    if hi < wl or lo > wh: return False
    got = s.bitsof(v, w)
    if got is None: return None
    full = tuple(s.fixbit(e) for e in tuple(bits) + (0,) * (w - len(bits)))
    return got == full
