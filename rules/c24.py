"""C24: cells of data files are converted exactly or rejected, and rows must have the columns of the header."""
from sa.absint import Client, Frame, I, Interp, K, Limit, Outcome, State
from sa.exc import short
from sa.facts import Node

EXPLAIN = ("Abstract interpretation of the functions of ColumnFile that convert a cell, with a cell of unknown size and contents. What tests and searches "
           "say about the characters is kept as sets of character values (predicates are evaluated for each of the 256), its size and the number it's "
           "converted to as intervals. On each path that returns, the number has to be exactly the one written in the cell and in the range of the result; "
           "a path that throws must be impossible for a valid cell. Reading a row is interpreted with abstract fields for each number of fields around the "
           "number of columns.")
RULES = {"exact": "a number that's returned is exactly the one in the cell: only digits, all of them, the right base, no value outside of the range of the result",
         "accepts": "a valid cell isn't rejected",
         "bool": "Y and T are true, N, F and an empty cell are false, everything else is rejected",
         "row": "a row is accepted exactly if it has as many fields as there are columns, and each field is stored at its own position",
         "header": "the position of a column is the one of its header, and unknown headers are rejected",
         "get": "the value that's returned for a column is the field at the position of its header"}
ASSUME = ["std::stoul and its kin throw if there's no number or it's out of range"]

DIG = frozenset(range(48, 58))
HEX = DIG | frozenset(range(65, 71))
ALLCH = frozenset(range(256))
CONV = {"std::stoul": 64, "std::stoull": 64, "std::stoi": 31, "std::stol": 63, "std::stoll": 63}
CELL = ("cell",)


def zeros(xs): return all(isinstance(x, I) and x.const() == 0 for x in xs)


def isstr(t):
    t = t.strip() if t is not None else None
    return t is not None and t.k == "rec" and t.n in ("std::basic_string", "std::basic_string_view")


class Cell(Client):
    """what's known about the characters is in env[loc + ("#all",)] (every one is in the set) and ("#some",) (sets in which not every one is)"""
    def __init__(self, p, getter="get"):
        self.p = p; self.getter = getter; self.und = []; self.looped = False; self.conv = []; self.trunc = []

    def inline(self, f, node): return f.body is not None and not (f.ret is not None and isstr(f.ret) and f.ret.k == "rec") and ("ColumnFile" in f.q or "lambda" in f.id or (f.file or "").endswith(("ColumnFile.cpp", "ColumnFile.h")))
    def truncated(self, it, s, fr, n, val): s.ts = (s.ts or ()) + (("trunc", n),)
    def wrapped(self, it, s, fr, n, val): s.ts = (s.ts or ()) + (("trunc", n),)

    def accepted(self, it, s, fr, n, v):
        """the character values for which a predicate is true"""
        fs = []
        if isinstance(v, tuple) and v and v[0] == "lam": fs = [g for g in self.p.lambdas.get(v[1], []) if g.body is not None]
        elif isinstance(v, tuple) and v and v[0] == "l" and isinstance(s.env.get(v[1]), tuple) and s.env[v[1]][:1] == ("lam",):
            return self.accepted(it, s, fr, n, s.env[v[1]])
        elif isinstance(v, tuple) and v and v[0] == "fn":
            nm = str(v[1]).split("::")[-1].split("(")[0]
            if nm in ("isdigit", "iswdigit"): return DIG
            if nm in ("isxdigit",): return HEX | frozenset(range(97, 103))
            fs = [g for g in self.p.fns.values() if g.id == v[1] and g.body is not None]
        for g in fs:
            if len(g.params) != 1: continue
            t = g.params[0]["t"].strip()
            if t.range is None: continue
            res = set()
            try:
                for ch in range(256):
                    x = ch - 256 if ch > 127 and t.range[0] < 0 and t.range[1] < 256 else ch
                    i2 = Interp(self.p, Cell(self.p), maxdepth=4)
                    st = State(); st.env[("v", "0", g.params[0]["var"])] = K(x)
                    outs = [o for o in i2.run(st, Frame(g, "0", 0, None, v[2] and dict(v[2]) if v[0] == "lam" else None, stack=(g.id,))) if o.thrown is None]
                    r = {o.state.truth(i2.tocond(o.state, o.val)) for o in outs}
                    if r == {True}: res.add(ch)
                    elif r != {False}: return None
            except Limit: return None
            return frozenset(res)
        return None

    def fuzzy(self, it, s, fr, b): s.ts = (s.ts or ()) + (("fuzzy",),)
    def entercatch(self, it, s, fr, b): s.ts = (s.ts or ()) + (("caught",),)

    def chars(self, s, loc): return s.env.get(loc + ("#all",), ALLCH)

    def restrict(self, s, loc, m, it=None):
        s.env[loc + ("#all",)] = self.chars(s, loc) & m

    def some_not(self, s, loc, m):
        """there's a character outside of m"""
        s.env[loc + ("#some",)] = s.env.get(loc + ("#some",), frozenset()) | {m}

    def either(self, it, s, loc, t, m, allv, elsev):
        """two states: every character is in m / there's one that isn't"""
        a = s.copy(); out = []
        z = it.size(a, loc, t)
        if self.chars(a, loc) & m or a.cmp("==", z, K(0)) is not False:
            self.restrict(a, loc, m)
            out.append((a, allv(a)))
        if not self.chars(s, loc) <= m and s.assume_cmp(">=", it.size(s, loc, t), K(1)):
            self.some_not(s, loc, m)
            out.append((s, elsev(s)))
        return out

    def call(self, it, s, fr, n, recv, args):
        nm = short(n.fq or ""); fq = n.fq or ""
        if nm == self.getter and n.own and "ColumnFile" in fq: return [(s, ("l", CELL))]
        if n.own: return None
        ls = recv[1] if isinstance(recv, tuple) and recv and recv[0] == "l" else None
        if ls is not None and self.iscell(s, ls): ls = CELL       # what's known about a copy is kept with the cell
        if ls is not None and n.c[0] is not None and isstr(n.c[0].t):
            if nm in ("find_first_not_of", "find_last_not_of") and args and isinstance(args[0], tuple) and args[0][:1] == ("lit",) and zeros(args[1:]):
                m = frozenset(ord(x) for x in args[0][1])
                return self.either(it, s, ls, n.c[0].t.strip(), m, lambda a: K((1 << 64) - 1), lambda a: it.symfor(a, f"pos@{fr.id}.{n.i}", None, 0, 1 << 62))
            if nm in ("find_first_of", "find_last_of") and args and isinstance(args[0], tuple) and args[0][:1] == ("lit",) and zeros(args[1:]):
                m = ALLCH - frozenset(ord(x) for x in args[0][1])
                return self.either(it, s, ls, n.c[0].t.strip(), m, lambda a: K((1 << 64) - 1), lambda a: it.symfor(a, f"pos@{fr.id}.{n.i}", None, 0, 1 << 62))
            if nm in ("begin", "cbegin", "end", "cend", "rbegin", "rend") and self.iscell(s, ls): return [(s, ("o", ("it", nm.lstrip("c"), ls)))]
            if nm in ("operator[]", "at", "front", "back") and self.iscell(s, ls):
                i = it.rv(s, args[0], n.c[1].t, n.c[1]) if args else K(0)
                if nm in ("front", "operator[]", "at") and isinstance(i, I) and i.const() is not None:
                    name = f"ch{i.const()}"
                    v = I(*s.rng[name], name, 0) if name in s.rng else it.symfor(s, name, None, -128, 127)
                    return [(s, v)]
                self.looped = True
        if fq in ("std::any_of", "std::all_of", "std::none_of", "std::ranges::any_of", "std::ranges::all_of", "std::ranges::none_of") or \
                n.k == "CXXOperatorCallExpr" and fq.startswith("std::ranges::") and any(x in fq for x in ("_any_of", "_all_of", "_none_of")):
            which = "any" if "any_of" in fq else "all" if "all_of" in fq else "none"
            vs = list(args)
            loc = None
            if len(vs) == 3 and all(isinstance(v, tuple) and v[:1] == ("o",) and isinstance(v[1], tuple) and v[1][0] == "it" for v in map(lambda v: self.valof(s, v), vs[:2])):
                a, b = self.valof(s, vs[0])[1], self.valof(s, vs[1])[1]
                if a[2] == b[2] and a[1] == "begin" and b[1] == "end": loc = a[2]
            elif len(vs) == 2 and isinstance(vs[0], tuple) and vs[0][:1] == ("l",): loc = CELL if self.iscell(s, vs[0][1]) else vs[0][1]
            if loc is not None:
                m = self.accepted(it, s, fr, n, vs[-1])
                if m is None: self.und.append(f"predicate at {n.of.file}:{n.l}"); self.looped = True; return None
                if which in ("any", "none"): m = ALLCH - m
                t, f = ("b", ("c", True)), ("b", ("c", False))
                tv, ev = (t, f) if which in ("all", "none") else (f, t)
                from sa.absint import b_int
                return self.either(it, s, loc, None, m, lambda a: tv, lambda a: ev)
            self.looped = True
        if n.k == "CXXOperatorCallExpr" and n.oper in ("==", "!="):
            vs = ([recv] if recv is not None else []) + list(args)
            ls = [v[1] for v in vs if isinstance(v, tuple) and v[:1] == ("l",) and self.iscell(s, v[1])]
            lit = [v[1] for v in vs if isinstance(v, tuple) and v[:1] == ("lit",)]
            if len(ls) == 1 and len(lit) == 1 and len(lit[0]) < 2:
                t, f = ("b", ("c", n.oper == "==")), ("b", ("c", n.oper != "=="))
                ls = [CELL]
                z = it.size(s, ls[0], None)
                k = len(lit[0]); out = []
                a = s.copy()
                if a.assume_cmp("!=", z, K(k)): out.append((a, f))
                if not s.assume_cmp("==", z, K(k)): return out
                if not k: return out + [(s, t)]
                x = ord(lit[0]) - (256 if ord(lit[0]) > 127 else 0)
                m = frozenset([ord(lit[0])])
                v = I(*s.rng["ch0"], "ch0", 0) if "ch0" in s.rng else it.symfor(s, "ch0", None, -128, 127)
                a = s.copy()
                if a.assume_cmp("!=", v, K(x)): self.some_not(a, ls[0], m); out.append((a, f))
                if s.assume_cmp("==", v, K(x)): self.restrict(s, ls[0], m); out.append((s, t))
                return out
        if fq in ("std::find_if", "std::find_if_not", "std::count_if", "std::for_each", "std::from_chars", "std::mismatch", "std::find", "std::regex_match", "std::ranges::for_each"):
            self.looped = True
        if fq in CONV and args and isinstance(args[0], tuple) and args[0][:1] == ("l",) and self.iscell(s, args[0][1]):
            loc = CELL
            base = K(10)
            if len(args) > 2 and args[2] is not None: base = it.rv(s, args[2], n.c[3].t, n.c[3])
            bc = base.const() if isinstance(base, I) else None
            e = s.copy()
            it.pending.append((Outcome(e, None, "std::invalid_argument", n), n))
            e.ts = (e.ts or ()) + (("failed", n),)
            if not s.assume_cmp(">=", it.size(s, loc, None), K(1)): return []
            v = it.symfor(s, "conv", None, 0 if "stou" in fq else -(1 << CONV[fq]), (1 << CONV[fq]) - 1)
            s.ts = (s.ts or ()) + (("conv", bc, s.env.get(loc + ("#part",), False), n),)
            # what was known about the characters of this copy
            s.env[CELL + ("#conv",)] = (self.chars(s, loc), bc)
            if bc is not None and self.chars(s, loc) <= (HEX if bc == 16 else DIG):
                zh = s.bounds(it.size(s, loc, None))[1]
                if not s.assume_cmp(">=", v, K(0)) or zh < 16 and not s.assume_cmp("<=", v, K(bc ** zh - 1)): return []
            return [(s, v)]
        if fq in ("strtoul", "strtoull", "strtol", "atoi", "atol", "std::strtoul", "std::strtol", "std::strtoull", "std::atoi"): self.looped = True
        return None

    def valof(self, s, v):
        if isinstance(v, tuple) and v[:1] == ("l",) and isinstance(s.env.get(v[1]), tuple): return s.env[v[1]]
        return v if isinstance(v, tuple) else (None,)

    def iscell(self, s, loc): return loc == CELL or s.env.get(loc + ("#iscell",)) is not None


def interp(p, f, cells=(), maxes=()):
    cl = Cell(p)
    it = Interp(p, cl, maxdepth=10, widen=8, maxtime=40)
    s = State()
    s.env[CELL + ("#iscell",)] = ("o", "cell")
    it.size(s, CELL, None)
    for i, q in enumerate(f.params):
        if isstr(q["t"]) and i in cells: s.alias[("0", q["var"])] = CELL
        elif i in dict(maxes): s.env[("v", "0", q["var"])] = K(dict(maxes)[i])
        elif q["t"].k == "ref": s.alias[("0", q["var"])] = ("obj", f"arg{i}")
    return cl, it, it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))


def poss(s, name):
    """possible values of a character"""
    if name not in s.rng: return None
    res = set()
    for v in range(-128, 128):
        a = s.copy()
        if v not in a.ne.get(name, ()) and a.assume_cmp("==", I(-128, 127, name, 0), K(v)): res.add(v & 255)
    return res


def valid_possible(s, cl, digits, smin, smax, lo, hi):
    """can this path be taken for a valid cell"""
    allm = cl.chars(s, CELL)
    ok = allm & digits
    z = s.env.get(CELL + ("#size",))
    if z is not None:
        a, b = s.bounds(z)
        if b < smin or a > smax: return False
    if not ok: return False
    for m in s.env.get(CELL + ("#some",), ()):
        if not ok - m: return False
    if "conv" in s.rng and any(e[0] == "conv" for e in s.ts or ()):
        a, b = s.bounds(I(*s.rng["conv"], "conv", 0))
        if b < lo or a > hi: return False
    return True


def number(c, p, f, digits, base, smin, smax, lo, hi, opt, cells, maxes, what):
    und = c.info["undecided"]
    try: cl, it, outs = interp(p, f, cells, maxes)
    except Limit: und.append(f"{f.q}: too many states"); return
    looped = cl.looped or any(n.k in ("CXXForRangeStmt", "ForStmt", "WhileStmt", "DoStmt") for g in it.fnseen if g in p.fns for n in p.fns[g].nodes())
    key = lambda r: f"{r} {f.q} {what}"
    n = 0
    for o in outs:
        s = o.state
        ev = s.ts or ()
        if any(e[0] == "fuzzy" for e in ev) or s.bools: und.append(f"{f.q}: condition that isn't tracked"); continue
        n += 1
        if o.thrown is not None:
            if any(e[0] == "failed" for e in ev) or looped: continue
            if any(e[0] == "caught" for e in ev) and not any(e[0] == "conv" for e in ev): continue   # a call in the try block threw
            if valid_possible(s, cl, digits, smin, smax, lo, hi):
                c.bad("accepts", o.node or f, f"({f.q}, {what}) a valid value is rejected", key=key("accepts"))
            else: c.ok("accepts", o.node or f, f"{f.q} {what}")
            continue
        v = o.val
        z = it.size(s, CELL, None)
        if opt:
            loc = v[1] if isinstance(v, tuple) and v[:1] == ("l",) else None
            if loc is None: und.append(f"{f.q}: result"); continue
            h = s.truth(it.tocond(s, it.opthas(s, loc)))
            if h is None: und.append(f"{f.q}: result"); continue
            if not h:
                if s.cmp("==", z, K(0)) is True: c.ok("exact", f, f"{f.q}: empty cell, no value")
                elif s.cmp("==", z, K(0)) is None or s.cmp("==", z, K(0)) is False: c.bad("exact", f, "no value is returned for a cell that isn't empty", key=key("exact"))
                continue
            v = it.load(s, loc + ("*",), None)
        elif isinstance(v, tuple) and v[:1] == ("l",): v = it.load(s, v[1], f.ret)
        if not isinstance(v, I): und.append(f"{f.q}: result"); continue
        conv = [e for e in ev if e[0] == "conv"]
        cut = [e for e in ev if e[0] == "trunc"]
        if cut and looped and not s.env.get(CELL + ("#conv",), (ALLCH, None))[0] <= digits: und.append(f"{f.q}: loop over the characters"); continue
        if cut: c.bad("exact", cut[-1][1], f"({f.q}, {what}) the number is cut to a smaller type without knowing that it fits", key=key("exact")); continue
        if v.const() is not None and not conv:
            if looped: und.append(f"{f.q}: constant result"); continue
            c.bad("exact", f, f"({what}) {v.const()} is returned for a cell that hasn't been converted", key=key("exact")); continue
        if len(conv) != 1 or v.sym != "conv":
            if len(conv) == 1 and s.bounds(v)[0] == s.bounds(v)[1] and "conv" in s.rng and s.rng["conv"] == s.bounds(v): pass
            else: und.append(f"{f.q}: result isn't followed to the conversion"); continue
        elif v.off: c.bad("exact", f, f"({what}) the number returned is {v.off:+d} of the one in the cell", key=key("exact")); continue
        known, b = s.env.get(CELL + ("#conv",), (ALLCH, None))
        if b != base:
            c.bad("exact", conv[0][3], f"({f.q}) the number is read in base {b}", key=key("exact")) if b is not None else und.append(f"{f.q}: base")
            continue
        if not known <= digits:
            if looped: und.append(f"{f.q}: loop over the characters")
            else:
                x = sorted(known - digits)
                x = [y for y in x if 32 < y < 127] or x
                c.bad("exact", conv[0][3], f"({f.q}) a cell with other characters than digits ('{chr(x[0])}' for example) is converted", key=key("exact"))
            continue
        a, b = s.bounds(z)
        if (a < smin or b > smax):
            c.bad("exact", conv[0][3], f"({f.q}) a cell of {max(b if b < 1 << 40 else smax + 1, 0) if b > smax else a} characters is converted", key=key("exact")); continue
        a, b = s.bounds(v)
        if a < lo or b > hi: c.bad("exact", conv[0][3], f"({f.q}, {what}) a number up to {b} is returned although the largest is {hi}", key=key("exact")); continue
        c.ok("exact", f, f"{f.q} {what}: [{a},{b}]")
    if not n: und.append(f"{f.q}: no path was followed")


def boolean(c, p, f):
    und = c.info["undecided"]
    try: cl, it, outs = interp(p, f)
    except Limit: und.append(f"{f.q}: too many states"); return
    T, F = {ord("Y"), ord("T")}, {ord("N"), ord("F")}
    for o in outs:
        s = o.state
        if s.bools or any(e[0] == "fuzzy" for e in s.ts or ()): und.append(f"{f.q}: condition that isn't tracked"); continue
        lo, hi = s.bounds(it.size(s, CELL, None))
        one = lo <= 1 <= hi
        q = poss(s, "ch0")
        if q is None: q = set(range(256))
        acc = "the cell " + (f"'{chr(min(q & (T | F)))}'" if q & (T | F) else "?")
        if o.thrown is not None:
            if one and q & (T | F): c.bad("bool", o.node or f, f"{acc} is rejected", key="bool rejected")
            elif lo == 0: c.bad("bool", o.node or f, "an empty cell is rejected", key="bool empty")
            else: c.ok("bool", o.node or f, "other cells are rejected")
            continue
        t = s.truth(it.tocond(s, o.val)) if o.val is not None else None
        if t is None: und.append(f"{f.q}: result"); continue
        bad = None
        if hi > 1: bad = "a cell of more than one character"
        elif t and lo == 0: bad = "an empty cell"
        elif one and hi == 1:
            w = q - (T if t else F)
            if w: bad = f"the cell '{chr(min([x for x in w if 32 < x < 127] or w))}'"
        if bad: c.bad("bool", f, f"{bad} is {'true' if t else 'false'}", key=f"bool {t}")
        else: c.ok("bool", f, f"{'true' if t else 'false'} for {''.join(map(chr, sorted(q)))[:4] if one and len(q) < 9 else 'empty'}")


class Row(Client):
    """nextRow and the header: the line has m fields, the last one empty or not"""
    def __init__(self, p, vals, n, m, last, delims=False):
        self.p = p; self.vals = vals; self.n = n; self.m = m; self.last = last

    def inline(self, f, node): return f.body is not None and not (f.ret is not None and isstr(f.ret) and f.ret.k == "rec") and ("ColumnFile" in f.q or "lambda" in f.id or (f.file or "").endswith("ColumnFile.cpp"))

    def fuzzy(self, it, s, fr, b): s.ts = (s.ts or ()) + (("fuzzy",),)

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""; nm = short(fq)
        ev = lambda *e: setattr(s, "ts", (s.ts or ()) + (e,))
        if fq == "std::getline" and recv is None and len(args) >= 2 and isinstance(args[1], tuple) and args[1][:1] == ("l",):
            dst = args[1][1]
            if not (isinstance(args[0], tuple) and args[0][:1] == ("l",) and args[0][1][0] == "this0"):
                k = s.env.get(("#k",), K(0)).const()
                have = self.m - 1 if self.last else self.m
                it.drop(s, dst)
                if k < have:
                    s.env[dst + ("#fld",)] = ("o", k); s.env[("#k",)] = K(k + 1)
                    return [(s, ("o", ("gl", True)))]
                return [(s, ("o", ("gl", False)))]
            a = s.copy()
            it.drop(s, dst)
            s.env[dst + ("#line",)] = ("o", "line")
            s.env[dst + ("#size",)] = K(0) if self.m == 1 and self.last else it.symfor(s, "linesize", None, max(1, self.m - 1), 1 << 40)
            a.ts = (a.ts or ()) + (("eof",),)
            return [(s, ("o", ("gl", True))), (a, ("o", ("gl", False)))]
        if isinstance(recv, tuple) and recv[:1] == ("o",) and isinstance(recv[1], tuple) and recv[1][0] == "gl":
            if nm == "operator bool": return [(s, ("b", ("c", recv[1][1])))]
            if nm in ("operator!", "fail"): return [(s, ("b", ("c", not recv[1][1])))]
        if nm in ("ends_with", "back") and isinstance(recv, tuple) and recv[:1] == ("l",) and recv[1] + ("#line",) in s.env:
            if nm == "ends_with": return [(s, ("b", ("c", self.last and self.m > 1)))]
        if nm == "operator=" and isinstance(recv, tuple) and recv[:1] == ("l",) and self.vals in recv[1]:
            i = recv[1].index(self.vals)
            k = recv[1][i + 2] if len(recv[1]) > i + 2 and recv[1][i + 1] == "[]" else None
            src = args[0][1] if args and isinstance(args[0], tuple) and args[0][:1] == ("l",) else None
            fld = s.env.get(src + ("#fld",), (None, None))[1] if src is not None else None
            ev("w", k[1] if isinstance(k, tuple) and k[0] == "k" else self.n - 1 if k == "last" else None, fld)
            return [(s, recv)]
        if nm == "clear" and isinstance(recv, tuple) and recv[:1] == ("l",) and self.vals in recv[1]:
            k = recv[1][-1]
            if isinstance(k, tuple) and k[0] == "k": ev("w", k[1], None); return [(s, None)]
            if k == "last": ev("w", self.n - 1, None); return [(s, None)]
        if nm == "number" and n.own: return [(s, I(*s.rng["num"], "num", 0) if "num" in s.rng else it.symfor(s, "num", None, 0, 1 << 20))]
        if nm == "find" and recv is not None and not n.own and n.c[0].t is not None and n.c[0].t.strip().n == "std::map":
            a = s.copy()
            ev("found")
            a.ts = (a.ts or ()) + (("absent",),)
            return [(s, ("o", ("fi", True))), (a, ("o", ("fi", False)))]
        if nm in ("end", "cend") and recv is not None and not n.own and n.c[0].t is not None and n.c[0].t.strip().n == "std::map": return [(s, ("o", ("fi", None)))]
        if n.k == "CXXOperatorCallExpr" and n.oper in ("==", "!="):
            vs = [s.env.get(v[1], v) if isinstance(v, tuple) and v[:1] == ("l",) else v for v in ([recv] if recv is not None else []) + list(args)]
            vs = [v[1] for v in vs if isinstance(v, tuple) and v[:1] == ("o",) and isinstance(v[1], tuple) and v[1][0] == "fi"]
            if len(vs) == 2 and sum(v[1] is None for v in vs) == 1:
                found = [v[1] for v in vs if v[1] is not None][0]
                return [(s, ("b", ("c", (not found) == (n.oper == "=="))))]
        return None

    def access(self, it, s, fr, n, base, idx):
        loc = base[0] if isinstance(base, tuple) and base and isinstance(base[0], tuple) else base
        if isinstance(loc, tuple) and self.vals in loc and isinstance(idx, I):
            lo, hi = s.bounds(idx)
            if hi >= self.n: s.ts = (s.ts or ()) + (("out", n, hi),)


def strvec(p):
    """the member of ColumnFile that holds the fields of the row"""
    for t, r in p.recs.items():
        if (r.get("q") or t).endswith("::ColumnFile"):
            return [x["n"] for x in r["fields"] if x["t"].strip().k == "rec" and x["t"].strip().n == "std::vector" and isstr(x["t"].strip().a[0])], \
                   [x["n"] for x in r["fields"] if x["t"].strip().k == "rec" and x["t"].strip().n == "std::vector" and x["t"].strip().a[0].range is not None]
    return [], []


def rows(c, p, f, vec):
    und = c.info["undecided"]
    for n in (1, 2, 3):
        for m in range(1, n + 3):
            for last in (False, True):
                cl = Row(p, vec, n, m, last)
                it = Interp(p, cl, maxdepth=6, widen=16, maxtime=20)
                s = State()
                s.env[("this0", vec, "#size")] = K(n)
                try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
                except Limit: und.append(f"{f.q}: too many states"); continue
                what = f"{n} column{'s' * (n > 1)}, {m} field{'s' * (m > 1)}, the last one {'empty' if last else 'not empty'}"
                for o in outs:
                    ev = o.state.ts or ()
                    if any(e[0] in ("fuzzy", "eof") for e in ev): 
                        if any(e[0] == "fuzzy" for e in ev): und.append(f"{f.q}: condition that isn't tracked")
                        continue
                    out = [e for e in ev if e[0] == "out"]
                    if out: c.bad("row", out[0][1], f"({what}) field {out[0][2]} is stored outside of the row", key="row outside"); continue
                    if o.thrown is not None:
                        c.check(m != n, "row", o.node or f, f"rejected: {what}", f"a valid row is rejected: {what}", key="row rejected")
                        continue
                    r = o.state.truth(it.tocond(o.state, o.val)) if o.val is not None else None
                    if r is None: und.append(f"{f.q}: result"); continue
                    if not r: c.bad("row", f, f"a row is taken for the end of the file: {what}", key="row end"); continue
                    if m != n: c.bad("row", f, f"a row with a wrong number of fields is accepted: {what}", key="row accepted"); continue
                    got = {}
                    lost = False
                    for e in ev:
                        if e[0] == "w":
                            if e[1] is None: lost = True
                            else: got[e[1]] = e[2]
                    if lost: und.append(f"{f.q}: position of a field"); continue
                    want = {k: k for k in range(n)}
                    if last: want[n - 1] = None
                    d = [k for k in range(n) if k not in got or got[k] != want[k]]
                    if d:
                        k = d[0]
                        c.bad("row", f, f"({what}) position {k} " + ("keeps the field of an earlier row" if k not in got else f"holds field {got[k]}" if got[k] is not None else "is empty"), key=f"row position")
                    else: c.ok("row", f, what)


def header(c, p, f, pos):
    und = c.info["undecided"]
    for m in (1, 2, 3):
        cl = Row(p, "?", 0, m, False)
        it = Interp(p, cl, maxdepth=6, widen=16, maxtime=20)
        s = State()
        for i, q in enumerate(f.params):
            if q["t"].k == "ref": s.alias[("0", q["var"])] = ("obj", f"arg{i}")
        try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit: und.append(f"{f.q}: too many states"); continue
        for o in outs:
            if o.thrown is not None: continue
            ev = o.state.ts or ()
            if any(e[0] == "absent" for e in ev):
                c.bad("header", f, "a header that isn't one of the columns is accepted", key="header unknown"); continue
            st = [(k, v) for k, v in o.state.env.items() if k[:2] == ("this0", pos) and len(k) == 4 and k[2] == "[]"]
            if len(st) != 1 or not isinstance(st[0][1], I): und.append(f"{f.q}: positions of headers"); continue
            k, v = st[0]
            if k[3][0] != "s" or k[3][1] != "num" or k[3][2]: und.append(f"{f.q}: number of the column"); continue
            if v.const() is None: und.append(f"{f.q}: position"); continue
            c.check(v.const() == m - 1, "header", f, f"header {m} is at position {m - 1}", f"the position of header {m} is {v.const()} instead of {m - 1}", key="header position")


def getter(c, p, f, vals, pos):
    """the value of a column is the one at the position of its header"""
    und = c.info["undecided"]
    cl = Row(p, "?", 0, 1, False)
    it = Interp(p, cl, maxdepth=6, widen=16, maxtime=20)
    s = State()
    for i, q in enumerate(f.params):
        if q["t"].k == "ref": s.alias[("0", q["var"])] = ("obj", f"arg{i}")
    try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
    except Limit: und.append(f"{f.q}: too many states"); return
    want = None
    for o in outs:
        if o.thrown is not None: continue
        v = o.val
        loc = v[1] if isinstance(v, tuple) and v[:1] == ("l",) else None
        if loc is None or loc[:2] != ("this0", vals) or len(loc) != 4: und.append(f"{f.q}: result"); continue
        x = [(k, w) for k, w in o.state.env.items() if k[:3] == ("this0", pos, "[]") and isinstance(w, I)]
        if len(x) != 1 or x[0][0][3][:2] != ("s", "num"): und.append(f"{f.q}: position"); continue
        w = x[0][1]
        k = loc[3]
        if x[0][0][3][2]: c.bad("get", f, f"the position of another column is used (number {x[0][0][3][2]:+d})", key="get number"); continue
        z = o.state.env.get(("this0", pos, "#size"))
        if not o.state.bools:
            num = I(*o.state.rng["num"], "num", 0)
            if z is None or o.state.cmp("<", num, z) is not True:
                c.bad("get", f, "a column made after the file was opened is looked up outside of the positions", key="get outside"); continue
            if o.state.cmp("!=", w, K((1 << 64) - 1)) is not True:
                c.bad("get", f, "a column that isn't in the file isn't rejected", key="get absent"); continue
        if k[0] == "s" and k[1] == w.sym: c.check(k[2] == w.off, "get", f, "field at the position of the header", f"the field {k[2] - w.off:+d} of the position of the header is returned", key="get field")
        elif k[0] == "s" and k[1] == "num": c.bad("get", f, "the number of the column is taken for its position", key="get field")
        else: und.append(f"{f.q}: field")


def check(c):
    p = c.p
    und = c.info.setdefault("undecided", [])
    fs = [f for f in p.fns.values() if f.cls and f.cls.endswith("ColumnFile") and f.body is not None and f.kind == "method"]
    U64 = (1 << 64) - 1
    seen = 0
    for f in sorted(fs, key=lambda f: f.id):
        nm = f.q.split("::")[-1].split("<")[0]
        rt = f.ret.strip() if f.ret is not None else None
        w = strvec(p)[1]
        if len(w) == 1 and any(q["t"].strip().n == "std::map" for q in f.params) and any(n.k == "CXXOperatorCallExpr" and n.oper == "[]" and n.c[0] is not None and
                n.c[0].k == "MemberExpr" and n.c[0].m == w[0] for n in f.nodes()): header(c, p, f, w[0])
        if f.acc == "private" or rt is None: continue
        opt = rt.k == "rec" and rt.n == "std::optional"
        vt = rt.a[0] if opt else rt
        if nm == "getBool": boolean(c, p, f); seen += 1; continue
        if nm == "nextRow":
            v = strvec(p)[0]
            if len(v) == 1: rows(c, p, f, v[0]); seen += 1
            continue
        if nm == "get":
            v, w = strvec(p)
            if len(v) == 1 and len(w) == 1: getter(c, p, f, v[0], w[0])
            continue
        if nm.startswith("getChar32") and vt.range is not None:
            number(c, p, f, HEX, 16, 4, 5, 0, 0xFFFFF, opt, (1,), (), "hexadecimal"); seen += 1; continue
        if nm.startswith(("getU", "getOptU")) and vt.range is not None and vt.range[0] == 0:
            seen += 1
            if len(f.params) > 1 and f.params[1]["t"].strip().range is not None:
                for m in (0, 1, 9, 255, 65535, U64):
                    number(c, p, f, DIG, 10, 1, 1 << 62, 0, m or U64, opt, (), ((1, m),), f"maximum {m or 'none'}")
            else: number(c, p, f, DIG, 10, 1, 1 << 62, 0, vt.range[1], opt, (), (), f"up to {vt.range[1]}")
    c.info["functions"] = seen
    c.info["undecided"] = sorted(set(und))
    c.need(seen >= 1, "the functions of ColumnFile that convert cells were not found")
