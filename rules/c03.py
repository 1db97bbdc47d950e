"""C03: UTF-8 is decoded, encoded and validated exactly."""
from sa.absint import Frame, I, Interp, K, Limit, State
from sa.utf8 import CODES, IMP, LEAD, Walker, complete, isbase, same

EXPLAIN = ("Path-partitioned abstract interpretation of fromUtf8, fromUtf8ToWstring, getCode, toUtf8 and the validation functions, "
           "including everything they call: the bytes of an unknown zero-terminated string are read lazily and partitioned into the "
           "groups of byte values that UTF-8 distinguishes, values are kept bit by bit, and loops are covered by states relative to the "
           "current position. For every path the appended code points (or bytes) are compared, bit by bit, with what UTF-8 prescribes for "
           "the groups of the bytes that were consumed.")
RULES = {
    "decode-item": "the code points appended for the bytes consumed in a loop iteration are exactly what UTF-8 prescribes: the character "
                   "itself, or U+FFFD for a malformed sequence, which may only swallow continuation bytes",
    "decode-end": "decoding ends exactly at the terminator or when the requested number of characters is reached",
    "get-code": "getCode returns the code point of the first character, U+FFFD when it is malformed and 0 for an empty string",
    "encode": "toUtf8 appends exactly the shortest UTF-8 form of a code point, and U+FFFD's for surrogates and too large values",
    "validate": "validation reports exactly the well-formed multi-byte characters as valid, and the error kind otherwise",
    "in-string": "no byte after the terminator is read",
}
ASSUME = ["a function reached through an unresolved call doesn't modify the string that is being decoded"]


class W(Walker):
    def __init__(self, c):
        super().__init__(c.p)
        self.c = c
        self.mode = None
        self.root = None
        self.nheads = 0

    def more(self, it, s, fr, n, recv, vals, short, fq):
        # elements of an input sequence of code points
        if n.k == "CXXOperatorCallExpr" and n.oper == "*" and "iterator" in (n.c[0].t.s if n.c and n.c[0] is not None and n.c[0].t is not None else "") \
                and n.t is not None and n.t.strip().range is not None and n.t.strip().w == 32:
            return self.element(s, n)
        if self.mode == "encode" and n.c and n.c[0] is not None and short in ("operator[]", "at", "front", "back") and n.t is not None \
                and n.t.strip().range is not None and n.t.strip().w == 32 and "basic_string" in (n.c[0].t.s if n.c[0].t is not None else ""):
            return self.element(s, n)
        return None

    def element(self, s, n):
        out = []
        sg = n.t.strip().sg
        for a, b in CODES[:-1] + [(CODES[-1][0], 0x7fffffff), (0x80000000, 0xffffffff)] if sg else CODES:
            x = s.copy()
            nm = f"el.{n.of.q.split('::')[-1]}.{n.i}"
            x.forget(nm)
            x.rng[nm] = (a, b)
            x.env[("#el",)] = x.env.get(("#el",), ()) + (I(a, b, nm, 0),)
            v = I(a, b, nm, 0)
            if sg:
                # the same bits read as a signed type
                v = x.frombits(x.bitsof(v, 32), 32, 1)
            out.append((x, v))
        return out

    def objs(self, s):
        """strings being built: [(location, items)]"""
        return [(k[:-1], v[1]) for k, v in s.env.items() if k[-1] == "#seq" and v[0] == "seq" and k[0] != "tmp"]

    # -- what a loop iteration did
    def rule_head(self, it, s, fr, bid, base, m):
        self.nheads += 1
        where = it.cl.here(fr, bid)
        if self.mode == "decode":
            for loc, items in self.objs(s):
                if m == 0 and not items: continue
                if base is None: self.undecided.append("position not tracked"); s.env[IMP] = K(1); continue
                self.items(s, base, 0, m, list(items), where)
        elif self.mode == "encode":
            els = s.env.pop(("#el",), ())
            for loc, items in self.objs(s):
                self.encoded(s, els, items, where)
        for loc, items in self.objs(s):
            # the items are done with; the size keeps its relation to the limit
            z = s.env.get(loc + ("#size",))
            lim = I(*s.rng["limit"], "limit", 0) if "limit" in s.rng else None
            less = lim is not None and isinstance(z, I) and s.cmp("<", z, lim) is True
            leq = lim is not None and isinstance(z, I) and s.cmp("<=", z, lim) is True
            nm = "size" + ".".join(map(str, loc))
            lo = 0
            if isinstance(z, I) and s.bounds(z)[0] > 0: lo = 1
            s.forget(nm)
            s.rng[nm] = (lo, 1 << 40)
            s.env[loc + ("#size",)] = I(lo, 1 << 40, nm, 0)
            if less: s._dif(nm, "limit", -1)
            elif leq: s._dif(nm, "limit", 0)
            s.env[loc + ("#seq",)] = ("seq", ())

    def here(self, fr, bid):
        for b in (fr.fn.cfg.blocks[bid],):
            for el in b.elems:
                if el is not None and not isinstance(el, dict): return el
        return fr.fn

    def items(self, s, base, start, end, items, where):
        """bytes [start, end) were consumed and items appended"""
        todo = [(s.copy(), start, list(items))]
        while todo:
            x, pos, its = todo.pop()
            if pos == end and not its: self.c.ok("decode-item", where, f"{self.root}: iteration"); continue
            if pos >= end:
                self.verdict(x, "decode-item", where, f"{self.root}: {len(its)} code points too many are appended (after {self.seen(x, base, start, end)})")
                continue
            for y, cl in complete(self, x, base, None, pos):
                what = self.seen(y, base, pos, end)
                if cl[0] == "end":
                    self.verdict(y, "decode-item", where, f"{self.root}: goes past the terminator"); continue
                if not its:
                    self.verdict(y, "decode-item", where, f"{self.root}: consumes {what} without appending a code point"); continue
                if cl[0] == "wf":
                    if pos + cl[1] > end:
                        self.verdict(y, "decode-item", where, f"{self.root}: stops inside the character {what}"); continue
                    r = same(y, its[0], cl[2])
                    if r is False: self.verdict(y, "decode-item", where, f"{self.root}: the wrong code point is appended for {what}"); continue
                    if r is None: self.undecided.append("value of an appended code point"); continue
                    todo.append((y, pos + cl[1], its[1:])); continue
                r = same(y, its[0], tuple((0xfffd >> i) & 1 for i in range(16)))
                if r is False: self.verdict(y, "decode-item", where, f"{self.root}: the malformed sequence {what} doesn't give U+FFFD"); continue
                if r is None: self.undecided.append("value of an appended code point"); continue
                # swallowed with it: continuation bytes only
                e = pos + 1
                bad = None
                last = end if len(its) == 1 else pos + 1
                while e < last:
                    v = self.byte(y, base, e)
                    l, h = y.bounds(v) if v is not None else (0, 255)
                    if l >= 0x80 and h <= 0xbf: e += 1
                    else: bad = e; break
                if bad is not None:
                    self.verdict(y, "decode-item", where, f"{self.root}: the malformed sequence {what} swallows a byte that isn't a continuation byte"); continue
                todo.append((y, e, its[1:]))

    def seen(self, s, base, a, b):
        r = []
        for k in range(a, max(b, a + 1)):
            v = self.byte(s, base, k)
            if v is None: r.append("??"); continue
            l, h = s.bounds(v)
            r.append(f"{l:02x}" if l == h else f"{l:02x}-{h:02x}")
        return "<" + " ".join(r) + ">"

    def verdict(self, s, rule, where, msg):
        if self.precise(s): self.c.bad(rule, where, msg, key=f"{rule} {self.root}")
        else: self.undecided.append(msg)

    # -- encoding
    def expect(self, s, v):
        """bytes (bit lists) of the UTF-8 form of code point v, whose class is known"""
        lo, hi = s.bounds(v)
        b = s.bitsof(v, 32)
        if b is None: return None
        c8 = lambda x: tuple((x >> i) & 1 for i in range(8))
        if hi <= 0x7f: return [b[:7] + (0,)]
        if 0x80 <= lo and hi <= 0x7ff: return [b[6:11] + (0, 1, 1), b[:6] + (0, 1)]
        if 0x800 <= lo and hi <= 0xffff and not (lo <= 0xdfff and hi >= 0xd800): return [b[12:16] + (0, 1, 1, 1), b[6:12] + (0, 1), b[:6] + (0, 1)]
        if 0x10000 <= lo and hi <= 0x10ffff: return [b[18:21] + (0, 1, 1, 1, 1), b[12:18] + (0, 1), b[6:12] + (0, 1), b[:6] + (0, 1)]
        if 0xd800 <= lo and hi <= 0xdfff or lo > 0x10ffff: return [c8(0xef), c8(0xbf), c8(0xbd)]
        return None

    def encoded(self, s, els, items, where):
        if items and not els: self.undecided.append("origin of the appended bytes"); return
        want = []
        for v in els:
            e = self.expect(s, v)
            if e is None: self.undecided.append("class of a code point"); return
            want += e
        what = ", ".join("U+%X..%X" % s.bounds(v) for v in els) or "nothing"
        if len(want) != len(items):
            self.verdict(s, "encode", where, f"{self.root}: {len(items)} bytes are appended for {what}, not {len(want)}"); return
        for i, (w, g) in enumerate(zip(want, items)):
            r = same(s, g, w, 8)
            if r is False: self.verdict(s, "encode", where, f"{self.root}: byte {i + 1} appended for {what} is wrong"); return
            if r is None: self.undecided.append("value of an appended byte"); return
        self.c.ok("encode", where, f"{self.root}: {what}")


def param(s, f, i, v):
    q = f.params[i]
    if isinstance(v, tuple) and v[0] == "obj": s.alias[("0", q["var"])] = v
    else: s.env[("v", "0", q["var"])] = v


def check(c):
    p = c.p
    roots = {}
    for f in p.fns.values():
        if f.file == "libs/utils/src/Utf8.cpp" and f.q.startswith("kanji_tools::") and not f.anon or f.q.split("<")[0] == "kanji_tools::validateUtf8" or f.q.split("<")[0] == "kanji_tools::validateMBUtf8":
            if f.cfg is not None and f.kind == "function": roots[f.id] = f
    und = c.info.setdefault("undecided", [])
    nout = nst = 0

    def run(f, w, s):
        nonlocal nst
        it = Interp(p, w, maxdepth=12, widen=400, maxstates=60000)
        try: outs = it.run(s, Frame(f, "0", 0, None, stack=(f.id,)))
        except Limit:
            und.append(f"{f.id[:80]}: too many states"); outs = []
        nst += it.nstates
        for kind, n, msg in w.events: c.bad("in-string", n, f"{w.root}: {msg}", key=f"in-string {f.q}")
        if not w.events: c.ok("in-string", f, f"{w.root}: {w.reads} reads")
        und.extend(f"{w.root}: {x}" for x in sorted(set(w.undecided)))
        return outs

    def isptr(t): return t.k == "ptr" and t.to.strip().w == 8
    def isstr(t):
        t = t.strip()
        return t.k == "rec" and t.n == "std::basic_string" and getattr(t.a[0], "w", 0) == 8
    def strarg(w, s, f):
        """first parameter: the unknown string"""
        t = f.params[0]["t"]
        if isptr(t):
            param(s, f, 0, ("p", "str0", K(0)))
            return True
        if isstr(t):
            param(s, f, 0, ("obj", "in"))
            w.instr.add(("obj", "in"))
            s.bools["nzstr0"] = True
            return True
        return False

    def nullstr(s): return s.bools.get("nzstr0") is False

    found = set()
    for f in sorted(roots.values(), key=lambda f: f.id):
        nm = f.q.split("::")[-1].split("<")[0]
        if nm not in ("fromUtf8", "fromUtf8ToWstring", "getCode", "toUtf8", "validateMBUtf8", "validateUtf8", "isValidMBUtf8", "isValidUtf8"): continue
        if not f.params: continue
        sig = f"{nm}({', '.join(q['t'].s.split('<')[0] for q in f.params)})"
        if nm in ("fromUtf8", "fromUtf8ToWstring"):
            for lim in ((0, 1) if len(f.params) > 1 else (None,)):
                w = W(c); w.mode = "decode"; w.root = sig + ("" if lim is None else " without limit" if lim == 0 else " with limit")
                s = State()
                if not strarg(w, s, f): continue
                found.add(nm)
                if lim == 0: param(s, f, 1, K(0))
                elif lim == 1:
                    s.rng["limit"] = (1, 1 << 40); param(s, f, 1, I(1, 1 << 40, "limit", 0)); w.prm = {"limit"}
                w.maxd = True
                for o in run(f, w, s):
                    nout += 1
                    if o.thrown is not None: continue
                    decoded(c, w, f, o, lim)
        elif nm == "getCode":
            w = W(c); w.root = sig
            s = State()
            if not strarg(w, s, f): continue
            found.add(nm)
            for o in run(f, w, s):
                nout += 1
                if o.thrown is not None: continue
                if nullstr(o.state):
                    judge(c, w, "get-code", f, o.state, same(o.state, o.val, ()), "a null pointer doesn't give 0"); continue
                for x, cl in complete(w, o.state, "str0", None):
                    what = w.seen(x, "str0", 0, cl[1] if cl[0] == "wf" else 1)
                    want = () if cl[0] == "end" else cl[2] if cl[0] == "wf" else tuple((0xfffd >> i) & 1 for i in range(16))
                    judge(c, w, "get-code", f, x, same(x, o.val, want), f"the wrong code is returned for {what}")
        elif nm == "toUtf8":
            t = f.params[0]["t"].strip()
            w = W(c); w.mode = "encode"; w.root = sig
            if t.range is not None:
                found.add(nm)
                for a, b in CODES:
                    s = State()
                    s.rng["el.arg"] = (a, b)
                    v = I(a, b, "el.arg", 0)
                    s.env[("#el",)] = (v,)
                    w.prm = {"el.arg"}
                    param(s, f, 0, s.frombits(s.bitsof(v, 32), 32, 1) if t.sg and b > 0x7fffffff else v)
                    if t.sg and b > 0x7fffffff:
                        # split where the sign changes
                        for a2, b2 in ((a, 0x7fffffff), (0x80000000, b)):
                            s2 = s.copy(); s2.rng["el.arg"] = (a2, b2)
                            param(s2, f, 0, s2.frombits(s2.bitsof(v, 32), 32, 1))
                            for o in run(f, w, s2): nout += 1; returned(c, w, f, o)
                        continue
                    for o in run(f, w, s): nout += 1; returned(c, w, f, o)
            elif t.k == "rec" and t.n == "std::basic_string":
                found.add(nm + "s")
                s = State(); param(s, f, 0, ("obj", "in"))
                for o in run(f, w, s): nout += 1; returned(c, w, f, o)
        else:
            ones = [i for i, q in enumerate(f.params) if q["t"].k == "bool"]
            errs = [i for i, q in enumerate(f.params) if q["t"].k == "ref" and "Utf8Result" in q["t"].s]
            for one in (False, True):
                w = W(c); w.root = f"{sig} sizeOne={one}"
                s = State()
                t = f.params[0]["t"]
                if t.k == "ref" and t.strip().k == "ptr" and isptr(t.strip()):
                    s.alias[("0", f.params[0]["var"])] = ("obj", "sp"); s.env[("obj", "sp")] = ("p", "str0", K(0))
                elif not strarg(w, s, f): continue
                found.add(nm)
                if ones: param(s, f, ones[0], ("b", ("c", one)))
                elif one: continue
                if errs: param(s, f, errs[0], ("obj", "err"))
                for o in run(f, w, s):
                    nout += 1
                    if o.thrown is not None: continue
                    validated(c, w, f, o, nm, one, bool(errs), nullstr(o.state))
    c.need({"fromUtf8", "getCode", "toUtf8", "validateMBUtf8"} <= found, "the public UTF-8 functions were not found: " + ", ".join(sorted(found)))
    c.info.update(paths=nout, states=nst, roots=sorted(found))


def judge(c, w, rule, f, s, r, msg):
    if r is False: w.verdict(s, rule, f, f"{w.root}: {msg}")
    elif r is None: c.info["undecided"].append(f"{w.root}: {rule}")
    else: c.ok(rule, f, w.root)


def enumval(p, name):
    q, _, k = name.rpartition("::")
    e = p.enums.get(q)
    for x in e["vals"] if e is not None else ():
        if x[0] == k: return x[1]
    return None


def decoded(c, w, f, o, lim):
    s = o.state
    if s.bools.get("nzstr0") is False or o.val is None: return
    loc = o.val[1] if isinstance(o.val, tuple) and o.val[0] == "l" else None
    q = s.env.get(loc + ("#seq",)) if loc else None
    if q is None or q[0] != "seq": c.info["undecided"].append(f"{w.root}: result not tracked"); return
    # where decoding stands: the furthest position any variable refers to
    ptrs = [(v[1], s.bounds(v[2])) for k, v in s.env.items() if isinstance(v, tuple) and v[:1] == ("p",) and isbase(v[1]) and ("#gone", v[1]) not in s.env]
    if not ptrs or any(l != h for b, (l, h) in ptrs) or len({b for b, _ in ptrs}) != 1:
        c.info["undecided"].append(f"{w.root}: position not tracked"); return
    base = ptrs[0][0]
    end = max(l for _, (l, h) in ptrs)
    if end or q[1]: w.items(s, base, 0, end, list(q[1]), f)
    v = w.byte(s, base, end)
    l, h = s.bounds(v) if v is not None else (0, 255)
    z = s.env.get(loc + ("#size",))
    if lim == 1 and isinstance(z, I):
        L = I(*s.rng["limit"], "limit", 0)
        r = s.cmp("<=", z, L)
        judge(c, w, "decode-end", f, s, r, "the result can be longer than the limit")
        full = s.cmp("==", z, L)
    else: full = False
    if h == 0: c.ok("decode-end", f, w.root); return
    if full is True: c.ok("decode-end", f, w.root); return
    if full is None and l == 0: judge(c, w, "decode-end", f, s, None, "")
    elif full is None: judge(c, w, "decode-end", f, s, None, "")
    else: judge(c, w, "decode-end", f, s, False, f"decoding stops before {w.seen(s, base, end, end + 1)} although neither the end nor the limit is reached")


def returned(c, w, f, o):
    if o.thrown is not None: return
    s = o.state
    loc = o.val[1] if isinstance(o.val, tuple) and o.val and o.val[0] == "l" else None
    q = s.env.get(loc + ("#seq",)) if loc else None
    if q is None or q[0] != "seq": c.info["undecided"].append(f"{w.root}: result not tracked"); return
    w.encoded(s, s.env.get(("#el",), ()), q[1], f)


def validated(c, w, f, o, nm, one, haserr, null):
    s = o.state
    p = c.p
    MB = lambda x: enumval(p, "kanji_tools::MBUtf8Result::" + x)
    U8 = lambda x: enumval(p, "kanji_tools::Utf8Result::" + x)
    def isk(v, k):
        if isinstance(v, tuple) and v[:1] == ("b",):
            t = s.truth(v[1])
            return None if t is None else t == bool(k)
        if not isinstance(v, I): return None
        lo, hi = s.bounds(v)
        if lo == hi: return lo == k
        return False if k < lo or k > hi else None
    def report(x, mb, errs, what):
        if nm == "validateMBUtf8":
            judge(c, w, "validate", f, x, isk(o.val, MB(mb)), f"{what} isn't reported as {mb}")
            if haserr and errs:
                e = x.env.get(("obj", "err"))
                rs = [isk(e, U8(k)) for k in errs] if e is not None else [False]
                judge(c, w, "validate", f, x, True if True in rs else None if None in rs else False, f"the error reported for {what} isn't {' or '.join(sorted(errs))}")
        elif nm == "validateUtf8":
            rs = [isk(o.val, U8(k)) for k in (errs or {"Valid"})]
            judge(c, w, "validate", f, x, True if True in rs else None if None in rs else False, f"the result for {what} isn't {' or '.join(sorted(errs or {'Valid'}))}")
        elif nm == "isValidMBUtf8": judge(c, w, "validate", f, x, isk(o.val, mb == "Valid"), f"the answer for {what} is wrong")
        elif nm == "isValidUtf8": judge(c, w, "validate", f, x, isk(o.val, not errs), f"the answer for {what} is wrong")
    if null: report(s, "NotMultiByte", None, "a null pointer"); return
    for x, cl in complete(w, s, "str0", None):
        if cl[0] == "end": report(x, "NotMultiByte", None, "an empty string"); continue
        if cl[0] == "wf" and cl[1] == 1: report(x, "NotMultiByte", None, "a single-byte character"); continue
        if cl[0] == "wf":
            what = w.seen(x, "str0", 0, cl[1])
            if not one: report(x, "Valid", None, what); continue
            for y in w.split(x, "str0", cl[1], [(0, 0), (1, 255)]):
                if y.bounds(w.byte(y, "str0", cl[1]))[1] == 0: report(y, "Valid", None, what)
                else: report(y, "NotValid", {"StringTooLong"}, what + " followed by more")
            continue
        report(x, "NotValid", cl[1], "the malformed sequence " + w.seen(x, "str0", 0, 4))
