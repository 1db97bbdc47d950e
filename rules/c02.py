"""C02: reading UTF-8 never goes past the terminator of the string."""
from sa.absint import Frame, I, Interp, K, Limit, State
from sa.utf8 import IMP, LEAD, NEXT, Walker, isbase

EXPLAIN = ("Path-partitioned abstract interpretation of every public function that walks a zero-terminated byte string through a pointer, "
           "and of everything it calls: the string is unknown, its bytes are partitioned lazily into the groups UTF-8 distinguishes, and loops "
           "are covered by states relative to the current position. At every read of byte k, all bytes before k must be known not to be the "
           "terminator; when a member function returns, the same must hold for the position it leaves behind.")
RULES = {
    "in-string": "no byte after the terminator is read, whatever the bytes are",
    "position": "the position a member function leaves in its object is not past the terminator",
}
ASSUME = ["the string passed in is zero-terminated (and the pointer kept in an object points into such a string)"]


class W(Walker):
    """follows the calls through which the string is read, and small helpers; others only get values"""
    reach = frozenset()
    forgetful = True
    holders = {}

    def inline(self, f, n):
        if f.cfg is None or not f.file.startswith("libs/"): return False
        if f.id in self.reach or f.lam or "lambda" in f.id: return True
        if f.cls in self.holders or any(q["t"].k == "ref" and bytep(q["t"]) for q in f.params): return True
        return sum(1 for _ in f.nodes()) <= 40


def bytep(t):
    t = t.strip()
    return t.k == "ptr" and getattr(t.to.strip(), "w", 0) == 8


def bytestr(t):
    t = t.strip()
    return t.k == "rec" and t.n == "std::basic_string" and bool(t.a) and getattr(t.a[0], "w", 0) == 8


def derefs(f):
    for n in f.nodes():
        x = None
        if n.k == "UnaryOperator" and n.op == "*": x = n.c[0]
        elif n.k == "ArraySubscriptExpr": x = n.c[0]
        if x is not None and x.t is not None and bytep(x.t): return True
    return False


def check(c):
    p = c.p
    direct = {f.id for f in p.fns.values() if f.file.startswith("libs/") and f.cfg is not None and derefs(f)}
    # functions from which such a read is reached
    reach = set(direct)
    ch = True
    callees = {}
    for f in p.fns.values():
        if f.file.startswith("libs/") and f.cfg is not None:
            callees[f.id] = {g.id for n in f.nodes() if n.f for g in p.targets(n)}
    while ch:
        ch = False
        for k, v in callees.items():
            if k not in reach and v & reach: reach.add(k); ch = True
    holders = {}
    for t, r in p.recs.items():
        fs = [x["n"] for x in r["fields"] if bytep(x["t"])]
        if fs and (r.get("file") or "").startswith("libs/"): holders[r["q"] if "q" in r else t] = (r, fs)
    und = c.info.setdefault("undecided", [])
    roots = 0
    states = reads = 0
    for f in sorted((p.fns[k] for k in reach), key=lambda f: f.id):
        if f.kind not in ("function", "method") or f.anon or f.cls is not None and f.acc == "private" or "lambda" in f.id: continue
        isstr = [i for i, q in enumerate(f.params) if bytep(q["t"]) and q["t"].k == "ptr" or q["t"].k == "ref" and q["t"].to.const and bytestr(q["t"])]
        mem = holders.get(f.cls) if f.cls else None
        if not isstr and not (mem and not f.static): continue
        if not any(bytep(f.params[i]["t"]) for i in isstr) and f.id not in direct and not mem:
            # a string argument alone is only interesting when its characters are walked by pointer
            if not any(n.fq and n.fq.endswith(("::c_str", "::data")) for n in f.nodes()): continue
        roots += 1
        w = W(p); w.reach = reach; w.holders = holders; w.constroot = f.const
        s = State()
        for i, q in enumerate(f.params):
            if i in isstr:
                if bytestr(q["t"]):
                    s.alias[("0", q["var"])] = ("obj", f"in{i}"); s.env[("obj", f"in{i}", "#seq")] = ("from", "str0", K(0))
                else: s.env[("v", "0", q["var"])] = ("p", "str0", K(0))
            elif q["t"].k == "ref": s.alias[("0", q["var"])] = ("obj", f"arg{i}")
        this = ("this0",) if f.cls and not f.static else None
        if mem and this:
            for m in mem[1]: s.env[this + (m,)] = ("p", "str0", K(0))
            for x in mem[0]["fields"]:
                if bytestr(x["t"]): w.instr.add(this + (x["n"],))
            s.bools["nzstr0"] = True
        it = Interp(p, w, maxdepth=12, widen=400, maxstates=250000, maxtime=60)
        try: outs = it.run(s, Frame(f, "0", 0, this, stack=(f.id,)))
        except Limit:
            und.append(f"{f.id[:90]}: too many states"); outs = []
        states += it.nstates; reads += w.reads
        for kind, n, msg in w.events: c.bad("in-string", n, f"(from {f.q}) {msg}", key=f"in-string {n.of.q}")
        if not w.events: c.ok("in-string", f, f"{f.id[:80]}: {w.reads} reads on {it.nstates} states")
        und.extend(f"{f.q}: {x}" for x in sorted(set(w.undecided)))
        if mem and this and not f.static:
            for o in outs: position(c, w, f, o, this, mem[1])
    c.need(roots >= 1, "no function that walks a byte string was found")
    c.info.update(roots=roots, states=states, reads=reads)


def position(c, w, f, o, this, fields):
    s = o.state
    for m in fields:
        v = s.env.get(this + (m,))
        if not (isinstance(v, tuple) and v[:1] == ("p",) and isbase(v[1])) or ("#gone", v[1]) in s.env: continue
        lo, hi = s.bounds(v[2])
        if lo != hi: c.info["undecided"].append(f"{f.q}: position not tracked"); continue
        bad = None
        if ("#past", v[1]) in s.env: bad = s.env[("#past", v[1])].lo
        for j in range(lo):
            b = w.byte(s, v[1], j)
            l, h = s.bounds(b) if b is not None else (0, 255)
            if l == 0 and not 0 in s.ne.get(b.sym if b is not None else None, ()): bad = j; break
        if bad is None: c.ok("position", f, f"{f.q}: {m}")
        elif w.precise(s): c.bad("position", f, f"{m} is left at byte {lo} although byte {bad} can be the terminator", key=f"position {f.q}")
        else: c.info["undecided"].append(f"{f.q}: position")
