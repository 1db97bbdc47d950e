"""C09: at the end of input every loop that reads ends."""
import copy

from sa.absint import Client, Frame, I, Interp, K, Limit, NOT, State
from sa.exc import short
from sa.facts import Node, show

EXPLAIN = ("Abstract interpretation in which every read of a stream or of standard input can fail, and keeps failing from then on. From every function "
           "with a loop (or recursion) that reads, directly or through functions it calls, all paths after the first failed read are followed, through the "
           "calls and their results (the quit option or the default that Choice gives back at the end of input, flags set on the way, exceptions): the read must not "
           "be reached again in the same context.")
RULES = {"ends": "no path leads from a read that failed because the input has ended back to the same read of that input",
         "ends-self": "no function calls itself again after a read failed"}
ASSUME = ["a Choice's quit option differs from the other options (Choice::get throws otherwise)",
          "loops that only go over containers end"]

CREADS = {"getchar": -1, "fgetc": -1, "getc": -1, "fread": 0, "fgets": None, "scanf": -1, "fscanf": -1, "read": 0, "getline": None, "getwchar": -1}
RESET = {"open", "str", "clear", "seekg", "swap", "rdbuf", "operator="}
QUIT = 127


def istream(t):
    if t is None: return False
    t = t.strip()
    return t.k == "rec" and t.n in ("std::basic_istream", "std::basic_ifstream", "std::basic_istringstream", "std::basic_stringstream",
                                    "std::basic_fstream", "std::basic_iostream", "std::basic_ios")


def primitive(n):
    """(kind, stream expression) if n reads input"""
    if n.own or n.k not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return None
    fq = n.fq or ""
    s = short(fq)
    a = [x for x in n.c if x is not None]
    if n.k == "CallExpr":
        if fq == "std::getline" or s == "getline":
            x = [y for y in n.c[1:] if y is not None]
            if x and istream(x[0].t): return ("getline", x[0])
        if s in CREADS and (fq.startswith(("std::" + s, "::" + s)) or "::" not in fq) and s != "getline":
            if s == "read":
                x = n.c[1] if len(n.c) > 1 else None
            return ("c", None)
    if n.oper == ">>" or s == "operator>>":
        st = a[0] if a else None
        if st is not None and istream(st.t): return (">>", st)
    if n.k == "CXXMemberCallExpr" and n.c[0] is not None and s in ("get", "getline", "read", "readsome", "ignore", "peek"):
        t = n.c[0].t.deref() if n.arrow else n.c[0].t
        if istream(t): return ("get0" if s in ("get", "peek") and len(a) == 1 else "getline", n.c[0])
    return None


class Eof(Client):
    def __init__(self, p, reads):
        self.p = p; self.reads = reads
        self.viol = {}
        self.done = 0
        self.vals = {}

    def inline(self, f, n):
        if f.cfg is None: return False
        if f.id in self.reads: return True
        return len(f.cfg.blocks) <= 14 and not f.virt and (f.const or f.static or f.constexpr or f.lam is not None) and f.kind != "ctor" and not self.heavy(f)

    def heavy(self, f):
        if not hasattr(f, "_heavy9"):
            f._heavy9 = sum(1 for n in f.nodes() if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")) > 6
        return f._heavy9

    def sloc(self, it, s, fr, e):
        """where the state of the stream is kept: streams in variables and data members have their own, those behind pointers and globals are the console"""
        v = it.val(s, fr, e) if e is not None else None
        if isinstance(v, tuple) and v and v[0] == "l" and v[1][0] not in ("g", "h") and "*" not in v[1]: return v[1]
        if isinstance(v, tuple) and v and v[0] == "o9": return v[1]
        return ("#console",)

    def call(self, it, s, fr, n, recv, args):
        r = primitive(n)
        if r is not None:
            kind, st = r
            loc = self.sloc(it, s, fr, st)
            out = []
            eof = s.env.get(loc + ("#eof",))
            if eof is None:
                # it may work
                g = s.copy()
                self.havoc(it, g, fr, n, args)
                out.append((g, self.value(it, g, fr, n, kind, None, loc)))
            flavours = (True, False) if eof is None else (eof[1][1],)
            for fl in flavours:
                f = s.copy()
                key = loc + ("#n", fr.id, n.i)
                if key in f.env:
                    self.viol.setdefault((n, fr.fn.id), (fr, loc))
                    continue
                f.env[key] = K(1)
                f.env[loc + ("#eof",)] = ("b", ("c", fl))
                self.done += 1
                out.append((f, self.value(it, f, fr, n, kind, fl, loc)))
            return out
        s9 = short(n.fq or "")
        if not n.own and n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.c and n.c[0] is not None or n.k == "CXXOperatorCallExpr" and n.oper == "!":
            e = n.c[0] if n.c[0] is not None else n.c[1] if len(n.c) > 1 else None
            v = recv if n.c[0] is not None else args[0] if args else None
            t = e.t.deref() if n.arrow else e.t
            if isinstance(v, tuple) and v and v[0] == "o9" and (s9.startswith("operator bool") or s9 == "operator!"):
                c = ("c", v[2])
                return [(s, ("b", NOT(c) if s9 == "operator!" else c))]
            if istream(t):
                loc = self.sloc(it, s, fr, e)
                eof = s.env.get(loc + ("#eof",))
                if s9 in RESET:
                    for k in [k for k in s.env if k[:len(loc)] == loc and len(k) > len(loc) and k[len(loc)] in ("#eof", "#n")]: del s.env[k]
                if eof is not None:
                    if s9 == "eof": return [(s, eof)]
                    if s9 in ("fail", "operator!"): return [(s, ("b", ("c", True)))]
                    if s9 == "good" or s9.startswith("operator bool"): return [(s, ("b", ("c", False)))]
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            for g in self.p.targets(n):
                if g.id in fr.stack and g.id in self.reads and ("#console", "#eof") in s.env:
                    self.viol.setdefault((n, "self"), (fr, ("#console",)))
        return None

    def havoc(self, it, s, fr, n, args):
        for a, v in zip(n.c[1:], args):
            if a is not None and a.lv and isinstance(v, tuple) and v and v[0] == "l": it.drop(s, v[1])

    def value(self, it, s, fr, n, kind, fl, loc):
        if kind == "c":
            if fl is None: return it.fresh(s, n, n.t)
            x = CREADS[short(n.fq)]
            return K(x) if x is not None else ("p", "null", K(0))
        if kind == "get0": return it.fresh(s, n, n.t) if fl is None else K(-1)
        return ("o9", loc, fl is None)

    merge = True

    def slim(self, s): prune(s)

    def outkey(self, v): return repr(v)

    def head(self, it, s, fr, bid):
        for k, v in list(s.env.items()):
            if isinstance(v, I) and v.const() is not None and "#n" not in k:
                vs = self.vals.setdefault((fr.id, bid, k), set())
                vs.add(v.const())
                if len(vs) > 2: del s.env[k]

    def returned(self, it, outs, fr):
        """only what tells results apart"""
        seen = {}
        for o in outs:
            v = o.val
            prune(o.state, fr.id, v[1] if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], tuple) else None)
            seen.setdefault((o.state.key(), repr(o.val), o.thrown is None), o)
        return list(seen.values())


def prune(s, gone=None, keep=None):
    """forget all that isn't a plain constant"""
    for k, v in list(s.env.items()):
        if gone is not None and k[0] in ("v", "tmp", "r") and (k[1] == gone or str(k[1]).startswith(gone + "/")) \
                and (keep is None or k[:len(keep)] != keep):
            del s.env[k]; continue
        if k[-1] == "#size": del s.env[k]; continue
        if isinstance(v, I):
            if v.const() is None: del s.env[k]
        elif isinstance(v, tuple) and v:
            if v[0] == "b" and v[1][0] != "c" or v[0] in ("o", "lit"):
                if not (k[-1] == "#has"): del s.env[k]
        elif v is None: del s.env[k]
    used = set()
    def mark(c):
        if isinstance(c, I):
            if c.sym is not None: used.add(c.sym)
        elif isinstance(c, tuple):
            for x in c: mark(x)
    for v in s.env.values(): mark(v)
    for r in list(s.rng):
        if r not in used: s.forget(r)
    for b in list(s.bools):
        if b not in keepsyms(s): del s.bools[b]


def keepsyms(s):
    r = set()
    for v in s.env.values():
        if isinstance(v, tuple) and v and v[0] == "b" and v[1][0] == "sym": r.add(v[1][1])
    return r


class Interp9(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.memo9 = {}

    def load(self, s, loc, t, n=None):
        # the quit option: a data member that is an optional character
        if loc and loc[-1] == "*" and loc[0] != "v" and t is not None and t.strip().range == (-128, 127) and loc not in s.env: return K(QUIT)
        return super().load(s, loc, t, n)

    def inline(self, s, fr, n, g, this, args, vals, caps=None):
        """a call is analysed once for each state of what it can reach"""
        reach, todo = set(), [this, vals, caps]
        while todo:
            x = todo.pop()
            if isinstance(x, dict): todo.extend(x.values()); continue
            if isinstance(x, (list, set, frozenset)): todo.extend(x); continue
            if not isinstance(x, tuple): continue
            if len(x) >= 3 and x[0] in LOCAL:
                if x[:3] not in reach:
                    reach.add(x[:3])
                    todo.extend(v for k, v in s.env.items() if k[:3] == x[:3])
            else: todo.extend(x)
        ns = s.copy()
        gone = {k: v for k, v in ns.env.items() if k[0] in LOCAL and k[:3] not in reach}
        for k in gone: del ns.env[k]
        al, ns.alias = ns.alias, {}
        memo, ns.memo = ns.memo, {}
        self.cl.slim(ns)
        key = (fr.id, n.i, g.id, repr(this), repr(vals), repr(caps), ns.key())
        r = self.memo9.get(key)
        if r is None:
            old, self.pending = self.pending, []
            try:
                res = super().inline(ns, fr, n, g, this, args, vals, caps)
                r = (res, self.pending)
            finally: self.pending = old
            self.memo9[key] = r
        nid = f"{fr.id}/{n.i}"
        def back(st):
            st = st.copy()
            for k, v in gone.items():
                if k[1] != nid and not str(k[1]).startswith(nid + "/"): st.env.setdefault(k, v)
            for k, v in al.items():
                if k[0] != nid and not str(k[0]).startswith(nid + "/"): st.alias.setdefault(k, v)
            st.memo = dict(memo)
            return st
        for o, at in r[1]: self.pending.append((copied(o, back(o.state)), at))
        return [(back(st), v) for st, v in r[0]]


LOCAL = ("v", "tmp", "r")


def copied(o, st):
    o = copy.copy(o)
    o.state = st
    return o


def reading(p):
    """functions that read, directly or through what they call"""
    callers = {}
    base = set()
    for f in p.fns.values():
        if f.cfg is None or not f.file.startswith(("libs/", "apps/")): continue
        for n in f.nodes():
            if primitive(n) is not None: base.add(f.id)
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                for g in p.targets(n): callers.setdefault(g.id, set()).add(f.id)
            if n.k == "LambdaExpr":
                for g in p.lambdas.get(n.lam or (n.t.strip().lam if n.t else None), ()): callers.setdefault(g.id, set()).add(f.id)
    todo, reads = list(base), set(base)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in reads:
                reads.add(c); todo.append(c)
    return base, reads


def reads_in_loop(p, f, reads):
    """blocks on a cycle of the function's graph that read"""
    c = f.cfg
    res = set()
    for b in c.blocks.values():
        if not any(isinstance(n, Node) and (primitive(n) is not None or n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
                   "CXXTemporaryObjectExpr") and any(g.id in reads for g in p.targets(n))) for n in b.elems): continue
        seen, todo = set(), [x for x in b.succ if x is not None]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            todo.extend(y for y in c.blocks[x].succ if y is not None)
        if b.id in seen: res.add(b.id)
    return res


def check(ctx):
    p = ctx.p
    base, reads = reading(p)
    und, loops, steps = [], 0, 0
    hits = {}
    for fid in sorted(reads):
        f = p.fns[fid]
        if f.cfg is None or f.lam is not None: continue
        cl = Eof(p, reads)
        it = Interp9(p, cl, maxdepth=8, widen=60, maxstates=60000, maxtime=60)
        heads = reads_in_loop(p, f, reads)
        selfcall = any(f in p.targets(n) for n in f.nodes() if n.k in ("CallExpr", "CXXMemberCallExpr"))
        if not heads and not selfcall: continue
        loops += len(heads)
        s = State()
        try: it.run(s, Frame(f, "0", 0, ("this0",) if f.cls and not f.static else None, stack=(f.id,)))
        except Limit as e: und.append(f"{f.q}: {str(e)[:60]}")
        steps += cl.done
        ctx.ok("ends", f, f"{f.q}: {len(heads)} loops, {cl.done} failed reads followed")
        for (n, _), (fr, loc) in cl.viol.items(): hits.setdefault((n, _ == "self"), (f, fr, loc))
    for (n, self_), (f, fr, loc) in hits.items():
        path = []
        x = fr
        while x is not None and x.up is not None:
            path.append(f"from {x.up[1].of.q} ({x.up[1].of.file}:{x.up[1].l})")
            x = x.up[0]
        if self_: ctx.bad("ends-self", n, f"{f.q} calls itself again after the input has ended", key=f"self {f.q}")
        else:
            ctx.bad("ends", n, f"in a loop of {f.q} the read is repeated although it has already failed because the input ended", key=f"loop {f.q} {n.of.q}", path=path)
    ctx.info["functions_that_read"] = len(reads)
    ctx.info["primitive_readers"] = len(base)
    ctx.info["loops_analysed"] = loops
    ctx.info["failed_reads_followed"] = steps
    ctx.info["undecided"] = und
