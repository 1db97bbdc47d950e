"""C08: noexcept functions, destructors and constant-evaluated helpers never let an exception out (it would kill the process)."""
from sa.absint import Client, Frame, I, Interp, K, Limit, State
from sa.exc import Exc, ANY, short, args
from sa.facts import Node, show

EXPLAIN = ("Interprocedural exception-escape analysis: for every function that is noexcept (declared, defaulted, destructor or "
           "implied) no exception type may reach its boundary. A library call that throws only for an out-of-range position "
           "(substr, at, ...) is discharged when the abstract interpreter proves the position in range on every path to it.")
RULES = {"noexcept-escape": "no exception can reach the boundary of a noexcept function",
         "in-range": "a position argument on such a path is proved to be in range"}
ASSUME = ["allocation failure is not considered", "library functions throw only what the table in sa/exc.py lists"]

POS = {"substr", "compare", "replace", "erase", "insert", "copy", "at"}


class Bounds(Client):
    def __init__(self, p): self.p = p; self.res = {}

    def inline(self, f, n): return f.cfg is not None and len(f.cfg.blocks) <= 6 and not f.virt

    def call(self, it, s, fr, n, recv, args_):
        if n.k == "CXXMemberCallExpr" and not n.own and short(n.fq) in POS and n.c[0] is not None and len(n.c) > 1 and n.c[1] is not None:
            rt = n.c[0].t.deref() if n.arrow else n.c[0].t.strip()
            loc = it.objloc(s, fr, n.c[0], recv, bool(n.arrow))
            i = it.rv(s, args_[0], n.c[1].t, n.c[1])
            ok = False
            if isinstance(i, I):
                lo, hi = s.bounds(i)
                ok = lo >= 0 and s.cmp("<" if short(n.fq) == "at" else "<=", i, it.size(s, loc, rt)) is True
            self.res.setdefault(n, []).append(ok)
        return None


def proven(p, f, n):
    cl = Bounds(p)
    try: Interp(p, cl, maxdepth=3).run(State(), Frame(f, "0", 0, ("this0",) if f.cls else None))
    except (Limit, Exception): return False
    r = cl.res.get(n)
    return bool(r) and all(r)


class Exc2(Exc):
    """escape analysis with proved positions removed"""

    def __init__(self, p):
        self.proved = {}
        super().__init__(p)

    def std(self, n):
        r = super().std(n)
        if r == ["std::out_of_range"] and n.k == "CXXMemberCallExpr" and short(n.fq) in POS:
            if n not in self.proved: self.proved[n] = proven(self.p, n.of, n)
            if self.proved[n]: return []
        return r


def check(ctx):
    p = ctx.p
    e = Exc2(p)
    k = 0
    for f in p.fns.values():
        if not f.nx: continue
        k += 1
        r = e.raw(f)
        if not r: ctx.ok("noexcept-escape", f, f"{f.q}")
        for t, w in r.items():
            ctx.bad("noexcept-escape", w[0], f"{'an exception' if t == ANY else t} can reach the boundary of {f.q}, which is noexcept "
                    f"(the process would be terminated)", key=f"noexcept {f.q} {t}", path=e.trace(w[1], t) if w[1] else ())
    for n, ok in e.proved.items():
        if ok: ctx.ok("in-range", n)
    ctx.info["noexcept_functions"] = k
    ctx.info["position_arguments_proved"] = sum(e.proved.values())
    ctx.info["position_arguments_considered"] = len(e.proved)
    ctx.floor("noexcept-escape", 300, "noexcept functions")
