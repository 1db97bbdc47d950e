"""C22: global objects never use one another before they are constructed."""
from sa.facts import Node, show

EXPLAIN = ("For every object with static storage duration that is initialised dynamically, the functions its initialiser can run (calls, constructors, "
           "callables handed to calls, virtual targets) are followed through the whole program, and every other dynamically initialised global they mention "
           "must be initialised earlier by the rules of C++: defined earlier in the same translation unit, or an inline variable whose definition comes "
           "first in every translation unit that defines the user. Variables of other translation units and static members of class templates have no order.")
RULES = {"init-order": "whatever a dynamic initialiser can mention is constant-initialised or ordered before it",
         "dtor-order": "what the destructor of a global mentions is destroyed after it"}
ASSUME = ["the program is linked from all sources of libs/ in an arbitrary order"]


def isdyn(v):
    if v.get("constexpr") or v.get("slocal"): return False
    if v.get("cinit"): return False
    if "cinit" in v: return True
    t = v["t"].strip() if v["t"].k != "ref" else v["t"]
    while t.k == "array" and t.to is not None: t = t.to
    return t.k == "rec"


def calls(p, n):
    """own functions that evaluating node n itself can run"""
    if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXInheritedCtorInitExpr", "CXXNewExpr",
               "CXXDeleteExpr", "CXXRewrittenBinaryOperator"):
        yield from p.targets(n)
    if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
        # callables handed on
        for a in n.c[1:] if n.k != "CXXOperatorCallExpr" else n.c:
            x = a
            while x is not None and x.k not in ("LambdaExpr", "DeclRefExpr") and len([c for c in x.c if c is not None]) == 1: x = [c for c in x.c if c is not None][0]
            if x is None: continue
            if x.k == "LambdaExpr" or x.t is not None and x.t.strip().lam:
                yield from p.lambdas.get(x.lam or x.t.strip().lam, ())
            elif x.k == "DeclRefExpr" and x.d.get("fn") and x.f in p.fns: yield p.fns[x.f]


class Uses:
    def __init__(self, p):
        self.p = p
        self.direct = {}
        self.memo = {}

    def of(self, nodes):
        gs, fs = {}, []
        skip = set()
        for n in nodes:
            if n.k == "LambdaExpr":
                for x in n.walk():
                    if x is not n: skip.add(id(x))
            if id(n) in skip: continue
            if n.k in ("DeclRefExpr", "MemberExpr") and n.g and n.var in self.p.gvars:
                u = n.up
                if u is not None and u.k == "UnaryOperator" and u.op == "&": continue
                gs.setdefault(n.var, n)
            fs.extend(calls(self.p, n))
        return gs, fs

    def fn(self, f):
        if f.id not in self.direct: self.direct[f.id] = self.of(f.nodes())
        return self.direct[f.id]

    def reach(self, nodes):
        """global -> (node that mentions it, path of functions)"""
        gs, fs = self.of(nodes)
        res = {g: (n, ()) for g, n in gs.items()}
        seen = {}
        todo = [(f, (f.q,)) for f in fs]
        while todo:
            f, path = todo.pop()
            if f.id in seen: continue
            seen[f.id] = path
            g2, f2 = self.fn(f)
            for g, n in g2.items(): res.setdefault(g, (n, path))
            todo.extend((h, path + (h.q,)) for h in f2)
        return res, seen


def before(p, v, w):
    """is v initialised before w in every program?"""
    if v.get("tmpl"): return False
    units = [u for u, o in p.gorder.items() if w["gvar"] in o]
    if not units or w.get("tmpl"): return False
    if not v.get("inline"):
        # same translation unit (a header's non-inline constants are per unit)
        pass
    return all(v["gvar"] in p.gorder[u] and p.gorder[u][v["gvar"]] < p.gorder[u][w["gvar"]] for u in units)


def check(ctx):
    p = ctx.p
    u = Uses(p)
    k = fns = 0
    for w in p.gvars.values():
        if not isdyn(w): continue
        k += 1
        if not isinstance(w.get("init"), Node):
            ctx.ok("init-order", w, f"{w['q']}: default-initialised")
            continue
        gs, seen = u.reach(list(w["init"].walk()))
        fns += len(seen)
        ctx.ok("init-order", w, f"{w['q']}: {len(seen)} functions, {len(gs)} globals")
        for g, (n, path) in gs.items():
            v = p.gvars[g]
            if v is w or not isdyn(v): continue
            ctx.check(before(p, v, w), "init-order", n if n.of else w, f"{w['q']} uses {v['q']}",
                      f"the initialiser of {w['q']} ({w['file']}:{w['l']}) can use {v['q']} ({v['file']}:{v['l']}) before it is constructed"
                      + (f", through {' > '.join(path)}" if path else ""), key=f"{w['q']} {v['q']}")
        # destruction is the reverse of construction
        t = w["t"].strip()
        for f in p.fns.values():
            if f.kind == "dtor" and f.cls and t.k == "rec" and f.clst is not None and f.clst.strip().s.replace("const ", "") == t.s.replace("const ", "") and f.body is not None:
                gs, _ = u.reach(f.nodes())
                for g, (n, path) in gs.items():
                    v = p.gvars[g]
                    if v is w or not isdyn(v): continue
                    ctx.check(before(p, v, w), "dtor-order", n, f"~{w['q']} uses {v['q']}",
                              f"the destructor of {w['q']} can use {v['q']} after it was destroyed", key=f"dtor {w['q']} {v['q']}")
    ctx.info["dynamic_globals"] = k
    ctx.info["functions_followed"] = fns
    ctx.info["globals"] = len(p.gvars)
    ctx.need(k >= 1, f"only {k} dynamically initialised globals found")
