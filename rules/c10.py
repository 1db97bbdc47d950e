"""C10: the terminal is always left the way it was found."""
from sa.absint import Client, Frame, I, Interp, K, Limit, State
from sa.exc import Exc, short
from sa.facts import Node, show

EXPLAIN = ("Typestate analysis by path-partitioned abstract interpretation: the settings of the terminal are 'found' or 'changed'; a "
           "termios object holds the found settings when it was filled by tcgetattr before any change and no member of it was "
           "written since (copies included). Every path out of every function that changes the settings - or out of every caller, "
           "when the change and the restoration are in separate helpers - must end with 'found'. Destructors run, also when an "
           "exception leaves.")
RULES = {"restored": "on every path to an exit of the function (or of all its callers) the terminal has its original settings again",
         "no-other-way": "terminal settings are changed through tcsetattr only"}
ASSUME = ["a call that restores the settings succeeds", "the process is not killed by a signal while it waits for a key"]


class Term(Client):
    unwinds = True

    def __init__(self, p): self.p = p; self.touch = None

    def touches(self):
        """functions that (transitively) use the termios interface"""
        if self.touch is None:
            t = {f.id for f in self.p.fns.values() if any(n.k == "CallExpr" and short(n.fq) in ("tcsetattr", "tcgetattr") for n in f.nodes())}
            ch = True
            while ch:
                ch = False
                for f in self.p.fns.values():
                    if f.id in t: continue
                    for n in f.nodes():
                        if n.f and any(g.id in t for g in self.p.targets(n)) or n.k == "LambdaExpr" and any(g.id in t for g in self.p.lambdas.get(n.lam, ())):
                            t.add(f.id); ch = True; break
                    else:
                        if f.cfg is not None and any(isinstance(el, dict) and el.get("f") in t for b in f.cfg.blocks.values() for el in b.elems):
                            t.add(f.id); ch = True
            self.touch = t
        return self.touch

    def inline(self, f, n):
        if f.cfg is None: return False
        if f.id in self.touches(): return True
        return len(f.cfg.blocks) <= 4 and any("termios" in q["t"].s for q in f.params) or f.kind in ("ctor", "dtor") and \
            f.id in self.touches() or f.ret is not None and "termios" in f.ret.s

    def outkey(self, v): return None if not (isinstance(v, tuple) and v and v[0] == "l") else repr(v)

    def slim(self, s):
        keep = [k[:-1] for k in s.env if k and k[-1] == "#orig"]
        s.env = {k: v for k, v in s.env.items() if any(k[:len(x)] == x for x in keep)}
        s.rng = {}; s.dif = {}; s.ne = {}; s.bools = {}

    def call(self, it, s, fr, n, recv, vals):
        if n.k != "CallExpr" or n.own: return None
        sh = short(n.fq)
        if sh == "tcgetattr":
            v = vals[1]
            if isinstance(v, tuple) and v[0] == "p" and isinstance(v[1], tuple):
                it.kill(s, v[1])
                s.env[v[1] + ("#orig",)] = ("o", "found" if s.ts == "found" else "changed")
            a, b = s.copy(), s
            return [(b, K(0)), (a, K(-1))]
        if sh == "tcsetattr":
            v = vals[2]
            orig = False
            if isinstance(v, tuple) and v[0] == "p" and isinstance(v[1], tuple): orig = self.isorig(s, v[1])
            if orig:
                a = s.copy(); s.ts = a.ts = "found"
                return [(s, K(0)), (a, K(-1))]
            a = s.copy()
            s.ts = "changed"
            return [(s, K(0)), (a, K(-1))]
        return None

    def isorig(self, s, loc):
        if s.env.get(loc + ("#orig",)) != ("o", "found"): return False
        for k, v in s.env.items():
            if k[:len(loc)] == loc and k != loc + ("#orig",) and k != loc:
                last = str(k[-1])
                if isinstance(v, I) and v.sym is not None and v.off == 0 and str(v.sym).startswith("m") and str(v.sym).endswith(last): continue
                return False
        return True


def check(ctx):
    p = ctx.p
    e = Exc(p)
    callers = {}
    for f in p.fns.values():
        for n in f.nodes():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                for g in p.targets(n): callers.setdefault(g.id, set()).add(f.id)
        if f.lam and f.inside: callers.setdefault(f.id, set()).add(f.inside)
        if f.cfg is not None:
            for b in f.cfg.blocks.values():
                for el in b.elems:
                    if isinstance(el, dict) and el.get("f"): callers.setdefault(el["f"], set()).add(f.id)
    cl = Term(p)
    base = [f for f in p.fns.values() if any(n.k == "CallExpr" and short(n.fq) == "tcsetattr" for n in f.nodes())]
    memo = {}

    def balanced(f, start="found"):
        if f.id in memo: return memo[f.id]
        it = Interp(p, cl, maxdepth=5)
        it.fork_own = lambda n: any(e.esc.get(g.id) and not g.nx and not cl.inline(g, n) for g in p.targets(n))
        s = State(); s.ts = start
        try: outs = it.run(s, Frame(f, "0", 0, ("this0",) if f.cls else None, stack=(f.id,)))
        except Limit as x: outs = None
        memo[f.id] = outs
        return outs

    def judge(f, depth, seen):
        """None when fine, else (function, outcome)"""
        outs = balanced(f)
        if outs is None:
            ctx.info.setdefault("undecided", []).append(f"{f.q} is too large to explore")
            return None
        bad = [o for o in outs if o.state.ts != "found"]
        if not bad: return None
        cs = [p.fns[c] for c in callers.get(f.id, ()) if c in p.fns and c not in seen]
        if not cs or depth >= 3: return f, bad[0]
        # a helper: all its callers have to make up for it (they inline it)
        for c in cs:
            memo.pop(c.id, None)
            w = judge(c, depth + 1, seen | {f.id})
            if w is not None: return f, bad[0]
        return None

    for f in base:
        w = judge(f, 0, {f.id})
        n = len([1 for x in f.nodes() if x.k == "CallExpr" and short(x.fq) == "tcsetattr"])
        if w is None: ctx.ok("restored", f, f"{f.q}: {n} calls of tcsetattr, restored on every path")
        else:
            o = w[1]
            ctx.bad("restored", f, f"{f.q} can {'throw' if o.thrown else 'return'} with changed terminal settings", key=f"terminal {f.q}")
    for f in p.fns.values():
        for n in f.nodes():
            if n.k == "CallExpr" and not n.own and short(n.fq) in ("system", "ioctl", "initscr", "cbreak", "raw", "noecho", "stty"):
                ctx.bad("no-other-way", n, f"{short(n.fq)}() may change the terminal settings", key=f"other {f.q}")
    ctx.ok("no-other-way", "libs, apps", f"{len(p.fns)} functions searched")
    ctx.floor("restored", 0, "")
    ctx.info["functions_changing_the_terminal"] = len(base)
