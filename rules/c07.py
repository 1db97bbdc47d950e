"""C07: no exception is lost, and the programs tell the user about every one."""
from sa.absint import Client, Frame, I, Interp, Limit, State
from sa.exc import Exc, ANY, short, trybody
from sa.cfgx import Flow
from sa.facts import Node, show

EXPLAIN = ("Interprocedural exception-escape analysis over every function of the libraries and programs (throw expressions, "
           "rethrows, virtual calls to all overriders, callables given to library code, a table of throwing library functions), "
           "filtered by the try blocks around each site; plus a path exploration of each program's main that tracks the caught "
           "state, what was written to standard error and the returned status.")
RULES = {
    "main-escape": "no exception type can leave a program's main (nor the entry function of a thread)",
    "thread-escape": "no exception type can leave a callable run directly by std::thread",
    "status-error": "every path of main through a handler writes the exception's what() to std::cerr and returns non-zero",
    "status-ok": "every path of main that caught nothing returns 0",
    "no-swallow": "outside the programs' main, no path through a handler completes normally: it throws again",
    "no-exit": "no library or program code ends the process by itself (exit, abort, terminate, ...)",
    "std-type": "everything thrown derives from std::exception, so what() exists for the message",
}
ASSUME = ["allocation failure is not considered", "library functions throw only what the table in sa/exc.py lists"]
EXITS = {"exit", "_exit", "_Exit", "abort", "terminate", "quick_exit", "longjmp", "raise", "kill", "__assert_fail",
         "__builtin_trap", "__builtin_abort"}


class MainClient(Client):
    """s.ts = (a handler was entered, its message was written to std::cerr)"""

    def __init__(self, p, files, exc):
        self.p = p; self.files = files; self.exc = exc
        self.handlers = set()

    def inline(self, f, n): return f.file in self.files and f.cfg is not None

    def entercatch(self, it, s, fr, b): s.ts = (True, s.ts[1])

    def call(self, it, s, fr, n, recv, args):
        if n.k == "CXXOperatorCallExpr" and n.oper == "<<" or n.k in ("CallExpr", "CXXMemberCallExpr") and short(n.fq) in ("operator<<", "write", "puts", "fputs", "print", "println"):
            to = recv if recv is not None else (args[0] if args else None)
            def cerr(v): return isinstance(v, tuple) and len(v) > 1 and v[0] == "l" and v[1][:1] == ("g",) and v[1][1] in ("std::cerr", "std::clog")
            if cerr(to) or any(cerr(a) for a in args):
                for x in n.walk():
                    if x.k in ("CallExpr", "CXXMemberCallExpr") and short(x.fq) == "what": s.ts = (s.ts[0], True)
                    elif x.k == "DeclRefExpr" and not x.g:
                        v = it.val(s, fr, x)
                        if isinstance(v, tuple) and v and v[0] == "l": v = s.env.get(v[1])
                        if isinstance(v, tuple) and len(v) > 1 and v[1] == "what()": s.ts = (s.ts[0], True)
                return [(s, to)]
            return [(s, to)]
        if n.k in ("CallExpr", "CXXMemberCallExpr") and short(n.fq) == "what": return [(s, ("p", "what()", I(0, 0)))]
        return None


def mains(p): return [f for f in p.fns.values() if f.name == "main" and f.cls is None and f.file.startswith("apps/")]


def check(ctx):
    p = ctx.p
    e = Exc(p)
    ms = mains(p)
    ctx.need(len(ms) >= 4, f"4 programs expected, {len(ms)} found")
    for f in ms:
        for t, w in e.raw(f).items():
            ctx.bad("main-escape", w[0], f"an exception ({'of unknown type' if t == ANY else t}) can leave main", key=f"escape {f.file} {t}",
                    path=e.trace(f.id, t))
        if not e.raw(f): ctx.ok("main-escape", f, f"{f.file}: nothing can leave main")
        paths(ctx, p, e, f)
    # threads
    for f in p.fns.values():
        for n in f.nodes():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not n.own and short(n.fq) in ("thread", "jthread"):
                for g in e.callables(n):
                    for t, w in e.esc[g].items():
                        ctx.bad("thread-escape", n, f"{t} can leave the function run by this thread", path=e.trace(g, t))
    # handlers outside main, exits, thrown types
    nr = e.never_returns()
    for f in p.fns.values():
        for n in f.nodes():
            if n.k in ("CallExpr", "CXXMemberCallExpr") and not n.own and short(n.fq) in EXITS:
                ctx.bad("no-exit", n, f"ends the process without going through main: {show(n)[:60]}")
            if n.k == "CXXThrowExpr" and n.d.get("tt") is not None:
                t = n.d["tt"].strip()
                ctx.check(e.isa(t.n or t.s, "std::exception"), "std-type", n, f"throws {t.n or t.s}",
                          f"throws {t.n or t.s}, which is not a std::exception")
        if f.name == "main" and f.file.startswith("apps/"): continue
        for n in f.nodes():
            if n.k != "CXXTryStmt": continue
            for h in n.d.get("h", ()):
                w = swallows(e, nr, f, n, h)
                if w is None: ctx.ok("no-swallow", n, f"handler of {f.q} throws on every path")
                elif not e.inside(f, trybody(n)): ctx.ok("no-swallow", n, f"nothing can reach the handler of {f.q}")
                else: ctx.bad("no-swallow", w if isinstance(w, Node) else n, f"a handler in {f.q} can complete normally: the error is lost",
                              key=f"swallow {f.q}")
    ctx.ok("no-exit", "libs, apps", f"{sum(len(f.nodes()) for f in p.fns.values())} nodes searched")
    ctx.info["functions_that_may_throw"] = sum(1 for f in e.esc.values() if f)
    ctx.info["throw_expressions"] = sum(1 for f in p.fns.values() for n in f.nodes() if n.k == "CXXThrowExpr")
    ctx.floor("std-type", 10, "throw expressions")


def swallows(e, nr, f, tr, h):
    """None when every path from the handler's entry throws, else a node"""
    g = f.cfg
    start = [b for b in g.blocks.values() if b.catch == h["i"]]
    todo, seen = [b.id for b in start], set()
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        bl = g.blocks[b]
        inh = lambda n: isinstance(n, Node) and e.handler_of(n)[1] is not None
        if b == g.exit: return tr
        if any(e.stops(x, nr) for x in bl.elems) or bl.noret: continue
        todo.extend(x for x in bl.succ if x is not None)
    return None if start else tr


def paths(ctx, p, e, f):
    cl = MainClient(p, {f.file}, e)
    it = Interp(p, cl, maxdepth=6)
    it.fork_own = lambda n: any(e.esc.get(g.id) for g in p.targets(n))
    s = State(); s.ts = (False, False)
    try: outs = it.run(s, Frame(f, "0", 0, None))
    except Limit as x:
        ctx.info.setdefault("undecided", []).append(f"{f.file}: {x}"); return
    nh = no = 0
    for o in outs:
        if o.thrown is not None: continue      # judged by main-escape
        v = o.val
        c = o.state.bounds(v) if isinstance(v, I) else None
        if v is None and f.ret is not None: c = (0, 0)     # falling off the end of main returns 0
        if c is None: ctx.info.setdefault("undecided", []).append(f"{f.file}: status"); nh += 1; no += 1; continue
        if o.state.ts[0]:
            nh += 1
            good = c is not None and c[0] <= c[1] and not (c[0] <= 0 <= c[1]) and -128 <= c[0] and c[1] <= 255
            ctx.check(good, "status-error", f, f"{f.file}: path through a handler returns {c}",
                      f"{f.file}: a path of main that caught an exception returns {c if c else 'an unknown status'}, not a non-zero status",
                      key=f"status {f.file}")
            ctx.check(o.state.ts[1], "status-error", f, f"{f.file}: the message is written to std::cerr",
                      f"{f.file}: a path of main that caught an exception doesn't write its what() to std::cerr", key=f"message {f.file}")
        else:
            no += 1
            ctx.check(c == (0, 0), "status-ok", f, f"{f.file}: path without exception returns {c}",
                      f"{f.file}: a path of main without any exception returns {c}", key=f"ok-status {f.file}")
    ctx.check(nh >= 1, "status-error", f, f"{f.file}: {nh} paths through handlers", f"{f.file}: no path of main handles an exception",
              key=f"nohandler {f.file}")
    ctx.check(no >= 1, "status-ok", f, f"{f.file}: {no} paths without exception", f"{f.file}: no path of main returns normally")
