"""C01: checked containers, iterators, ranges and argument lists reach exactly the element asked for, or throw."""
from sa.absint import Client, Frame, I, Interp, K, Limit, State, INF
from sa.facts import Node, show

EXTRA = ["inst/containers.cpp"]
EXPLAIN = ("Path-partitioned abstract interpretation of the container code itself: representative uses of every public operation "
           "(inst/containers.cpp, compiled against the current headers, never run) are interpreted with symbolic indexes, offsets and "
           "enum values covering the whole range of their types, following every call. On each path that returns, the abstract state must "
           "imply that the request was valid and that the result is the requested element or position; each path that throws must be "
           "possible only for invalid requests; each array access on the way must be proved inside the array.")
RULES = {
    "in-storage": "every array access on any path is inside the array",
    "exact": "a path that returns implies a valid request, and the result is exactly the element or position requested",
    "throws-only-if-invalid": "a path that throws is impossible for a valid request",
    "answers": "every possible request is answered (returns or throws)",
}
ASSUME = ["uninstantiated index types behave like the eleven integral types that are analysed"]


class Box(Client):
    split = True

    def __init__(self, c): self.c = c; self.fails = []; self.acc = 0

    def inline(self, f, n): return f.cfg is not None

    def access(self, it, s, fr, n, base, idx):
        loc, t = base
        self.acc += 1
        if t is None or loc is None or not isinstance(idx, I): self.fails.append((n, idx)); return
        size = it.size(s, loc, t)
        lo, hi = s.bounds(idx)
        if not (lo >= 0 and s.cmp("<", idx, size) is True): self.fails.append((n, idx))

    def deref(self, it, s, fr, n, ptr):
        # only the argument list is used through a plain pointer; its length is the argument count
        if ptr[1] == ("argv",) and isinstance(ptr[2], I):
            self.access(it, s, fr, n, (("argv",), None), ptr[2]) if "argc" not in s.rng else self.argv(s, n, ptr[2])
        return None

    def argv(self, s, n, idx):
        self.acc += 1
        if not (s.bounds(idx)[0] >= 0 and s.cmp("<", idx, I(*s.rng["argc"], "argc", 0)) is True): self.fails.append((n, idx))


def check(c):
    p = c.p
    fns = {}
    for f in p.fns.values():
        if f.q.startswith("ktv::"): fns.setdefault(f.q[5:].split("<")[0], []).append(f)
    c.need(len(fns) >= 30, "the representative container uses were not exported")
    npaths = 0

    def sym(s, name, lo, hi):
        s.rng[name] = (lo, hi)
        return I(lo, hi, name, 0)

    def run(f, bindings, valid, result, prep=None, what=""):
        """valid(state) -> list of conditions that all hold iff the request is valid; result(value, state) -> ok"""
        nonlocal npaths
        s = State()
        fr = Frame(f, "0", 0, None)
        vs = {}
        for q, v in zip(f.params, bindings):
            t = q["t"].strip()
            if v == "obj":
                s.alias[("0", q["var"])] = ("obj", q["n"] if "n" in q else q["var"])
            elif isinstance(v, tuple) and v[0] == "at":
                s.alias[("0", q["var"])] = v[1]
            else:
                s.env[("v", "0", q["var"])] = v(s) if callable(v) else v
        if prep: prep(s)
        cl = Box(c)
        it = Interp(p, cl, maxdepth=40, widen=16)
        try: outs = it.run(s, fr)
        except Limit:
            c.info.setdefault("undecided", []).append(f.id); return
        npaths += len(outs)
        name = f.q[5:]
        tag = f"{f.id[5:]} {what}"
        for n, i in cl.fails:
            c.bad("in-storage", n, f"array access with index {i} is not proved inside the array (used by {tag})", key=f"in-storage {n.of.q}")
        if not cl.fails: c.ok("in-storage", f, f"{tag}: {cl.acc} accesses in {len(it.fnseen)} functions")
        good = False
        for o in outs:
            if o.thrown == "noreturn": continue
            cs = valid(o.state)
            if o.thrown is None:
                t = o.state.copy()
                v = [o.state.cmp(*x) if x is not False else False for x in cs]
                if not all(x is True for x in v):
                    c.bad("exact", where(p, f), f"{tag}: returns although the request can be invalid (path with {facts(o.state)})", key=f"exact {name}")
                elif not result(o.val, o.state):
                    c.bad("exact", where(p, f), f"{tag}: doesn't give what was asked for: {o.val}", key=f"exact {name}")
                else: good = True; c.ok("exact", f, tag)
            else:
                t = o.state.copy()
                if any(x is False for x in cs) or not all(t.assume_cmp(*x) for x in cs): c.ok("throws-only-if-invalid", f, tag)
                else:
                    c.bad("throws-only-if-invalid", o.node if o.node is not None else where(p, f), f"{tag}: throws for a valid request ({facts(t)})",
                          key=f"throws {name}")
        if not outs: c.bad("answers", where(p, f), f"{tag}: never returns nor throws", key=f"answers {name}")

    def where(p, f):
        """the container function a representative use is about"""
        for n in f.nodes():
            if n.f and n.f in p.fns and not p.fns[n.f].q.startswith("ktv::") and p.fns[n.f].file.startswith("libs/"):
                if p.fns[n.f].oper or p.fns[n.f].name in ("toString", "Args", "size"): return p.fns[n.f]
        return f

    def facts(s):
        return ", ".join(f"{k} in [{a},{b}]" for k, (a, b) in s.rng.items() if k in ("i", "x", "argc", "n"))

    def eq(v): return lambda r, s: isinstance(r, I) and s.cmp("==", r, v(s) if callable(v) else v) is True
    def truth(v): return lambda r, s: isinstance(r, tuple) and r[0] == "b" and s.truth(r[1]) is v
    def I_(name): return lambda s, d=0: I(s.rng[name][0] + d, s.rng[name][1] + d, name, d)
    i = I_("i")
    symi = lambda lo, hi: (lambda s: sym(s, "i", lo, hi))

    def dims(t):
        """(number of iterable values, is map) of a container type"""
        t = t.strip()
        n = [a for a in t.a if isinstance(a, int)]
        if t.n.endswith("EnumListWithNone"): return n[-1] + 1, False
        return n[-1], t.n.endswith("EnumMap")

    PD = (-(1 << 63), (1 << 63) - 1)
    for op, fl in sorted(fns.items()):
        for f in fl:
            if not f.params: continue
            t0 = f.params[0]["t"].strip()
            if op in ("list", "allList", "allMap", "iterate", "all", "at") or t0.k != "rec" and not op.startswith("args"): continue
            if op.startswith(("it", "list", "map")):
                N, ismap = dims(t0)
                # the values of the enum that name an element
                if op == "listAt":
                    r = f.params[1]["t"].strip().range
                    run(f, ["obj", symi(*r)], lambda s: [("<=", K(0), i(s)), ("<", i(s), K(N))], eq(i), what=f"index type {f.params[1]['t'].s}")
                elif op == "listName":
                    real = N - 1 if t0.n.endswith("WithNone") else N
                    for x in range(N):
                        def named(r, s, x=x):
                            if not (isinstance(r, tuple) and r[0] == "p" and isinstance(r[1], tuple)): return False
                            if x < real: return elem(r) == ("k", x)
                            return r[1][:1] == ("g",)
                        run(f, ["obj", K(x)], lambda s: [], named, what=f"value {x}")
                    run(f, ["obj", symi(N, 255)], lambda s: [False], None, what="bad values")
                elif op in ("mapAt", "mapConstAt"):
                    for x in range(N):
                        run(f, ["obj", K(x)], lambda s: [], lambda r, s, x=x: isinstance(r, tuple) and r[0] == "p" and elem(r) == ("k", x), what=f"value {x}")
                    if op == "mapConstAt":
                        run(f, ["obj", K(N)], lambda s: [], lambda r, s: isinstance(r, tuple) and r[0] == "p" and r[1][:1] == ("g",), what="None")
                        run(f, ["obj", symi(N + 1, 255)], lambda s: [False], None, what="bad values")
                    else: run(f, ["obj", symi(N, 255)], lambda s: [False], None, what="None and bad values")
                elif op == "itEnd": run(f, ["obj"], lambda s: [], eq(K(N)))
                elif op == "itFresh": run(f, ["obj"], lambda s: [], eq(K(0)))
                elif op == "mapFresh": run(f, ["obj"], lambda s: [False], None)
                elif op.startswith("mapMixed"):
                    run(f, [("at", ("obj", "one")), ("at", ("obj", "two"))], lambda s: [False], None, what="iterators of different maps")
                elif op in ("itDiff", "itLess", "itLessEq", "itMore", "itMoreEq", "itSame", "itOther"):
                    for a in range(N + 1):
                        for b in range(N + 1):
                            w = {"itDiff": lambda: a - b, "itLess": lambda: a < b, "itLessEq": lambda: a <= b, "itMore": lambda: a > b,
                                 "itMoreEq": lambda: a >= b, "itSame": lambda: a == b, "itOther": lambda: a != b}[op]()
                            run(f, ["obj", K(a), K(b)], lambda s: [], eq(K(w)) if op == "itDiff" else truth(w), what=f"at {a} and {b}")
                else:
                    for k in range(N + 1):
                        w = f"at {k}"
                        if op in ("itAdd", "itPlus"):
                            run(f, ["obj", K(k), symi(*PD)], lambda s: [("<=", K(-k), i(s)), ("<=", i(s), K(N - k))], eq(lambda s: i(s, k)), what=w)
                        elif op == "itPlusKeeps":
                            run(f, ["obj", K(k), symi(*PD)], lambda s: [("<=", K(-k), i(s)), ("<=", i(s), K(N - k))], eq(K(k)), what=w)
                        elif op in ("itSub", "itMinus"):
                            def back(r, s, k=k):
                                lo, hi = s.bounds(i(s))
                                if lo == hi: return eq(K(k - lo))(r, s)
                                return isinstance(r, I) and s.bounds(r) == (k - hi, k - lo)
                            for z in range(k - N, k + 1):   # every valid offset, and all the others
                                run(f, ["obj", K(k), K(z)], lambda s: [], eq(K(k - z)), what=f"{w} by {z}")
                            run(f, ["obj", K(k), symi(PD[0], k - N - 1)], lambda s: [False], None, what=w + " too far forward")
                            run(f, ["obj", K(k), symi(k + 1, PD[1])], lambda s: [False], None, what=w + " too far back")
                        elif op in ("itAt",): run(f, ["obj", K(k)], lambda s: [], eq(K(k)), what=w)
                        elif op in ("itInc", "itIncPosted"): run(f, ["obj", K(k)], lambda s: [False] if k == N else [], eq(K(k + 1)), what=w)
                        elif op in ("itDec", "itDecPosted"): run(f, ["obj", K(k)], lambda s: [False] if k == 0 else [], eq(K(k - 1)), what=w)
                        elif op == "itIncPost": run(f, ["obj", K(k)], lambda s: [False] if k == N else [], eq(K(k)), what=w)
                        elif op == "itDecPost": run(f, ["obj", K(k)], lambda s: [False] if k == 0 else [], eq(K(k)), what=w)
                        elif op == "itGet": run(f, ["obj", K(k)], lambda s: [False] if k == N else [], eq(K(k)), what=w)
                        elif op == "mapGet":
                            run(f, ["obj", K(k)], lambda s: [False] if k == N else [],
                                lambda r, s, k=k: isinstance(r, tuple) and r[0] == "p" and elem(r) == ("k", k), what=w)
                        elif op == "itIndex":
                            run(f, ["obj", K(k), symi(*PD)], lambda s: [("<=", K(-k), i(s)), ("<", i(s), K(N - k))], eq(lambda s: i(s, k)), what=w)
            elif op == "rangeAt":
                n = 3 * (len(t0.a) + 1)
                run(f, ["obj", symi(0, (1 << 64) - 1)], lambda s: [("<=", i(s), K(n))], lambda r, s: True)
            elif op in ("argsSize", "argsInt"):
                t = f.params[0]["t"].strip().range
                null = ("p", "null", K(0)); arr = ("p", ("argv",), K(0))
                run(f, [symi(*t), arr], lambda s: [("<=", K(1), i(s)), ("<=", i(s), K(65535))], eq(i), what="with a list")
                run(f, [symi(*t), null], lambda s: [("==", i(s), K(0))], eq(i), what="without a list")
            elif op == "argsAt":
                arr = ("p", ("argv",), K(0))
                run(f, [lambda s: sym(s, "argc", 1, 65535), arr, symi(0, 65535)],
                    lambda s: [("<", i(s), I(*s.rng["argc"], "argc", 0))], lambda r, s: True)
    c.info["functions_interpreted"] = sorted({o for o in fns})
    c.info["paths"] = npaths
    c.floor("exact", 20, "container uses")


def elem(r):
    """index of the array element a pointer refers to"""
    l = r[1]
    if isinstance(r[2], I) and r[2].const() not in (0, None): return None
    for k in range(len(l) - 1, 0, -1):
        if l[k - 1] == "[]": return l[k]
    return None
