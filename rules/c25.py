"""C25: library code reads and writes only the streams it was given."""
from sa.cfgx import Flow
from sa.exc import short, args
from sa.facts import Node, show

EXPLAIN = ("Query over every reference to a standard stream (and every primitive that reads or writes the process's own terminal or "
           "standard descriptors) in the libraries: allowed only as the default of a parameter used by a program, or on paths "
           "where the control-flow graph shows that the supplied stream pointer is null; every call between library functions "
           "passes the streams on.")
RULES = {
    "no-std-out": "no library function names std::cout / std::clog / stdout or prints through printf, puts, ...",
    "no-std-err": "std::cerr is named only where no stream can have been supplied (static code without stream parameters or members)",
    "stdin-if-null": "std::cin and terminal primitives are reached only when the supplied input stream pointer is null",
    "pass-on": "a library function with a stream at hand never lets a callee fall back to a standard stream or a null input",
}
ASSUME = []
TERM = {"read", "getchar", "fgetc", "getc", "scanf", "fgets", "gets", "tcgetattr", "tcsetattr", "getch", "select", "poll"}
PRINT = {"printf", "puts", "putchar", "vprintf", "putchar_unlocked", "println", "print", "vprint_unicode"}


def is_stream(t, kinds):
    if t is None: return False
    t = t.strip() if t.k == "ref" else t
    t = t.strip()
    if t.k == "ptr": t = t.to.strip()
    if t.k == "ref": t = t.to.strip()
    return t.k == "rec" and any(k in t.n for k in kinds)


OUT, IN = ("basic_ostream", "basic_iostream"), ("basic_istream", "basic_iostream")


def has_stream(p, f, kinds):
    """can f reach a supplied stream: a parameter, a member of its class (or base), or what its enclosing function has"""
    g = f
    while g is not None:
        for q in g.params:
            if is_stream(q["t"], kinds): return True
        if g.cls and not g.static:
            todo, seen = [g.cls], set()
            while todo:
                c = todo.pop()
                if c in seen: continue
                seen.add(c)
                for r in p.recs.values():
                    if r["q"] == c or r["t"].n == c:
                        if any(is_stream(x["t"], kinds) for x in r["fields"]): return True
                        todo.extend(b.n for b in r["bases"])
        g = p.fns.get(g.inside) if g.lam else None
    return False


def guarded(f, n):
    """is n reached only when a pointer to an input stream is null?"""
    fl = Flow.of(f)
    if fl is None: return False
    pos = fl.at(n)
    if pos is None: return False
    cut = set()
    for b in fl.g.blocks.values():
        if b.cond is None or len(b.succ) < 2: continue
        s = null_edge(b.cond)
        if s is not None: cut.add((b.id, s))
    if not cut: return False
    seen, todo = set(), [fl.g.entry]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for i, y in enumerate(fl.g.blocks[x].succ):
            if y is not None and (x, i) not in cut: todo.append(y)
    return pos[0] not in seen


def is_in_ptr(n):
    while n is not None and n.k.endswith("CastExpr") and n.c: n = n.c[0]
    if n is None or n.t is None: return False
    t = n.t.strip() if n.t.k == "ref" else n.t
    return t.strip().k == "ptr" and is_stream(t, IN)


def null_edge(c, depth=0):
    """index of the successor taken when the pointer tested by condition c is null"""
    while c.k.endswith("CastExpr") and c.c: c = c.c[0]
    if c.k == "DeclRefExpr" and c.var and c.of is not None and depth < 4 and c.t is not None and c.t.strip().k == "bool":
        defs = [v for x in c.of.nodes() if x.k == "DeclStmt" for v in x.d["d"] if v["var"] == c.var]
        writes = [x for x in c.of.nodes() if x.k in ("BinaryOperator", "CompoundAssignOperator") and x.c[0] is not None
                  and x.c[0].k == "DeclRefExpr" and x.c[0].var == c.var and x.op.endswith("=") and x.op not in ("==", "!=", "<=", ">=")]
        if len(defs) == 1 and not writes and defs[0].get("init") is not None:
            i = defs[0]["init"]
            while i.k == "InitListExpr" and len(i.c) == 1: i = i.c[0]
            return null_edge(i, depth + 1)
        return None
    if c.k == "UnaryOperator" and c.op == "!":
        s = null_edge(c.c[0])
        return None if s is None else 1 - s
    if c.k == "BinaryOperator" and c.op in ("==", "!="):
        for a, b in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
            if is_in_ptr(a) and any(x.k == "CXXNullPtrLiteralExpr" for x in b.walk()): return 0 if c.op == "==" else 1
        return None
    return 1 if is_in_ptr(c) else None


def check(ctx):
    p = ctx.p
    lib = [f for f in p.fns.values() if f.file.startswith("libs/")]
    callers = {}
    for f in p.fns.values():
        for n in f.nodes():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                for g in p.targets(n): callers.setdefault(g.id, []).append((f, n))

    def only_null(f, n, depth=0, seen=()):
        """witness of a path that gets here although a stream was supplied, or None"""
        if guarded(f, n): return None
        if f.id in seen or depth > 6: return n
        if f.lam:
            # a lambda: judged where it is made
            g = p.fns.get(f.inside)
            if g is not None:
                for x in g.nodes():
                    if x.k == "LambdaExpr" and x.lam == f.lam: return only_null(g, x, depth + 1, seen + (f.id,))
        cs = callers.get(f.id)
        if not cs: return n
        for g, c in cs:
            w = only_null(g, c, depth + 1, seen + (f.id,))
            if w is not None: return w
        return None

    calls = 0
    for f in lib:
        for n in f.nodes():
            if n.k == "DeclRefExpr" and n.g and n.var in ("std::cout", "std::clog", "std::cin", "std::cerr", "std::wcout", "std::wcerr",
                                                          "std::wcin", "stdout", "stderr", "stdin"):
                v = n.var.rsplit("::", 1)[-1]
                if n.da:
                    ctx.bad("pass-on", n, f"calls a function without passing a stream: it falls back to {n.var}", key=f"default {f.q} {v}")
                elif v in ("cout", "clog", "wcout", "stdout"):
                    ctx.bad("no-std-out", n, f"uses {n.var} instead of a supplied stream", key=f"std {f.q} {v}")
                elif v in ("cerr", "wcerr", "stderr"):
                    ctx.check(not has_stream(p, f, OUT), "no-std-err", n, f"{f.q}: no stream can have been supplied here",
                              f"uses {n.var} although a stream was supplied", key=f"std {f.q} {v}")
                else:
                    w = only_null(f, n)
                    ctx.check(w is None, "stdin-if-null", n, f"{f.q}: {n.var} only when no input stream was supplied",
                              f"reads {n.var} although an input stream may have been supplied", key=f"std {f.q} {v}")
            elif n.k == "CallExpr" and n.f and not n.own:
                calls += 1
                fq = (n.fq or "")
                s = short(fq)
                if s in TERM and ("::" not in fq or fq == "std::" + s):
                    w = only_null(f, n)
                    ctx.check(w is None, "stdin-if-null", n, f"{f.q}: {s}() only when no input stream was supplied",
                              f"{s}() is used although an input stream may have been supplied", key=f"term {f.q} {s}")
                elif s in PRINT and ("::" not in fq or fq == "std::" + s):
                    ctx.bad("no-std-out", n, f"{s}() writes to standard output", key=f"std {f.q} {s}")
            elif n.k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and n.own:
                if not has_stream(p, f, IN): continue
                g = p.fns.get(n.f)
                if g is None: continue
                a = n.c[1:]
                for i, q in enumerate(g.params):
                    if q["t"].k == "ptr" and is_stream(q["t"], IN) and i < len(a) and a[i] is not None:
                        null = nullconst(a[i])
                        same = g.cls == f.cls and f.kind == "ctor" and g.kind == "ctor"
                        ctx.check(not null or same or only_null(f, n) is None, "pass-on", n, f"{f.q} passes its input stream to {n.fq}",
                                  f"passes no input stream to {short(n.fq)} although it has one", key=f"null {f.q} {short(n.fq)}")
                # a constructor overload without the input parameter
                if g.kind == "ctor" and not g.copy and g.cls and g.cls != f.cls and not any(is_stream(x["t"], IN) for x in g.params):
                    for r in p.recs.values():
                        if r["q"] == g.cls and any(is_stream(x["t"], IN) for x in r["fields"]) and any(is_stream(x["t"], OUT) for x in g.params):
                            ctx.bad("pass-on", n, f"makes a {g.cls} without its input stream although it has one", key=f"null {f.q} {g.cls}")
    for r in ("no-std-out", "pass-on"): ctx.ok(r, "libs", f"{calls} library calls and {len(lib)} functions searched")
    ctx.info["library_functions"] = len(lib)
    ctx.floor("stdin-if-null", 1, "reads of standard input")


def nullconst(n):
    while n is not None and n.k.endswith("CastExpr") and n.c: n = n.c[0]
    if n is None: return False
    return n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "CXXScalarValueInitExpr", "ImplicitValueInitExpr") or n.k == "InitListExpr" and (
        not n.c or nullconst(n.c[0])) or n.k == "IntegerLiteral" and n.v == 0
