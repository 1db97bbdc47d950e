"""C27: queries have no memory: they never change loaded data or other state that outlives them."""
import re
from sa.effects import Effects
from sa.facts import show

EXPLAIN = ("Interprocedural write effects of every function (its object, referents of its fields, static storage) at a fixpoint over the call graph, with a "
           "greatest fixpoint for 'only called while loading'; initialisers of static locals are checked for dependence on arguments.")
RULES = {
    "query": "a const method, static method or free function that's not only used for loading writes nothing that outlives the call but streams, random engines and "
             "counters of messages",
    "loaded": "objects made by loading are only changed by functions that are only called from their constructors",
    "first-call": "the initialiser of a static local doesn't depend on arguments or on the object",
}
ASSUME = ["library functions change only what they're given without const"]
NSP = "kanji_tools::"
PROG = re.compile(r"^kanji_tools::(\w*Quiz\w*|Choice|KanaConvert|Stats|Utf8Count|Question\w*)(::|$|<)")
STREAM = re.compile(r"\bstd::(basic_)?(io|o|i|of|if|f|ostring|istring|string)stream\b|\bstd::basic_\w*stream<")
ENGINE = re.compile(r"\bstd::(random_device|\w+_engine|\w+_distribution)\b")
ROOTS = ("kanji_tools::KanjiData", "kanji_tools::GroupData", "kanji_tools::JukugoData")


def ts(t): return t.s if hasattr(t, "s") else str(t or "")


def bases(p, q): return [getattr(b, "n", None) or str(b) for b in p.recs.get(q, {}).get("bases") or ()]


def data_classes(p):
    """classes of the objects reachable from loaded data"""
    derived = {}
    for q in p.recs:
        for b in bases(p, q): derived.setdefault(b, set()).add(q)
    seen, todo = set(), [r for r in ROOTS if r in p.recs]
    while todo:
        q = todo.pop()
        if q in seen or PROG.match(q): continue
        seen.add(q)
        todo += derived.get(q, ())
        todo += [b for b in bases(p, q) if b in p.recs]
        for x in p.recs[q]["fields"]:
            s = ts(x["t"])
            for m in re.findall(r"kanji_tools::[\w:]+", s):
                if m in p.recs: todo.append(m)
    return seen


def loading(p, e, ctors, live):
    """functions only called (transitively) from constructors of loaded data and initialisers of globals"""
    callers = {i: {x for x in c if x in live} for i, c in e.callers().items()}
    lam = {}
    for f in p.fns.values():
        if f.lam: lam[f.id] = f
    ok = {f.id for f in p.fns.values() if f.id in callers or f.id in ctors or f.lam}
    ch = True
    while ch:
        ch = False
        for i in list(ok):
            if i in ctors: continue
            f = p.fns[i]
            c = set(callers.get(i, ()))
            if f.lam and getattr(f, "inside", None): c.add(f.inside)
            if not c and f.lam: continue
            if not c or any(x in p.fns and x not in ok for x in c): ok.discard(i); ch = True
    return ok


def counter(p, var, seen=()):
    """a number that's only counted and printed"""
    n_ = 0
    for f in p.fns.values():
        decls = [v for n in f.nodes() if n.k == "DeclStmt" for v in n.d["d"]]
        for n in f.nodes():
            if n.k != "DeclRefExpr" or n.var != var: continue
            if n.t is None or not re.search(r"\b(int|long|short)\b", ts(n.t)): return False
            n_ += 1
            x = n
            while True:
                u = x.up
                if u is not None and (u.k in ("ImplicitCastExpr", "ParenExpr", "InitListExpr") or u.k == "UnaryOperator" and u.op in ("++", "--") or
                                      u.k in ("BinaryOperator", "CompoundAssignOperator") and u.op in ("+=", "=", "+")): x = u; continue
                break
            if u is not None and u.k == "CXXOperatorCallExpr" and u.oper == "<<" or u is not None and u.k == "CallExpr" and (u.fq or "").endswith("to_string"): continue
            v = next((v for v in decls if v.get("init") is not None and any(y is x for y in v["init"].walk())), None)
            if v is not None:
                if v["var"] not in seen and counter(p, v["var"], seen + (v["var"],)): continue
                return False
            if u is None or u.k == "CompoundStmt":
                if x is not n and x.k in ("UnaryOperator", "BinaryOperator", "CompoundAssignOperator"): continue
            return False
    return n_ > 0


def check(ctx):
    p = ctx.p
    e = Effects(p)
    und = ctx.info["undecided"] = []
    data = data_classes(p)
    ctors = {f.id for f in p.fns.values() if f.kind == "ctor" and f.cls and f.cls.startswith(NSP) and not PROG.match(f.cls)}
    inits = set()
    for g in p.gvars.values():      # called by initialisers of globals
        i = g.get("init")
        for n in (i.walk() if i is not None else ()):
            if n.f in p.fns: inits.add(n.f)
            if n.k == "LambdaExpr": inits |= {h.id for h in p.lambdas.get(n.lam, ())}
    ctors |= inits
    live = set(e.reach([f.id for f in p.fns.values() if f.name == "main" or f.kind in ("ctor", "dtor")] + sorted(inits)))
    for f in p.fns.values():        # const methods are queries whether they're used or not
        if f.kind == "method" and f.const and f.id not in live: live |= set(e.reach([f.id]))
    load = loading(p, e, ctors, live)
    nq = nd = ns = 0
    ok_counters = {}
    for f in p.fns.values():
        if not (f.q or "").startswith(NSP): continue
        # static locals initialised by the first call
        for n in f.nodes():
            if n.k != "DeclStmt": continue
            for v in n.d["d"]:
                if not v.get("static"): continue
                ns += 1
                i = v.get("init") or v.get("sinit")
                if i is None: continue
                own = {a["var"] for a in f.params} | local_vars(f)
                w = next((x for x in i.walk() if x.k == "CXXThisExpr" or x.k == "DeclRefExpr" and (x.var in own or x.d.get("cap")) or
                          (x.fq or "").endswith("::current_path")), None)
                if w is not None: ctx.bad("first-call", n, f"{f.q}: static {v['n']} keeps what {show(w)[:40]} was in the first call", key=f"static {f.q} {v['n']}")
        if f.lam: continue
        if f.const and (f.id in load) and f.kind == "method":
            for r in [r for r in e.eff[f.id] if r[0] == "T"]:
                if not (only_converter(p, f) or direct_calls_only(p, e, f, r)):
                    ctx.bad("query", e.eff[f.id][r][0], f"{f.q} changes its object though it's const", key=f"mutable {f.q}")
        if f.id in load and f.kind == "method" and f.const and f.acc == "public" and f.cls in data:
            for r in [r for r in e.eff[f.id] if r[0] == "G"]:
                s = ts(p.gvars.get(r[1], {}).get("t"))
                if not (STREAM.search(s) or ENGINE.search(s) or r[1].startswith("std::") or counter(p, r[1])):
                    ctx.bad("query", e.eff[f.id][r][0], f"{f.q} changes {r[1].split('@')[0]}, which outlives the call", key=f"global {r[1].split('@')[0]}")
        if f.id in load or f.id in ctors or f.kind in ("ctor", "dtor") or f.id not in live: continue
        query = f.kind == "method" and (f.const or f.static) or f.kind == "function" and f.name != "main"
        bad = False
        for r, (n, t, nxt) in list(e.eff[f.id].items()):
            k = r[0]
            if k in ("P", "PP", "C", "CP", "CV", "L", "H"): continue
            where = f"{f.q}"
            path = [f"{p.fns[a].q}: {x[:80]}" for a, _, x in e.trace(f.id, r)]
            if k == "G":
                g = p.gvars.get(r[1], {})
                s = ts(g.get("t"))
                if STREAM.search(s) or ENGINE.search(s) or r[1].startswith("std::"): continue
                if r[1] not in ok_counters: ok_counters[r[1]] = counter(p, r[1])
                if ok_counters[r[1]]: continue
                if query or r[1].split('@')[0].rsplit('::', 1)[0] in data:
                    bad = True
                    ctx.bad("query", n, f"{where} changes {r[1].split('@')[0]}, which outlives the call", key=f"global {r[1].split('@')[0]}", path=path)
            elif k == "F":
                ft = ts(e.field_type(r[1]))
                if not ft:      # field of a library type: what does the written expression refer to
                    last = e.trace(f.id, r)
                    ft = " ".join(ts(x.t) for x in last[-1][1].walk() if x.t is not None) if last else ""
                if STREAM.search(ft): continue
                if any(c in data for c in re.findall(r"kanji_tools::[\w:]+", ft)) and not re.search(r"Converter", ft):
                    bad = True
                    ctx.bad("loaded", n, f"{where} changes the object {r[1]} refers to", key=f"object {f.q} {r[1]}", path=path)
                elif query and not re.search(r"_data$|_launcher$", r[1]): und.append(f"{where}: writes through {r[1]}")
            elif k == "T":
                if f.const:
                    if only_converter(p, f) or direct_calls_only(p, e, f, r): continue
                    bad = True
                    ctx.bad("query", n, f"{where} changes its object though it's const", key=f"mutable {f.q}", path=path)
                elif f.cls in data and not re.search(r"Iterator|Enum|Converter", f.cls):
                    bad = True
                    ctx.bad("loaded", n, f"{where} changes its object and can be called after loading", key=f"method {f.q}", path=path)
            elif k == "S" and any(c in data for c in re.findall(r"kanji_tools::[\w:]+", str(r[1]))):
                bad = True
                ctx.bad("loaded", n, f"{where} changes a loaded object ({t[:60]})", key=f"object {f.q} {r[1]}", path=path)
            elif k == "U" and query: und.append(f"{where}: {r[1]}")
        if query: nq += 1
        if f.cls in data: nd += 1
        if not bad and query: ctx.ok("query", f, f"{f.q}")
    ctx.ok("loaded", "libs", f"{nd} functions of {len(data)} classes, {len(load)} functions only used for loading")
    ctx.ok("first-call", "libs, apps", f"{ns} static locals")
    ctx.info.update(queries=nq, data_classes=len(data), loading=len(load), static_locals=ns)


def local_vars(f):
    r = set()
    for n in f.nodes():
        if n.k == "DeclStmt": r |= {v["var"] for v in n.d["d"] if not v.get("static")}
    return r


def direct_calls_only(p, e, f, r):
    """the change is made by another method that's judged itself"""
    n, _, nxt = e.eff[f.id][r]
    return nxt is not None and nxt[1][0] == "T" and p.fns[nxt[0]].const and p.fns[nxt[0]].cls == f.cls


def only_converter(p, f, seen=None):
    """all a const method changes of its object is the converter, that's told its target each time it's used"""
    ok = False
    for n in f.nodes():
        if n.k != "MemberExpr" or n.t is None or not n.c or n.c[0] is None or not re.fullmatch("(const )?kanji_tools::Converter", ts(n.t)): continue
        u = n.up
        while u is not None and u.k in ("ImplicitCastExpr", "ParenExpr"): u = u.up
        if u is None or not u.f: return False
        h = p.fns.get(u.f)
        if h is None or not any("CharType" in ts(x["t"]) for x in h.params[1 if not h.params or "CharType" in ts(h.params[0]["t"]) and len(h.params) < 3 else 0:]):
            return False
        ok = True
    return ok
