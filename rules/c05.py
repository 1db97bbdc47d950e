"""C05: each attribute of a kanji, Ucd entry or radical comes from the column of its name.

Provenance labels: an expression is labelled with the columns of data files that its value is computed from (explicit, "S") and those that
decided about it (conditions, keys, "W").  Constructions are followed with their arguments from the most derived constructor to the fields,
calls with theirs; parameters of functions not entered that way get the union over all call sites.  Objects (kanji, entries, data) carry no
labels themselves, only their attributes do."""
import re
from sa.facts import Node, show

EXPLAIN = ("For each class of kanji, Ucd entries and radicals: each public accessor is evaluated over provenance labels, for all constructors and "
           "call sites, to the set of data file columns its result is computed from; that set has to be the documented one.")
RULES = {"source": "the value of an attribute is computed from the documented columns only, and from all of them"}
ASSUME = ["library functions compute their results from their arguments and the contents of their objects only"]
E0 = frozenset()
NONE = (E0, E0)
Q = "?"
LOOKUP = {"find", "at", "operator[]", "count", "contains", "lower_bound", "upper_bound", "equal_range", "operator*", "operator->"}
PASS = {"ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
        "CXXFunctionalCastExpr", "CXXStaticCastExpr", "InitListExpr", "CXXStdInitializerListExpr", "UnaryOperator", "CStyleCastExpr"}
LIT = {"IntegerLiteral", "StringLiteral", "CharacterLiteral", "CXXBoolLiteralExpr", "CXXNullPtrLiteralExpr", "FloatingLiteral", "CXXThisExpr",
       "UnaryExprOrTypeTraitExpr", "CXXScalarValueInitExpr", "ImplicitValueInitExpr"}
NSP = "kanji_tools::"
# classes whose parts all stand for the whole
WHOLE = {NSP + x for x in ("Strokes", "MorohashiId", "Pinyin", "Ucd::Entry", "Kanji::KanjiName")}


def join(*vs):
    return (E0.union(*(v[0] for v in vs)), E0.union(*(v[1] for v in vs))) if vs else NONE


def weak(v): return (E0, v[0] | v[1])


class Prov:
    def __init__(self, p):
        self.p = p
        self.memo, self.busy, self.prev = {}, set(), {}
        sub = {}
        for q, r in p.recs.items():
            for b in self.bases(q): sub.setdefault(b, set()).add(q)
        self.sub = sub

        def down(q):
            r = {q}
            for x in sub.get(q, ()): r |= down(x)
            return r
        self.down = down
        ent = set()
        for q in ("Kanji", "KanjiData", "Ucd", "UcdData", "Radical", "RadicalData", "Kanji::CtorParams", "ColumnFile", "ListFile", "Group"):
            ent |= down(NSP + q)
        self.ent = {x for x in ent if x in p.recs}
        self.entre = re.compile(r"^(?:const )*(?:std::(?:shared_ptr|unique_ptr|reference_wrapper)<)?(?:const )*(" +
                                "|".join(re.escape(x) for x in sorted(self.ent, key=len, reverse=True)) + r")\b(?!::)")
        self.powner, self.writes, self.sites, self.wkeys, self.indirect = {}, {}, {}, [], 0
        self.ctors = {}
        for f in p.fns.values():
            for x in f.params: self.powner[x["var"]] = f
            if f.kind == "ctor": self.ctors.setdefault(f.cls, []).append(f)
        for f in p.fns.values():
            for n in f.nodes(): self.index(f, n)

    def bases(self, q):
        return [getattr(b, "n", None) or str(b) for b in self.p.recs.get(q, {}).get("bases") or ()]

    # ---------------------------------------------------------------- index
    def entity(self, t):
        if t is None: return None
        m = self.entre.match(t.s if hasattr(t, "s") else str(t))
        return m.group(1) if m else None

    def root(self, n):
        """variable or field that an lvalue expression is part of"""
        while n is not None:
            if n.k == "DeclRefExpr": return n.var
            if n.k == "MemberExpr":
                b = n.c[0] if n.c else None
                while b is not None and b.k in PASS and b.c: b = b.c[0]
                if n.d.get("field") and (b is None or b.k == "CXXThisExpr" or self.entity(b.t)): return n.d["field"]
                n = b
            elif n.k in ("ArraySubscriptExpr",) or n.k in PASS: n = n.c[0] if n.c else None
            elif n.k == "CXXOperatorCallExpr" and n.oper in ("[]", "*", "->"): n = next((x for x in n.c if x is not None), None)
            elif n.k == "CXXMemberCallExpr" and (n.fq or "").rsplit("::", 1)[-1] in ("back", "front", "at", "value"): n = n.c[0]
            else: return None
        return None

    def write(self, f, target, at, *srcs):
        r = self.root(target) if isinstance(target, Node) else target
        if r is not None: self.writes.setdefault(r, []).append((f, at, srcs))

    def index(self, f, n):
        k = n.k
        if k == "DeclStmt":
            for d in n.d.get("d") or ():
                if d.get("init") is not None: self.write(f, d["var"], n, d["init"])
                for b in d.get("binds") or (): self.write(f, b if isinstance(b, str) else b.get("var"), n, d["init"])
        elif k == "CXXForRangeStmt":
            lv = n.d.get("lvar")
            rg = n.d.get("range")
            if lv is not None and rg is not None:
                src = [d["init"] for d in (rg.d.get("d") or ()) if d.get("init") is not None] if rg.k == "DeclStmt" else [rg]
                for d in lv.d.get("d") or ():
                    self.write(f, d["var"], n, *src)
                    for b in d.get("binds") or (): self.write(f, b if isinstance(b, str) else b.get("var"), n, *src)
        elif k in ("BinaryOperator", "CompoundAssignOperator") and (n.op or "").endswith("=") and n.op not in ("==", "!=", "<=", ">="):
            self.write(f, n.c[0], n, n.c[1])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [x for x in n.c[1:]]
            own = self.p.fns.get(n.f)
            if n.f:
                for g in ([own] if own else []) + [x for x in (self.p.targets(n) if k != "CXXConstructExpr" else []) if x is not own]:
                    self.sites.setdefault(g.id, []).append((f, n, args))
            name = (n.fq or "").rsplit("::", 1)[-1]
            recv = n.c[0] if n.c else None
            if k == "CXXOperatorCallExpr":
                ops = [x for x in n.c if x is not None]
                if n.oper in ("=", "+=", "|=", "&=", "^=", "<<", "-=") and len(ops) == 2: self.write(f, ops[0], n, ops[1])
                if n.oper == ">>" and len(ops) == 2: self.write(f, ops[1], n, ops[0])
            elif k == "CXXMemberCallExpr" and own is None and recv is not None and args and name not in LOOKUP:
                if name in ("emplace", "insert_or_assign", "try_emplace") and len(args) == 2 and recv.t is not None and "map<" in recv.t.s:
                    self.write(f, recv, n, args[1]); self.wkeys.append((self.root(recv), f, args[0]))
                else: self.write(f, recv, n, *args)
            if k in ("CallExpr", "CXXMemberCallExpr"):
                pts = n.d.get("pt") or ()
                for i, a in enumerate(args):
                    out = None
                    if own is not None and i < len(own.params):
                        t = own.params[i]["t"]
                        ts = t.s if hasattr(t, "s") else str(t)
                    else: ts = str(pts[i].s if i < len(pts) and hasattr(pts[i], "s") else pts[i] if i < len(pts) else "")
                    if ts.endswith("&") and not ts.endswith("&&") and not ts.startswith("const ") and (own is not None or name in ("getline", "swap", "from_chars", "exchange", "replace", "erase_if")): out = a
                    if a is not None and a.k == "CallExpr" and "inserter" in (a.fq or "") and len(a.c) > 1: out = a.c[1]
                    if out is not None and name != "back_inserter": self.write(f, out, n, *[x for x in [recv] + args if x is not a], *([a] if a.k == "LambdaExpr" else []))
            # constructions inside of the library
            if own is None and name in ("make_shared", "make_unique", "emplace_back", "emplace", "try_emplace", "construct_at"):
                ts = (n.t.s if n.t else "") + " " + (recv.t.s if recv is not None and recv.t else "")
                cands = [args]
                tup = [a for a in args if a is not None and a.k == "CallExpr" and (a.fq or "").endswith(("make_tuple", "forward_as_tuple", "tie"))]
                if tup: cands = [t.c[1:] for t in tup]
                for q in self.ent:
                    if q in ts and re.search(re.escape(q) + r"\b(?!::)", ts):
                        for g in self.ctors.get(q, ()):
                            for c in cands:
                                if len(c) == len(g.params) and (tup or name != "emplace"): self.sites.setdefault(g.id, []).append((f, n, c))

    # ---------------------------------------------------------------- evaluation
    def conds(self, n):
        """conditions that decide whether n is evaluated"""
        r, x = [], n
        while x.up is not None:
            u = x.up
            for key in ("cond",):
                c = u.d.get(key)
                if isinstance(c, Node) and c is not x and u.k in ("IfStmt", "SwitchStmt", "WhileStmt", "ForStmt", "ConditionalOperator"): r.append(c)
            x = u
        return r

    def fixed(self, key, fn):
        if key in self.memo: return self.memo[key]
        if key in self.busy: self.cut = True; return self.prev.get(key, NONE)
        self.busy.add(key)
        try: v = fn()
        finally: self.busy.discard(key)
        self.memo[key] = v
        return v

    def direct(self, n, var):
        while n is not None and n.k in PASS and n.c: n = n.c[0]
        return n is not None and n.k == "DeclRefExpr" and n.var == var

    def reaching(self, use, var):
        """writes of a local variable that can be the last ones before a use of it, and whether its first value can"""
        ws = self.writes.get(var, ())
        f = use.of
        if not ws or f is None or f.cfg is None: return ws, True
        pos = getattr(f, "_pos5", None)
        if pos is None:
            pos = {id(e): (b.id, i) for b in f.cfg.blocks.values() for i, e in enumerate(b.elems) if isinstance(e, Node)}
            try: f._pos5 = pos
            except AttributeError: pass
        if id(use) not in pos: return ws, True
        at = {}
        res = []
        for w in ws:
            if w[0] is not f or id(w[1]) not in pos: res.append(w)
            else: at.setdefault(id(w[1]), []).append(w)
        entry = False
        seen = set()
        b, i = pos[id(use)]
        work = [(b, i)]
        while work:
            b, i = work.pop()
            bl = f.cfg.blocks[b]
            stop = False
            for el in reversed(bl.elems[:i]):
                if not isinstance(el, Node): continue
                for w in at.get(id(el), ()):
                    if w not in res: res.append(w)
                    n = w[1]
                    if n.k == "DeclStmt" or n.k == "BinaryOperator" and n.op == "=" and self.direct(n.c[0], var) or \
                            n.oper == "=" and self.direct(next((x for x in n.c if x is not None), None), var): stop = True
                if stop: break
            if stop: continue
            if b == f.cfg.entry: entry = True
            for q in bl.pred:
                q = getattr(q, "id", q)
                if q is not None and q not in seen: seen.add(q); work.append((q, len(f.cfg.blocks[q].elems)))
        return res, entry

    def written(self, var, env, use=None):
        ws, entry = self.reaching(use, var) if use is not None else (self.writes.get(var, ()), True)

        def go():
            vs = []
            for f, at, srcs in ws:
                e = env if env is not None and (env[2] is f or env[2] is not None and f.lam) else self.top(f)
                sv = [self.ev(x, e) for x in srcs if x is not None and x.k != "LambdaExpr"]
                lam = [x for x in srcs if x is not None and x.k == "LambdaExpr"]
                if lam:
                    a = join(*sv)
                    lv = [self.lam(x, a, e) for x in lam]
                    sv = [weak(a)] + lv if any(l[0] for l in lv) else sv + lv
                vs.extend(sv)
                for c in self.conds(at): vs.append(weak(self.ev(c, e)))
            return join(*vs)
        return self.fixed(("w", var, tuple(id(w[1]) for w in ws), self.ekey(env)), go)

    def ekey(self, env): return None if env is None else env[3]

    def top(self, f): return ({}, None, f, ("top", f.id))

    def env(self, f, params, this):
        tk = None if this is None else this[0]
        return (params, this, f, (f.id, tuple(sorted((k, tuple(sorted(v[0])), tuple(sorted(v[1]))) for k, v in params.items())), tk))

    def param(self, var, f):
        def go():
            i = next((j for j, x in enumerate(f.params) if x["var"] == var), None)
            ss = self.sites.get(f.id, ())
            if i is None or not ss: return (frozenset([Q]), E0)
            return join(*[self.ev(a[i], self.top(g)) if i < len(a) and a[i] is not None else NONE for g, n, a in ss])
        return self.fixed(("p", var), go)

    def lam(self, n, a, env):
        vs = []
        for g in self.p.lambdas.get(n.lam, ()):
            vs.append(self.call(g, [a] * len(g.params), None, env))
        return join(*vs)

    def call(self, f, args, this, env=None):
        """value returned by f"""
        if f.body is None: return (frozenset([Q]), E0)
        prm = {x["var"]: (args[i] if i < len(args) else NONE) for i, x in enumerate(f.params)}
        if env is not None: prm = {**env[0], **prm}; this = this or env[1]
        e = self.env(f, prm, this)

        def go():
            vs = []
            for n in f.nodes():
                if n.k == "ReturnStmt" and n.c and n.c[0] is not None:
                    vs.append(self.ev(n.c[0], e))
                    for c in self.conds(n): vs.append(weak(self.ev(c, e)))
            return join(*vs)
        return self.fixed(("c", e[3]), go)

    def construct(self, f, params):
        """fields of the object made by constructor f"""
        e = self.env(f, params, None)
        r = {}
        for i in f.inits:
            x = i.get("e")
            if i.get("m") and x is not None: r[f"{f.cls}::{i['m']}"] = self.ev(x, (e[0], ("ctor", r), f, e[3]))
            elif x is not None:
                y = x
                while y.k in PASS and y.c: y = y.c[0]
                g = self.p.fns.get(y.f) if y.f else None
                if g is not None:
                    av = [self.ev(a, e) if a is not None else NONE for a in y.c[1:]]
                    r.update(self.construct(g, {z["var"]: av[j] if j < len(av) else NONE for j, z in enumerate(g.params)}))
        return r

    def objects(self, cls):
        """all ways to construct an object of exactly this class: [(key, fields)]"""
        def go():
            r = []
            for f in self.ctors.get(cls, ()):
                if len(f.params) == 1 and re.sub(r"^const | ?&+$", "", str(getattr(f.params[0]["t"], "s", f.params[0]["t"]))) == cls: continue
                if not f.inits: continue
                top = [s for s in self.sites.get(f.id, ()) if s[0].kind != "ctor" or s[0].cls not in self.down_up(cls)]
                if not top: continue
                fields = self.construct(f, {x["var"]: join(*[self.ev(a[i], self.top(g)) if i < len(a) and a[i] is not None else NONE
                                                             for g, n, a in top]) for i, x in enumerate(f.params)})
                key = tuple(sorted((k, tuple(sorted(v[0])), tuple(sorted(v[1]))) for k, v in fields.items()))
                r.append((hash(key), fields, f))
            return r
        v = self.fixed(("o", cls), go)
        return v if isinstance(v, list) else []

    def down_up(self, cls):
        r = set(self.down(cls))
        return r

    def field(self, q, this):
        vs = [self.written(q, None)]
        if this is not None:
            if q in this[1]: vs.append(this[1][q])
        else:
            cls = q.rsplit("::", 1)[0]
            for c in self.down(cls):
                for k, fields, f in self.objects(c):
                    if q in fields: vs.append(fields[q])
        return join(*vs)

    def part(self, v, cls):
        """a part of a value made of several columns (which one isn't tracked)"""
        if len(v[0]) > 1 and cls not in WHOLE: return (v[0] | {Q}, v[1])
        return v

    def ev(self, n, env):
        if n is None or n.k in LIT: return NONE
        k = n.k
        sub = lambda xs: join(*[self.ev(x, env) for x in xs if x is not None])
        if k in PASS: return sub(n.c)
        if k == "DeclRefExpr":
            v = n.var
            if not v: return NONE
            if v in env[0] or v in self.powner:
                pv = lambda: env[0][v] if v in env[0] else self.param(v, self.powner[v])
                if not self.writes.get(v): return pv()
                return join(self.written(v, env, n), pv() if self.reaching(n, v)[1] else NONE)
            if "ColumnFile::Column" in (n.t.s if n.t else "") and "vector" not in n.t.s and "array" not in n.t.s:
                c = self.column(v)
                if c is not None: return (frozenset(["@" + c]), E0)
            if v in self.p.gvars:
                i = self.p.gvars[v].get("init")
                return NONE
            return self.written(v, env, n)
        if k == "MemberExpr":
            b = n.c[0] if n.c else None
            while b is not None and b.k in PASS and b.c: b = b.c[0]
            q = n.d.get("field")
            if not q: return self.ev(b, env)
            if b is None or b.k == "CXXThisExpr": return self.field(q, env[1])
            if self.entity(b.t): return self.field(q, None)
            return self.part(self.ev(b, env), q.rsplit("::", 1)[0])
        if k == "ConditionalOperator":
            x = n.c
            cond = n.d.get("cond") or x[0]
            rest = [y for y in n.subs() if y is not cond]
            return join(weak(self.ev(cond, env)), *[self.ev(y, env) for y in rest])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op in ("=", ","): return self.ev(n.c[1], env)
            return sub(n.c)
        if k == "LambdaExpr": return NONE
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if n.t is not None and self.entity(n.t) and "_ptr" not in n.t.s and not n.d.get("copy"):
                return NONE
            g = self.p.fns.get(n.f)
            if g is not None and g.inits and n.t is not None and n.t.s.replace("const ", "") in WHOLE and not n.d.get("copy"):
                av = [self.ev(a, env) if a is not None else NONE for a in n.c[1:]]
                fs = self.fixed(("v", g.id, tuple((tuple(sorted(a[0])), tuple(sorted(a[1]))) for a in av)),
                                lambda: join(*self.construct(g, {x["var"]: av[i] if i < len(av) else NONE for i, x in enumerate(g.params)}).values()))
                if fs[0] and Q not in fs[0]: return join(fs, weak(join(*av)))
            return sub(n.c)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"): return self.callexpr(n, env)
        return join(*[self.ev(x, env) for x in n.subs()])

    def callexpr(self, n, env):
        recv = n.c[0] if n.c else None
        args = n.c[1:]
        name = (n.fq or "").rsplit("::", 1)[-1]
        if (n.fq or "").startswith(NSP + "ColumnFile::") or (recv is not None and recv.t is not None and self.entity(recv.t) == NSP + "ColumnFile"):
            v = join(*[self.ev(a, env) for a in args if a is not None])
            cols = {x[1:] for x in v[0] if x[0] == "@"}
            rest = frozenset(x for x in v[0] if x[0] != "@")
            return (frozenset(cols) | rest, v[1])
        lams = [a for a in args if a is not None and a.k == "LambdaExpr"]
        av = [self.ev(a, env) if a is not None else NONE for a in args]
        gs = [g for g in self.p.targets(n) if g.body is not None]
        own = self.p.fns.get(n.f)
        if own is not None and own.body is not None and own not in gs: gs.append(own)
        rb = recv
        while rb is not None and rb.k in PASS and rb.c: rb = rb.c[0]
        if gs and any(g.q.startswith("kanji_tools") for g in gs):
            this = None
            isthis = rb is not None and rb.k == "CXXThisExpr"
            ent = rb is not None and rb.t is not None and self.entity(rb.t)
            if isthis: this = env[1]
            if rb is None or isthis or ent or gs[0].lam:
                vs = []
                for g in gs:
                    a = av
                    e = None
                    if g.lam: e = env; 
                    if g.lam and rb is not None and len(n.c) - 1 != len(g.params): a = av[-len(g.params):] if g.params else []
                    vs.append(self.call(g, a, this, e))
                r = join(*vs)
                # a function of its arguments whose result isn't followed explicitly
                if not rb and not r[0]: return join(r, weak(join(*av)))
                return r
            return join(self.part(self.ev(recv, env), gs[0].cls or ""), *av)
        if n.t is not None and self.entity(n.t) and name in LOOKUP: return join(weak(self.ev(recv, env)) if recv is not None else NONE, *av)
        if n.oper in ("[]",) or name in LOOKUP:
            ops = [x for x in n.c if x is not None]
            return join(self.ev(ops[0], env), *[weak(self.ev(x, env)) for x in ops[1:]])
        if name in ("make_shared", "make_unique") and n.t is not None and self.entity(n.t): return NONE
        if lams:
            a = join(*av, self.ev(recv, env))
            lv = [self.lam(x, a, env) for x in lams]
            return join(weak(a), *lv) if any(l[0] for l in lv) and name in ("transform", "accumulate", "transform_reduce") else join(a, *[weak(l) for l in lv])
        return join(self.ev(recv, env) if recv is not None else NONE, *av)

    def column(self, var):
        g = self.p.gvars.get(var)
        init = g.get("init") if g else None
        if init is None:
            for f, at, srcs in self.writes.get(var, ()): init = srcs[0] if srcs else None
        if init is None: return None
        for x in init.walk():
            if x.k == "StringLiteral": return x.v if isinstance(x.v, str) else str(x.v or x.s)
        for x in init.walk():
            if x.k == "DeclRefExpr" and x.var and x.var != var: return self.column(x.var)
        return None

    def method(self, cls, name):
        q = cls
        seen = []
        while q:
            ms = [f for f in self.p.fns.values() if f.q == f"{q}::{name}" and not f.params and f.body is not None]
            if ms: return ms[0]
            q = next(iter(self.bases(q)), None)
        return None

    def attr(self, cls, name):
        m = self.method(cls, name)
        if m is None: return None
        r = []
        for k, fields, f in self.objects(cls):
            r.append(self.call(m, [], (k, fields)))
        return m, (join(*r) if r else None)


def solve(p, wants):
    pr = Prov(p)
    old = None
    for _ in range(6):
        pr.cut = False
        pr.prev, pr.memo = pr.memo, {}
        res = {(c, a): pr.attr(c, a) for c, a in wants}
        if not pr.cut or res == old: break
        old = res
    return pr, res


def row(names, **attrs):
    return [(NSP + n, a, *(v if isinstance(v, tuple) else (v, v))) for n in names.split() for a, v in attrs.items()]


# class, accessor, columns that are required, columns that are allowed
ALL = "JouyouKanji JinmeiKanji LinkedJinmeiKanji LinkedOldKanji FrequencyKanji ExtraKanji KenteiKanji UcdKanji"
EXPECT = (
    row("JouyouKanji JinmeiKanji ExtraKanji", reading="Reading", radical=("~Radical", "Number Name Radical")) +
    row("LinkedJinmeiKanji LinkedOldKanji", reading=("Reading", "Reading On Kun"), radical="Radical", strokes="Strokes VStrokes") +
    row("FrequencyKanji", reading="Reading On Kun") + row("KenteiKanji UcdKanji", reading="On Kun") +
    row("FrequencyKanji KenteiKanji UcdKanji", radical="Radical", strokes="Strokes VStrokes", oldNames=("LinkNames", "LinkNames LinkCodes"),
        newName=("LinkNames", "LinkNames LinkCodes")) +
    row("JouyouKanji ExtraKanji", strokes="Strokes") + row("JinmeiKanji", strokes="Strokes VStrokes") +
    row(ALL, meaning="Meaning", pinyin="Pinyin", morohashiId="MorohashiId", nelsonIds="NelsonIds") +
    row("JouyouKanji JinmeiKanji", year="Year", oldNames="OldNames") + row("JouyouKanji", grade="Grade", extraTypeInfo="Number Year") +
    row("JinmeiKanji", reason="Reason", extraTypeInfo="Number Year Reason") +
    row("ExtraKanji", extraTypeInfo="Number", oldNames=("LinkNames", "LinkNames LinkCodes"), newName=("LinkNames", "LinkNames LinkCodes")) +
    row("Ucd", entry=("Name", "Name Code"), name=("Name", "Name Code"), code=("", "Name Code"), block="Block", version="Version", radical="Radical",
        strokes="Strokes VStrokes", pinyin="Pinyin", morohashiId="MorohashiId", nelsonIds="NelsonIds", sources=("~Sources", "Sources Joyo Jinmei"),
        joyo=("~Joyo", "Sources Joyo Jinmei"), jinmei=("~Jinmei", "Sources Joyo Jinmei"), jSource="JSource",
        links=("LinkNames", "LinkNames LinkCodes"), linkType="LinkType", meaning="Meaning", onReading="On", kunReading="Kun") +
    row("Strokes", value="Strokes", variant="VStrokes") +
    row("Radical", number="Number", name="Name", altForms="Name", longName="LongName", reading="Reading") +
    row("PatternGroup MeaningGroup", number="Number", name="Name"))


def check(ctx):
    p = ctx.p
    und = ctx.info["undecided"] = []
    pr, res = solve(p, [(c, a) for c, a, r, w in EXPECT])
    for cls, a, req, allow in EXPECT:
        m, v = res[(cls, a)] or (None, None)
        name = f"{cls[len(NSP):]}::{a}"
        if m is None or v is None:
            und.append(f"{name}: " + ("no such accessor" if m is None else "construction isn't followed")); continue
        s, w = v[0] - {Q}, v[1] - {Q}
        open_ = Q in v[0]
        wrong = sorted(s - set(allow.split()))
        miss = [x for x in (y.lstrip("~") for y in req.split()) if x not in s and not ((not s or "~" + x in req.split()) and x in w)]
        if (wrong or miss) and open_: und.append(f"{name}: {wrong or miss}"); continue
        at = next((f for k, fs, f in pr.objects(cls)), m)
        if wrong: ctx.bad("source", at, f"{name} is computed from column {', '.join(wrong)} (expected: {allow})", key=f"source {name}")
        elif miss: ctx.bad("source", at, f"{name} isn't computed from column {', '.join(miss)} (but from {', '.join(sorted(s)) or 'none'})", key=f"source {name}")
        else: ctx.ok("source", m, f"{name}: {', '.join(sorted(s or w))}")
    ctx.need(any(o[0] == "source" for o in ctx.obl), "no attribute was followed")
    ctx.info.update(attributes=len(EXPECT), call_sites=sum(len(x) for x in pr.sites.values()), writes=sum(len(x) for x in pr.writes.values()))
