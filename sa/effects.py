"""Write-effect analysis over the whole program.

For every function a summary says which storage it may write, transitively: its object (T), the
referent/pointee of a parameter (P,i), a variable with static storage (G), something captured by a
lambda (C/CP), the pointee of a pointer-like field (F), the pointee of a stored handle (S), or
unknown (U).  Own frame storage (L) and fresh heap objects (H) are not effects.  Summaries are
substituted at call sites; virtual calls use every overrider; a lambda counts as called where it is made."""
from .facts import Node, show

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
# non-const std members that hand out access without changing the object
ACCESS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "at", "front", "back", "data", "get",
          "lower_bound", "upper_bound", "equal_range", "operator*", "operator->", "value", "operator[]", "c_str",
          "rdbuf", "flags", "width", "top"}
MOVES = {"std::move", "std::forward", "std::get", "std::make_shared", "std::make_unique", "std::make_pair", "std::ref",
         "std::cref", "std::addressof", "std::begin", "std::end", "std::next", "std::prev", "std::make_tuple",
         "std::tie", "std::as_const", "std::async", "std::__addressof", "std::distance", "std::data", "std::size",
         "std::back_inserter", "std::inserter", "std::invoke", "std::apply", "std::min", "std::max", "std::visit",
         "std::to_address", "std::construct_at", "std::ssize", "std::empty", "std::to_underlying", "std::any_cast",
         "std::make_optional", "std::quoted", "std::setw", "std::allocate_shared", "std::make_any"}
MUTALG = {"std::sort", "std::stable_sort", "std::shuffle", "std::reverse", "std::fill", "std::fill_n", "std::iota",
          "std::copy", "std::copy_if", "std::copy_n", "std::transform", "std::remove", "std::remove_if", "std::unique",
          "std::rotate", "std::generate", "std::partition", "std::swap_ranges", "std::iter_swap", "std::replace",
          "std::replace_if", "std::move_backward", "std::nth_element", "std::partial_sort", "std::random_shuffle",
          "std::exchange", "std::swap"}
ARGWRITE = {"operator>>", "swap", "merge", "read", "get", "getline", "splice", "extract", "readsome"}


def is_handle(t):
    """does a value of this type refer to another object (pointer, smart pointer, iterator, view)?"""
    if t is None: return False
    t = t.strip()
    if t.k == "ptr": return True
    if t.k != "rec": return False
    n = t.n
    return ("iterator" in n or "shared_ptr" in n or "unique_ptr" in n or n.endswith("weak_ptr")
            or "reference_wrapper" in n or n in ("std::span",) or n.endswith("::_Bit_reference"))


def pointee_const(t):
    t = t.strip()
    if t.k == "ptr": return t.to.const
    if t.k == "rec" and t.a and hasattr(t.a[0], "const"): return t.a[0].const
    return False


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.assigned = {}   # fn -> {var: [exprs assigned]}
        self.lamexpr = {}    # lambda id -> (creating fn, LambdaExpr node)
        self.binds = {}
        self.makers = set()  # functions that contain a lambda expression
        self.vardecl = {}
        for f in prog.fns.values():
            self._scan(f)
        self._retobj, self._retpt = {}, {}
        self._objmemo = {}
        self.eff = {}
        self.sites = {}      # fn -> {root: (node, text)}
        self._fix()

    def _scan(self, f):
        a = {}
        for n in f.nodes():
            if n.k == "DeclStmt":
                for v in n.d["d"]:
                    self.vardecl[(f.id, v["var"])] = v
                    i = v.get("init") or v.get("sinit")
                    if i is not None: a.setdefault(v["var"], []).append(i)
                    for b in v.get("bind", ()):
                        self.binds[(f.id, b["id"])] = b
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op == "=" and n.c[0] and n.c[0].k == "DeclRefExpr":
                a.setdefault(n.c[0].var, []).append(n.c[1])
            elif n.k == "CXXOperatorCallExpr" and n.oper == "=" and n.c[0] and n.c[0].k == "DeclRefExpr":
                a.setdefault(n.c[0].var, []).append(n.c[1])
            elif n.k == "LambdaExpr":
                self.lamexpr[n.lam] = (f, n)
                self.makers.add(f.id)
        self.assigned[f.id] = a

    # -- roots ---------------------------------------------------------------------------------
    def this_root(self, f):
        if f.lam:
            g = f
            while g is not None and g.lam:
                g = self.p.fns.get(g.inside)
            return ("CT", g.cls if g else None)
        return ("T", f.cls)

    def param_index(self, f, var):
        for i, p in enumerate(f.params):
            if p["var"] == var: return i
        return None

    def var_obj(self, n, f, seen):
        v = n.var
        if n.g: 
            if n.t and False: pass
            g = self.p.gvars.get(v)
            if g and g["t"].k == "ref": return {("G", v)}
            return {("G", v)}
        i = self.param_index(f, v)
        if i is not None:
            return {("P", i)} if f.params[i]["t"].k == "ref" else {("L", v)}
        d = self.vardecl.get((f.id, v))
        if d is not None:
            if d.get("static"): return {("G", v)}
            if d["t"].k == "ref":
                key = ("o", f.id, v)
                if key in seen: return set()
                r = set()
                for e in self.assigned[f.id].get(v, [])[:1]:
                    r |= self.obj(e, f, seen | {key})
                return r or {("U", "reference " + (n.n or v))}
            return {("L", v)}
        # captured from an enclosing function
        cap = self.capture(f, v)
        if cap is not None:
            if cap.get("ic") and cap.get("init") is not None and not cap["ref"]: return {("L", v)}
            return {("C", v)} if cap["ref"] else {("CV", v)}
        return {("L", v)}   # catch variable, loop variable of a desugared form

    def capture(self, f, v):
        if not f.lam: return None
        le = self.lamexpr.get(f.lam)
        if not le: return None
        for c in le[1].d["caps"]:
            if c.get("var") == v or c.get("bind") == v: return c
        return None

    def var_pt(self, n, f, seen):
        v = n.var
        if n.g: return {("G", v)}
        i = self.param_index(f, v)
        if i is not None:
            # the pointee of a handle passed by reference is not the handle itself
            return {("PP", i)} if f.params[i]["t"].k == "ref" and is_handle(f.params[i]["t"]) else {("P", i)}
        if (f.id, v) in self.vardecl:
            key = ("p", f.id, v)
            if key in seen: return set()
            r = set()
            d = self.vardecl[(f.id, v)]
            if d["t"].k == "ref":
                es = self.assigned[f.id].get(v, [])[:1]
            else:
                es = self.assigned[f.id].get(v, [])
            for e in es: r |= self.pt(e, f, seen | {key})
            return r
        if self.capture(f, v) is not None: return {("CP", v)}
        return {("U", "pointer " + (n.n or v))}

    def bind_expr(self, n, f):
        b = self.binds.get((f.id, n.bind))
        return b["e"] if b else None

    def obj(self, n, f, seen=frozenset()):
        """roots of the object an expression denotes"""
        if n is None: return set()
        k = n.k
        if k == "DeclRefExpr":
            if n.fn: return set()
            if n.bind is not None:
                e = self.bind_expr(n, f)
                if e is not None: return self.obj(e, f, seen)
                c = self.capture(f, n.bind)
                return {("C", n.bind)} if c and c["ref"] else {("CV", n.bind)}
            if n.var is None: return {("L", "const")}
            return self.var_obj(n, f, seen)
        if k == "Hold":
            return self.obj(n.c[0], f, seen) if n.c else {("L", "bind")}
        if k == "MemberExpr":
            if n.g: return {("G", n.var)}
            if n.field is None: return set()
            base = n.c[0]
            ft = n.t
            rt = self.field_type(n.field)
            if rt is not None and rt.k == "ref": return {("F", n.field)}
            if n.arrow or base.k == "CXXThisExpr": return self.pt(base, f, seen)
            return self.obj(base, f, seen)
        if k == "CXXThisExpr": return {("L", "this")}
        if k == "UnaryOperator":
            if n.op == "*": return self.pt(n.c[0], f, seen)
            if n.op in ("++", "--"): return self.obj(n.c[0], f, seen)
            return {("L", "temp")}
        if k == "ArraySubscriptExpr":
            b = n.c[0]
            return self.pt(b, f, seen) if b.t and b.t.k == "ptr" else self.obj(b, f, seen)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == ",": return self.obj(n.c[1], f, seen)
            if n.op in ASSIGN: return self.obj(n.c[0], f, seen)
            if n.op in (".*", "->*"):
                return self.pt(n.c[0], f, seen) if n.op == "->*" else self.obj(n.c[0], f, seen)
            return {("L", "temp")}
        if k in ("ConditionalOperator", "BinaryConditionalOperator"):
            return self.obj(n.c[-2], f, seen) | self.obj(n.c[-1], f, seen)
        if k.endswith("CastExpr"): 
            if n.ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "LValueBitCast", "Dynamic"):
                return self.obj(n.c[0], f, seen)
            return {("L", "temp")} if not n.lv else self.obj(n.c[0], f, seen)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            isref = n.lv or (n.fq or "") in ("std::move", "std::forward", "std::as_const")
            if not isref:
                return {("L", "temp")}
            return self.call_roots(n, f, seen, "obj")
        if k in ("OpaqueValueExpr",) and n.c: return self.obj(n.c[0], f, seen)
        if k == "InitListExpr" and len(n.c) == 1 and n.c[0] is not None and n.c[0].lv and (n.lv or n.t is n.c[0].t or
                n.t is not None and n.c[0].t is not None and n.t.strip().s.replace("const ", "") == n.c[0].t.strip().s.replace("const ", "")):
            return self.obj(n.c[0], f, seen)   # {x} bound to a reference
        return {("L", "temp")}

    def pt(self, n, f, seen=frozenset()):
        """roots of what a pointer-like value refers to"""
        if n is None: return set()
        k = n.k
        if k == "CXXThisExpr": return {self.this_root(f)}
        if k == "DeclRefExpr":
            if n.fn: return set()
            if n.bind is not None:
                e = self.bind_expr(n, f)
                return self.pt(e, f, seen) if e is not None else {("CP", n.bind)}
            return self.var_pt(n, f, seen) if n.var is not None else set()
        if k == "Hold": return self.pt(n.c[0], f, seen) if n.c else set()
        if k == "MemberExpr":
            if n.g: return {("G", n.var)}
            if n.t and n.t.strip().k == "arr": return self.obj(n, f, seen)
            return {("F", n.field)} if n.field else set()
        if k == "UnaryOperator":
            if n.op == "&": return self.obj(n.c[0], f, seen)
            if n.op == "*": return self.stored(n)
            return self.pt(n.c[0], f, seen)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.op == ",": return self.pt(n.c[1], f, seen)
            return self.pt(n.c[0], f, seen) | (self.pt(n.c[1], f, seen) if is_handle(n.c[1].t) else set())
        if k in ("ConditionalOperator", "BinaryConditionalOperator"):
            return self.pt(n.c[-2], f, seen) | self.pt(n.c[-1], f, seen)
        if k.endswith("CastExpr"): return self.pt(n.c[0], f, seen) if n.ck != "NullToPointer" else set()
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.call_roots(n, f, seen, "pt")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [x for x in n.c[1:] if x is not None]
            if not a: return set()
            r = set()
            for x in a:
                if is_handle(x.t): r |= self.pt(x, f, seen)
                else: r |= self.obj(x, f, seen)
            return r
        if k == "InitListExpr":
            r = set()
            for x in n.c:
                if x is not None and is_handle(x.t): r |= self.pt(x, f, seen)
            return r
        if k == "CXXNewExpr": return {("H", n.t.s)}
        if k in ("CXXNullPtrLiteralExpr", "ImplicitValueInitExpr", "StringLiteral"): return set() if k != "StringLiteral" else {("L", "lit")}
        if k == "ArraySubscriptExpr": return self.stored(n)
        return {("U", show(n))}

    def stored(self, n):
        t = n.t.strip() if n.t else None
        if t is not None and t.k == "ptr": return {("S", t.to.s)}
        if t is not None and t.k == "rec" and t.a and hasattr(t.a[0], "s"): return {("S", t.a[0].s)}
        return {("S", t.s if t else "?")}

    def field_type(self, field):
        if not hasattr(self, "_ft"):
            self._ft = {}
            for r in self.p.recs.values():
                for x in r["fields"]: self._ft.setdefault(r["q"] + "::" + x["n"], x["t"])
        return self._ft.get(field)

    def call_roots(self, n, f, seen, what):
        """roots of a call's result"""
        targets = self.p.targets(n)
        if targets:
            r = set()
            for g in targets:
                key = (what, g.id)
                if key in seen: continue
                for root in self.ret(g, what, seen | {key}):
                    r |= self.subst(root, n, f, g, seen)
            return r
        fq = n.fq or ""
        short = fq.split("::")[-1]
        if n.own:   # declared here, body not exported (should not happen)
            return {("U", "call of " + fq)}
        if fq in ("std::make_shared", "std::make_unique", "std::allocate_shared"): return {("H", n.t.s)}
        recv = n.c[0] if n.k == "CXXMemberCallExpr" or n.memop else None
        if recv is not None:
            rt = recv.t
            if what == "obj":
                if n.arrow or (is_handle(rt) and short in ("operator*", "operator->", "operator[]", "get")):
                    return self.pt(recv, f, seen)
                return self.pt(recv, f, seen) if n.arrow else self.obj(recv, f, seen)
            # handle wanted
            if is_handle(rt) and not n.arrow:
                if short in ("operator*", "operator[]") : 
                    # element of the pointed-to container is itself a handle; operator-> / get give the pointee
                    return self.stored(n)
                return self.pt(recv, f, seen)
            if short in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound",
                         "data", "c_str", "insert", "emplace", "erase", "emplace_hint"):
                return self.pt(recv, f, seen) if n.arrow else self.obj(recv, f, seen)
            if is_handle(n.t): return self.stored(n)
            return self.pt(recv, f, seen) if n.arrow else self.obj(recv, f, seen)
        args = [x for x in n.c[1:] if x is not None]
        if n.indirect or n.mptrcall: return {("U", "indirect call")}
        r = set()
        if what == "obj":
            for x in args[:1] if not fq.startswith("std::get") else args:
                r |= self.obj(x, f, seen)
            return r
        for x in args:
            r |= self.pt(x, f, seen) if is_handle(x.t) else self.obj(x, f, seen) if x.lv else set()
        return r

    def ret(self, g, what, seen):
        memo = self._retobj if what == "obj" else self._retpt
        if g.id in memo: return memo[g.id]
        r = set()
        for n in g.nodes():
            if n.k == "ReturnStmt" and n.c and n.c[0] is not None and self.owner(n) is None:
                r |= self.obj(n.c[0], g, seen) if what == "obj" else self.pt(n.c[0], g, seen)
        if len(seen) < 2: memo[g.id] = r
        return r

    def owner(self, n):
        return None   # bodies of lambdas are separate functions and not part of nodes()

    def subst(self, root, n, f, g, seen=frozenset()):
        """a root of callee g, in terms of the caller f at call node n"""
        k = root[0]
        if k in ("P", "PP"):
            i = root[1] + 1
            if g.kind == "ctor": args = n.c
            else: args = n.c
            # static operator / static member called through an object
            if n.k == "CXXOperatorCallExpr" and not n.memop: args = n.c
            if i >= len(args) or args[i] is None: return set()
            a = args[i]
            pt = g.params[root[1]]["t"]
            if k == "PP" or is_handle(pt) and pt.k != "ref":
                return self.pt(a, f, seen)
            return self.obj(a, f, seen)
        if k == "T":
            if g.kind == "ctor": return {("L", "new")}
            recv = n.c[0] if n.c else None
            if recv is None: return {("U", "receiver")}
            if n.arrow or recv.k == "CXXThisExpr": return self.pt(recv, f, seen)
            if n.k == "CXXOperatorCallExpr": return self.obj(recv, f, seen)
            return self.obj(recv, f, seen)
        if k in ("C", "CP", "CV"):
            # captured variable of a lambda called here: if it was made here, map it
            le = self.lamexpr.get(g.lam)
            if le and le[0].id == f.id: return self.uncapture(root, f, seen)
            v = root[1]
            if (f.id, v) in self.vardecl or (f.id, v) in self.binds or self.param_index(f, v) is not None:
                return self.uncapture(root, f, seen)   # a lambda made here, called further down
            return {root}
        if k == "CT":
            le = self.lamexpr.get(g.lam) if g.lam else None
            if le and le[0].id == f.id: return {self.this_root(f)}
            if not f.lam and f.cls == root[1] and f.id in self.makers: return {self.this_root(f)}
            return {root}
        if k in ("L", "H"): return {("L", "callee")} if k == "L" else {root}
        return {root}

    def uncapture(self, root, f, seen=frozenset()):
        v = root[1]
        fake = Node(); fake.k = "DeclRefExpr"; fake.d = {"var": v, "n": v.split("@")[0]}; fake.c = []; fake.t = None
        fake.l = 0; fake.up = None; fake.i = -1; fake.of = f
        b = self.binds.get((f.id, v))
        if b is not None:
            fake.d = {"bind": v, "n": v}
        if root[0] == "C": return self.obj(fake, f, seen)
        if root[0] == "CP": return self.pt(fake, f, seen)
        return {("L", v)}

    # -- effects ----------------------------------------------------------------------------------
    def direct(self, f):
        """[(root, node, text)] written by f itself, calls of own functions excluded"""
        out = []

        def w(roots, n, text):
            for r in roots: out.append((r, n, text))

        for ini in f.inits:
            pass   # a constructor's own members are fresh
        for n in f.nodes():
            k = n.k
            if k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN:
                w(self.obj(n.c[0], f), n, show(n))
            elif k == "UnaryOperator" and n.op in ("++", "--"):
                w(self.obj(n.c[0], f), n, show(n))
            elif k == "CXXDeleteExpr":
                w(self.pt(n.c[0], f), n, show(n))
            elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                ts = self.p.targets(n)
                if ts or n.own:
                    if n.own and not ts:
                        d = self.p.decls.get(n.f)
                        if d is not None and (d.kind == "assign" or d.defaulted):
                            if d.kind == "assign": w(self.obj(n.c[0], f), n, show(n))
                        elif d is None or not d.pure:
                            w({("U", "body of " + (n.fq or "?"))}, n, show(n))
                    for g in ts:
                        if g.kind == "assign" and (g.defaulted or g.implicit):
                            w(self.obj(n.c[0], f), n, show(n))
                    continue
                self.std_call(n, f, w)
            elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                # moved-from arguments
                for a in n.c[1:]:
                    if a is not None and a.k == "CallExpr" and a.fq == "std::move" and a.c[1].t and not a.c[1].t.const:
                        w(self.obj(a.c[1], f), n, show(n))
        return out

    def std_call(self, n, f, w):
        fq = n.fq or ""
        short = fq.split("::")[-1]
        recv = n.c[0] if n.k == "CXXMemberCallExpr" or n.memop else None
        args = n.c[1:]
        if n.indirect or n.mptrcall:
            w({("U", "indirect call " + show(n.c[0]))}, n, show(n)); return
        if recv is not None:
            if not n.cm and not n.sm:
                acc = short in ACCESS
                rt = recv.t.strip() if recv.t else None
                if short == "operator[]" and rt is not None and rt.n in ("std::map", "std::unordered_map"): acc = False
                if short == "get" and rt is not None and "stream" in rt.n: acc = False
                if not acc:
                    tgt = self.pt(recv, f) if n.arrow else self.obj(recv, f)
                    w(tgt, n, show(n))
            if short in ARGWRITE:
                for i, a in enumerate(args):
                    if a is None: continue
                    pt = (n.pt or [])[i] if i < len(n.pt or []) else None
                    if pt is not None and pt.k == "ref" and not pt.to.const and not pt.rv: w(self.obj(a, f), n, show(n))
                    elif pt is not None and pt.k == "ptr" and not pt.to.const: w(self.pt(a, f), n, show(n))
            # operator<< (ostream&, T) as a member writes the receiver: handled above (non-const)
            return
        if fq == "std::swap" or fq in MUTALG:
            for a in args:
                if a is None: continue
                if is_handle(a.t):
                    if not pointee_const(a.t): w(self.pt(a, f), n, show(n))
                elif a.lv and a.t and not a.t.const: w(self.obj(a, f), n, show(n))
            return
        if fq in MOVES or fq.startswith("std::ranges::views"): 
            return
        for i, a in enumerate(args):
            if a is None: continue
            pts = n.pt or []
            # operator call arguments: params line up with args
            pt = pts[i] if i < len(pts) else None
            if pt is None: continue
            if pt.k == "ref" and not pt.to.const and not pt.rv and a.lv:
                w(self.obj(a, f), n, show(n))
            elif pt.k == "ref" and pt.rv and a.k == "CallExpr" and a.fq == "std::move":
                w(self.obj(a.c[1], f), n, show(n))
            elif pt.k == "ref" and pt.rv and not pt.to.const and "stream" in pt.to.s:
                w(self.obj(a, f), n, show(n))
            elif pt.k == "ptr" and not pt.to.const and pt.to.k != "fn":
                w(self.pt(a, f), n, show(n))

    def call_nodes(self, f):
        for n in f.nodes():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                ts = self.p.targets(n)
                for g in ts: yield n, g
            elif n.k == "LambdaExpr":
                for g in self.p.lambdas.get(n.lam, []): yield n, g
            elif n.k == "DeclRefExpr" and n.fn and n.own and n.up is not None and n.up.k not in ():
                # address of a function taken: assume it is called from here
                g = self.p.fns.get(n.f)
                if g is not None: yield n, g

    def callees(self, f):
        if not hasattr(self, "_cg"): self._cg = {}
        if f.id not in self._cg:
            s = {}
            for n, g in self.call_nodes(f): s.setdefault(g.id, n)
            # implicit destructors
            if f.cfg:
                for b in f.cfg.blocks.values():
                    for e in b.elems:
                        if isinstance(e, dict) and e.get("f") in self.p.fns: s.setdefault(e["f"], None)
            self._cg[f.id] = s
        return self._cg[f.id]

    def reach(self, roots):
        """function ids reachable from roots -> predecessor"""
        pred = {r: None for r in roots}
        todo = list(roots)
        while todo:
            x = todo.pop()
            f = self.p.fns.get(x)
            if f is None: continue
            for y in self.callees(f):
                if y not in pred:
                    pred[y] = x; todo.append(y)
        return pred

    def callers(self):
        if not hasattr(self, "_callers"):
            c = {}
            for f in self.p.fns.values():
                for g in self.callees(f): c.setdefault(g, set()).add(f.id)
            self._callers = c
        return self._callers

    def _fix(self):
        fns = self.p.fns
        calls = {}
        for f in fns.values():
            s = {}
            for r, n, text in self.direct(f):
                if r[0] in ("L", "H", "CV"): continue
                s.setdefault(r, (n, text, None))
            self.eff[f.id] = s
            calls[f.id] = list(self.call_nodes(f))
        ch = True
        rounds = 0
        memo = {}
        while ch and rounds < 60:
            ch = False; rounds += 1
            for f in fns.values():
                s = self.eff[f.id]
                for n, g in calls[f.id]:
                    for r in list(self.eff[g.id]):
                        key = (f.id, n.i, g.id, r)
                        m = memo.get(key)
                        if m is None:
                            if n.k == "LambdaExpr":
                                if r[0] in ("C", "CP", "CV"): m = self.uncapture(r, f)
                                elif r[0] == "CT": m = {self.this_root(f)}
                                elif r[0] in ("P", "PP", "T"): m = set()   # reported where the lambda is called
                                else: m = {r}
                            elif n.k == "DeclRefExpr":
                                m = set() if r[0] in ("P", "PP", "T") else {r}
                            else:
                                m = self.subst(r, n, f, g)
                            memo[key] = m
                        for x in m:
                            if x[0] in ("L", "H", "CV"): continue
                            if x not in s:
                                s[x] = (n, show(n), (g.id, r)); ch = True

    def trace(self, fid, root, limit=12):
        """path of calls that leads to a write: [(fn, node, text)]"""
        out = []
        while limit:
            limit -= 1
            e = self.eff.get(fid, {}).get(root)
            if e is None: break
            n, text, nxt = e
            out.append((fid, n, text))
            if nxt is None: break
            fid, root = nxt
        return out
