"""C18: the orders by which things are sorted are strict weak orders over the documented keys."""
import itertools, re

from sa.absint import Client, Frame, I, Interp, K, Limit, State
from sa.exc import short
from sa.facts import Node

EXPLAIN = ("Every comparison function (operator<, functions and lambdas given to sorting algorithms, operator==) is evaluated abstractly: of the two objects only how each of "
           "their keys compares (less, equal, greater) is known, for every combination of these. The result is the comparison as a function of the relations of the keys, on which "
           "irreflexivity, asymmetry, transitivity and transitivity of incomparability are decided for all triples of objects, as is the agreement with the documented keys.")
RULES = {"order": "the comparison is a strict weak order, for all triples of objects",
         "keys": "objects are ordered by the documented keys, in this sequence and direction",
         "distinct": "elements of a sorted set with different names are different elements",
         "equal": "operator== is an equivalence relation",
         "sorted": "containers are sorted before they're searched by bisection"}
ASSUME = ["a key (a getter or data member of one of the two objects) doesn't change while objects are compared", "keys of library types are totally ordered"]

# documented orders: (part of the name of the key, direction)
DOC = {"Kanji::orderByStrokes": [("strokes", 1), ("frequency", 1), ("ompatibilityName", 1)],
       "Kanji::orderByQualifiedName": [("qualifiedNameRank", 1), ("strokes", 1), ("frequency", 1), ("ompatibilityName", 1)],
       "Count::operator<": [("count", -1), ("frequency", 1), ("type", 1), ("name", 1)],
       "Radical::operator<": [("number", 1)]}
EQ = {"Kanji::operator==": "name", "Radical::operator==": "number", "Kana::operator==": "romaji", "Column::operator==": "number"}
CMP = ("<", ">", "<=", ">=", "==", "!=", "<=>")
A, B = "#A", "#B"


class Odd(Exception): pass


class Keys(Client):
    def __init__(self, p, rel):
        self.p = p; self.rel = rel
        self.seen = {}

    def inline(self, f, n): return f.cfg is not None

    def value(self, path, root, t=None):
        self.seen.setdefault(path, t)
        r = self.rel.get(path, 0)
        return {-1: (0, 1), 0: (0, 0), 1: (1, 0)}[r][0 if root == A else 1]

    def roots(self, v):
        """[(root, path)] of the objects a value comes from"""
        if isinstance(v, tuple) and v:
            if v[0] == "l" and v[1] and v[1][0] in (A, B): return [(v[1][0], v[1][1:])]
            if v[0] == "p" and isinstance(v[1], tuple) and v[1] and v[1][0] in (A, B): return [(v[1][0], v[1][1:])]
            if v[0] == "tup": return [x for y in v[1] for x in self.roots(y)]
            if v[0] == "kv": return [(v[1], v[2])]
        return []

    def num(self, it, s, v):
        if isinstance(v, I): return v.const()
        if isinstance(v, tuple) and v and v[0] == "b":
            t = s.truth(v[1])
            return None if t is None else int(t)
        r = self.roots(v)
        if len(r) == 1: return self.value(tuple(x for x in r[0][1] if x != "*"), r[0][0])
        return None

    def compare(self, it, s, x, y):
        """-1, 0, 1"""
        if isinstance(x, tuple) and x and x[0] == "l" and isinstance(s.env.get(x[1]), tuple) and s.env[x[1]][:1] == ("tup",): x = s.env[x[1]]
        if isinstance(y, tuple) and y and y[0] == "l" and isinstance(s.env.get(y[1]), tuple) and s.env[y[1]][:1] == ("tup",): y = s.env[y[1]]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ("tup",):
            for a, b in zip(x[1], y[1]):
                c = self.compare(it, s, a, b)
                if c: return c
            return 0
        rx, ry = self.roots(x), self.roots(y)
        if len(rx) == 1 and len(ry) == 1 and [k for k in rx[0][1] if k != "*"] != [k for k in ry[0][1] if k != "*"]: raise Odd("different keys are compared")
        a, b = self.num(it, s, x), self.num(it, s, y)
        if a is None or b is None: raise Odd("what is compared isn't a key")
        return (a > b) - (a < b)

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""
        sh = short(fq)
        vals = ([recv] if n.c and n.c[0] is not None and n.k != "CallExpr" else []) + [v for a, v in zip(n.c[1:], args) if a is not None]
        rs = [self.roots(v) for v in vals]
        rts = {r for x in rs for r, _ in x}
        if not n.own and n.k == "CallExpr" and sh in ("tie", "make_tuple", "forward_as_tuple", "make_pair"):
            return [(s, ("tup", tuple(vals)))]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = n.t.strip()
            if t.k == "rec" and t.n in ("std::tuple", "std::pair") and len(vals) >= 2: return [(s, ("tup", tuple(vals)))]
            if len(vals) == 1 and (rts or isinstance(vals[0], tuple) and vals[0][:1] == ("tup",)): return [(s, vals[0])]
            return None
        oper = n.oper if n.k == "CXXOperatorCallExpr" else None
        if oper in CMP and len(vals) == 2 and not any(isinstance(v, tuple) and (v[:1] == ("3w",) or v[:1] == ("l",) and isinstance(s.env.get(v[1]), tuple) and s.env[v[1]][:1] == ("3w",)) for v in vals):
            g = self.p.fns.get(n.f)
            if not (n.own and g is not None and g.cfg is not None and not getattr(g, "defaulted", False)):
                if rts or any(isinstance(v, tuple) and v[:1] == ("tup",) for v in vals):
                    c = self.compare(it, s, *vals)
                    if oper == "<=>": return [(s, ("3w", K(c), K(0)))]
                    return [(s, ("b", ("c", {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[oper])))]
        if sh == "compare" and len(vals) == 2 and rts == {A, B} and not n.own: return [(s, K(self.compare(it, s, *vals)))]
        if sh in ("compare_three_way", "less", "greater"): return None
        if not n.own and sh in ("operator*", "operator->", "get", "value", "move", "forward", "as_const") and len(rts) == 1 and len(vals) <= 1:
            if sh in ("move", "forward", "as_const"): return [(s, vals[0])]
            r, path = self.roots(vals[0])[0]
            if sh in ("operator->", "get"): return [(s, ("p", (r,) + path + ("*",), K(0)))]
            return [(s, ("l", (r,) + path + ("*",)))]
        if len(rts) == 1 and n.t is not None and n.t.k != "void":
            # a key: something computed from one of the objects
            root = rts.pop()
            path = tuple(k for x in rs for _, q in x for k in q if k != "*") + ("call", sh)
            t = n.t.strip()
            if t.k == "bool": return [(s, ("b", ("c", bool(self.value(path, root, t)))))]
            if t.range is not None or t.k == "enum": return [(s, K(self.value(path, root, t)))]
            if n.t.k == "ptr": return [(s, ("p", (root,) + path, K(0)))]
            self.types[path] = t
            return [(s, ("l", (root,) + path))]
        return None

    types = {}


class Interp18(Interp):
    def load(self, s, loc, t, n=None):
        if loc and loc[0] in (A, B) and t is not None:
            st = t.strip()
            path = tuple(x for x in loc[1:] if x != "*")
            if st.k == "bool": return ("b", ("c", bool(self.cl.value(path, loc[0], st))))
            if st.range is not None or st.k == "enum": return K(self.cl.value(path, loc[0], st))
            if st.k == "ptr": return ("p", loc + ("*",), K(0))
        return super().load(s, loc, t, n)


def run(p, f, rel, lam):
    cl = Keys(p, rel)
    it = Interp18(p, cl, maxdepth=8, widen=50, maxstates=3000, maxtime=10)
    s = State()
    prm = f.params
    this = None
    if f.cls is not None and not f.static and f.lam is None: this, names = (A,), [B]
    else: names = [A, B]
    for x, r in zip(prm, names):
        if x["t"].k == "ref": s.alias[("0", x["var"])] = (r,)
        else: s.alias[("0", x["var"])] = (r,)
    outs = it.run(s, Frame(f, "0", 0, this, stack=(f.id,)))
    res = set()
    for o in outs:
        if o.thrown is not None: continue
        v = o.val
        if isinstance(v, tuple) and v[:1] == ("3w",): res.add(v[1].const() < v[2].const()); continue
        res.add(o.state.truth(it.tocond(o.state, v)))
    if len(res) != 1 or None in res: raise Odd("result isn't determined by the keys")
    return res.pop(), cl.seen


def table(p, f, lam=False):
    """(keys, relation vector -> result)"""
    keys = {}
    while True:
        new, tab = dict(keys), {}
        ks = list(keys)
        if len(ks) > 5: raise Odd("more than five keys")
        for vec in itertools.product((-1, 0, 1), repeat=len(ks)):
            r, seen = run(p, f, dict(zip(ks, vec)), lam)
            tab[vec] = r
            for k, t in seen.items(): new.setdefault(k, t)
        if len(new) == len(keys): return ks, tab, keys
        keys = new


WEAK = sorted({(( x > y) - (x < y), (y > z) - (y < z), (x > z) - (x < z)) for x in range(3) for y in range(3) for z in range(3)})


def swo(ks, tab):
    """what's wrong with the table as a strict weak order"""
    n = len(ks)
    neg = lambda v: tuple(-x for x in v)
    if tab[(0,) * n]: return "an object is less than itself", (0,) * n
    for v in tab:
        if tab[v] and tab[neg(v)]: return "of two objects each is less than the other", v
    cls = {v: 1 if tab[v] else -1 if tab[neg(v)] else 0 for v in tab}
    for combo in itertools.product(WEAK, repeat=n):
        xy = tuple(c[0] for c in combo); yz = tuple(c[1] for c in combo); xz = tuple(c[2] for c in combo)
        a, b, c = cls[xy], cls[yz], cls[xz]
        if a == b and c != a: return ("less isn't transitive" if a else "equivalence isn't transitive"), xy
    return None


def equivalence(ks, tab):
    n = len(ks)
    if not tab[(0,) * n]: return "an object isn't equal to itself", (0,) * n
    for v in tab:
        if tab[v] != tab[tuple(-x for x in v)]: return "equality isn't symmetric", v
    for combo in itertools.product(WEAK, repeat=n):
        xy = tuple(c[0] for c in combo); yz = tuple(c[1] for c in combo); xz = tuple(c[2] for c in combo)
        if tab[xy] and tab[yz] and not tab[xz]: return "equality isn't transitive", xy
    return None


def name(k): return ".".join(str(x) for x in k if x != "call")


def comparators(p):
    """{function: how it's used}"""
    res = {}
    for f in p.fns.values():
        if f.cfg is None or not f.file.startswith("libs/") or getattr(f, "defaulted", False): continue
        sh = f.q.split("::")[-1]
        two = len(f.params) + (1 if f.cls and not f.static and f.lam is None else 0) == 2
        if sh in ("operator<", "operator==") and two and f.ret is not None and f.ret.strip().k == "bool" and "terator" not in f.q and same(f): res.setdefault(f, sh)
        elif sh.lower().startswith("order") and two and f.ret is not None and f.ret.strip().k == "bool" and same(f): res.setdefault(f, "order")
    for f in p.fns.values():
        if f.cfg is None or not f.file.startswith(("libs/", "apps/")): continue
        for n in f.nodes():
            if n.k != "CallExpr" or n.own or short(n.fq or "") not in ("sort", "stable_sort", "partial_sort", "nth_element", "min_element", "max_element", "lower_bound", "upper_bound", "binary_search", "equal_range", "make_heap"): continue
            for a in n.c[1:]:
                if a is None: continue
                for x in a.walk():
                    lam = x.lam if x.k == "LambdaExpr" else None
                    t = x.t.strip() if x.t is not None else None
                    if lam is None and t is not None and t.k == "rec": lam = t.lam
                    for g in p.lambdas.get(lam, ()) if lam else ():
                        if len(g.params) == 2: res.setdefault(g, "sort")
                    if x.k == "DeclRefExpr" and x.f and x.f in p.fns and len(p.fns[x.f].params) == 2: res.setdefault(p.fns[x.f], "sort")
    return res


def same(f):
    a = f.params[-1]["t"].strip()
    if len(f.params) == 2: return f.params[0]["t"].strip().s.replace("const ", "") == a.s.replace("const ", "")
    c = f.q.rsplit("::", 1)[0].split("::")[-1]
    return a.deref().strip().k == "rec" and a.deref().strip().n.split("::")[-1] == c.split("<")[0] or c in a.s


def setkeys(p):
    """classes that are elements of ordered sets or keys of maps"""
    res = {}
    def see(t, where):
        if t is None: return
        t = t.deref() if t.k in ("ref", "ptr") else t
        t = t.strip()
        if t.k == "rec" and t.n in ("std::set", "std::map", "std::multiset", "std::multimap") and t.a and hasattr(t.a[0], "k"):
            e = t.a[0].strip()
            if e.k == "rec" and e.n.startswith("kanji_tools::") and t.n in ("std::set", "std::map"): res.setdefault(e.n.split("::")[-1], where)
    for f in p.fns.values():
        if not f.file.startswith("libs/"): continue
        for x in f.params: see(x["t"], f)
        if f.body is not None:
            for n in f.nodes():
                if n.t is not None and n.k in ("DeclRefExpr", "CXXConstructExpr", "MemberExpr"): see(n.t, n)
    return res


def check(ctx):
    p = ctx.p
    und, tabs = [], {}
    sets = setkeys(p)
    for f, use in sorted(comparators(p).items(), key=lambda x: x[0].id):
        try: ks, tab, types = table(p, f)
        except (Odd, Limit) as e: und.append(f"{f.q}: {e}"); continue
        except RecursionError: und.append(f"{f.q}: recursion"); continue
        if not ks: und.append(f"{f.q}: no keys"); continue
        kn = [name(k) for k in ks]
        if use == "operator==":
            r = equivalence(ks, tab)
            ctx.check(r is None, "equal", f, f"{f.q}: {kn}", f"{r and r[0]}: {show(kn, r)}" if r else "", f"equal {f.q}")
            want = next((d for q, d in EQ.items() if f.q.endswith(q)), None)
            if want is not None and r is None:
                i = next((i for i, k in enumerate(kn) if any(x.lstrip('_').lower() == want for x in re.split(r'\W', k))), None)
                if i is None: ctx.bad("equal", f, f"{f.q} compares {kn} instead of '{want}'", key=f"equal key {f.q}")
                else:
                    bad = next((v for v, got in tab.items() if got != (v[i] == 0) and (len(kn) == 1 or got)), None)
                    ctx.check(bad is None, "equal", f, f"{f.q}: equal exactly with the same {want}", f"{f.q} is {tab.get(bad)} for {show(kn, (0, bad))}", f"equal key {f.q}")
            continue
        r = swo(ks, tab)
        ctx.check(r is None, "order", f, f"{f.q}: {kn}, {len(tab)} relations, {len(WEAK) ** len(ks)} triples", f"{r[0]}: {show(kn, r)}" if r else "", f"order {f.q}")
        if r is not None: continue
        doc = next((d for q, d in DOC.items() if f.q.endswith(q)), None)
        if doc is not None:
            idx = []
            for d, sign in doc:
                m = [i for i, k in enumerate(kn) if d.lower() in k.lower() and i not in [j for j, _ in idx]]
                idx.append((m[0], sign) if m else None)
                if not m: break
            if None in idx: 
                d = doc[len(idx) - 1][0]
                if any(d.lower() in k.lower() for k in kn) or len(kn) >= len(doc): und.append(f"{f.q}: key {d} not recognised in {kn}")
                else: ctx.bad("keys", f, f"objects aren't compared by '{d}' (keys {kn})", key=f"keys {f.q}")
            else:
                bad = None
                for v, got in tab.items():
                    want = next((v[i] * s < 0 for i, s in idx if v[i]), False)
                    if want != got and not any(v[j] for j in range(len(ks)) if j not in [i for i, _ in idx]): bad = v; break
                ctx.check(bad is None, "keys", f, f"{f.q}: by {[d for d, _ in doc]}", f"objects aren't ordered by {[d if s > 0 else '-' + d for d, s in doc]}: {show(kn, (0, bad))}", f"keys {f.q}")
        cls = f.q.rsplit("::", 1)[0].split("::")[-1]
        if use == "operator<" and cls in sets:
            dist = False
            for i, k in enumerate(kn):
                v = tuple((1 if j == i else 0) for j in range(len(ks)))
                if (tab[v] or tab[tuple(-x for x in v)]) and re.search(r"name|number|id$|romaji", k.lower()): dist = True
            ctx.check(dist, "distinct", f, f"{cls} is an element of an ordered set", f"{cls}s with different names that are otherwise alike are one element of a set (keys {kn})", f"distinct {cls}")
    bisect(ctx, p, und)
    ctx.info["undecided"] = und
    ctx.info["ordered_sets_of"] = sorted(sets)


def show(kn, r):
    return ", ".join(f"{k} {'less' if x < 0 else 'equal' if x == 0 else 'greater'}" for k, x in zip(kn, r[1] or ()))


def bisect(ctx, p, und):
    """a container is sorted on the way to a search by bisection"""
    for f in p.fns.values():
        if f.cfg is None or not f.file.startswith("libs/"): continue
        for n in f.nodes():
            if n.k != "CallExpr" or n.own or short(n.fq or "") not in ("binary_search", "lower_bound", "upper_bound", "equal_range"): continue
            v = next((x.var for x in n.walk() if x.k == "DeclRefExpr" and x.var), None)
            if v is None or any(g["gvar"] == v for g in ()): continue
            if v not in [x["var"] for x in f.params] and v in p.gvars: continue
            if not dominated(f, n, v): 
                ctx.bad("sorted", n, f"{short(n.fq)} in a container that isn't sorted on every way there", key=f"sorted {f.q}")
            else: ctx.ok("sorted", n, f"{f.q}: sorted before {short(n.fq)}")


def dominated(f, n, v):
    """every path from the entry to n sorts v, nothing changes v after that"""
    c = f.cfg
    def sorts(x): return isinstance(x, Node) and x.k == "CallExpr" and not x.own and short(x.fq or "") in ("sort", "stable_sort") and any(y.k == "DeclRefExpr" and y.var == v for y in x.walk())
    def changes(x): return isinstance(x, Node) and x.k == "CXXMemberCallExpr" and not x.cm and short(x.fq or "") in ("push_back", "emplace_back", "insert", "assign", "resize") and x.c[0] is not None and any(y.k == "DeclRefExpr" and y.var == v for y in x.c[0].walk())
    at = None
    for b in c.blocks.values():
        for i, e in enumerate(b.elems):
            if e is n: at = (b.id, i)
    if at is None: return True
    # state: sorted or not, forward
    ins = {c.entry: False}
    todo = [c.entry]
    while todo:
        bid = todo.pop()
        st = ins[bid]
        for e in c.blocks[bid].elems:
            if e is n and not st: return False
            if sorts(e): st = True
            elif changes(e): st = False
        for x in c.blocks[bid].succ:
            if x is None: continue
            if x not in ins: ins[x] = st; todo.append(x)
            elif ins[x] and not st: ins[x] = False; todo.append(x)
    return True
