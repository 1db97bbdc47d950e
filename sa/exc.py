"""Interprocedural exception analysis: which exception types may leave each function, and from where.

Own code: throw expressions, rethrows, calls (virtual calls to every overrider, callables given to library
code at the place they are given), filtered by the try blocks around them. Library code: a table of the
functions that throw something other than memory exhaustion. Allocation failure is assumed away."""
import re
from .facts import Node, show

# base classes in the standard exception hierarchy
STD = {"std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::domain_error": "std::logic_error",
       "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
       "std::out_of_range": "std::logic_error", "std::range_error": "std::runtime_error",
       "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
       "std::system_error": "std::runtime_error", "std::filesystem::filesystem_error": "std::system_error",
       "std::filesystem::__cxx11::filesystem_error": "std::system_error",
       "std::ios_base::failure": "std::system_error", "std::regex_error": "std::runtime_error",
       "std::future_error": "std::logic_error", "std::bad_optional_access": "std::exception",
       "std::bad_variant_access": "std::exception", "std::bad_any_cast": "std::exception",
       "std::bad_function_call": "std::exception", "std::bad_weak_ptr": "std::exception",
       "std::bad_cast": "std::exception", "std::bad_alloc": "std::exception", "std::bad_typeid": "std::exception",
       "std::nested_exception": None, "std::exception": None}
ANY = "?"          # a type not known statically
STO = {"stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold"}
FSOPS = {"exists", "is_directory", "is_regular_file", "is_symlink", "status", "symlink_status", "file_size",
         "current_path", "canonical", "weakly_canonical", "absolute", "relative", "equivalent", "last_write_time",
         "read_symlink", "space", "hard_link_count", "is_empty", "temp_directory_path", "is_block_file", "is_fifo",
         "is_socket", "is_other", "is_character_file", "refresh", "remove", "remove_all", "rename", "copy", "copy_file",
         "create_directory", "create_directories", "resize_file", "permissions"}


def short(fq):
    """last component of a qualified name, template arguments removed"""
    s, d = [], 0
    for ch in fq or "":
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d <= 0: s.append(ch)
    s = "".join(s)
    if "operator" in (fq or ""): return (fq or "").rsplit("::", 1)[-1]
    return s.rsplit("::", 1)[-1]


def args(n):
    return [a for a in n.c[1:] if a is not None]


class Exc:
    def __init__(self, p):
        self.p = p
        self.esc = {f: {} for f in p.fns}      # id -> {type: (node, callee id or None)}
        self._sites = {}
        self.tasks = None
        self._solve()

    # -- type lattice
    def base(self, t):
        if t in STD: return [STD[t]] if STD[t] else []
        for r in self.p.recs.values():
            if r["t"].n == t: return [b.n for b in r["bases"]]
        return []

    def isa(self, t, b):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x == b: return True
            todo.extend(self.base(x))
        return False

    def catches(self, h, t):
        if h["t"] is None: return True
        if t == ANY: return False
        return self.isa(t, h["t"].strip().n)

    # -- sites
    def handlers(self, n):
        """enclosing try statements whose body contains n, innermost first"""
        r = []
        x = n
        while x.up is not None:
            if x.up.k == "CXXTryStmt" and trybody(x.up) is x: r.append(x.up)
            x = x.up
        return r

    def handler_of(self, n):
        """the (try, handler) a node inside a catch block belongs to"""
        x = n
        while x.up is not None:
            if x.up.k == "CXXTryStmt":
                for h in x.up.d.get("h", ()):
                    if h["body"] is x: return x.up, h
            x = x.up
        return None, None

    def callables(self, n):
        """function ids of callables handed to library code by the call n"""
        r = []
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.t is not None and n.t.strip().lam: return r
        for a in args(n) if n.c else []:
            x = a
            while x is not None:
                if x.k == "LambdaExpr" or x.t is not None and x.t.strip().lam:
                    lam = x.lam if x.k == "LambdaExpr" else x.t.strip().lam
                    r += [g.id for g in self.p.lambdas.get(lam, []) if g.name == "operator()"]
                    break
                if x.k == "DeclRefExpr" and x.d.get("fn") and x.f in self.p.fns: r.append(x.f); break
                # look through casts, address-of, materialisations and conversions to std::function and the like
                if x.k.endswith("CastExpr") or x.k in ("UnaryOperator", "MaterializeTemporaryExpr", "ExprWithCleanups",
                                                       "CXXBindTemporaryExpr", "ParenExpr"): x = x.c[0] if x.c else None
                elif x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr"):
                    y = args(x)
                    x = y[0] if len(y) == 1 else None
                elif x.k == "CallExpr" and short(x.fq) in ("ref", "cref", "move", "forward", "bind", "bind_front", "mem_fn"):
                    r += self.callables(x); x = None
                elif x.k == "ConditionalOperator":
                    for y in x.c[1:]:
                        for z in y.walk():
                            if z.k == "DeclRefExpr" and z.d.get("fn") and z.f in self.p.fns: r.append(z.f)
                            elif z.k == "LambdaExpr":
                                r += [g.id for g in self.p.lambdas.get(z.lam, []) if g.name == "operator()"]
                    x = None
                else: x = None
        return r

    def std(self, n):
        """exception types a library call may throw (not counting memory exhaustion)"""
        fq = n.fq or ""
        if n.nx: return []
        s = short(fq)
        a = args(n)
        own = fq.rsplit("::" + s, 1)[0] if s else ""
        if s == "at" and fq.startswith("std::"): return ["std::out_of_range"]
        if s in STO and fq.startswith("std::"): return ["std::invalid_argument", "std::out_of_range"]
        if s in ("substr", "compare", "replace", "erase", "insert", "copy", "remove_prefix") and "basic_string" in own:
            if a and a[0].t is not None and a[0].t.strip().k in ("int", "enum") and not zero(a[0]):
                return ["std::out_of_range"]
            return []
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if s == "basic_string" and len(a) >= 2 and a[0].t is not None and a[0].t.strip().n.startswith("std::basic_string"):
                return ["std::out_of_range"]
            if s == "basic_regex": return ["std::regex_error"] if a else []
            if s in ("directory_iterator", "recursive_directory_iterator") and a and \
                    not any("directory_iterator" in (x.t.s if x.t else "") for x in a):
                return ["std::filesystem::filesystem_error"] if not ec(n) else []
            if s in ("thread", "jthread"): return ["std::system_error"]
            if s in ("random_device",): return ["std::runtime_error"]
            return []
        if s == "value" and "optional" in own: return ["std::bad_optional_access"]
        if s == "get" and "future" in own: return ["std::future_error", ":task"]
        if s in ("async",): return ["std::system_error"]
        if s == "get" and "variant" in " ".join(x.t.s for x in a if x.t): return ["std::bad_variant_access"]
        if s in ("regex_search", "regex_match", "regex_replace"): return ["std::regex_error"]
        if s in FSOPS and "filesystem" in fq: return [] if ec(n) else ["std::filesystem::filesystem_error"]
        if s == "operator++" and "directory_iterator" in fq: return ["std::filesystem::filesystem_error"]
        if s == "exceptions" and a: return ["std::ios_base::failure"]
        if s == "operator()" and "std::function" in fq: return ["std::bad_function_call", ":lambda"]
        if s in ("rethrow_exception", "throw_with_nested", "rethrow_if_nested"): return [ANY]
        if s in ("from_bytes", "to_bytes"): return ["std::range_error"]
        return []

    def sites(self, f):
        """[(node, [types], [callee ids])] of a function"""
        r = self._sites.get(f.id)
        if r is not None: return r
        r = []
        for n in f.nodes():
            if n.k == "CXXThrowExpr":
                t = n.d.get("tt")
                if t is not None: r.append((n, [t.strip().n or t.s], []))
                else: r.append((n, [":re"], []))
            elif n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                tg = self.p.targets(n)
                if tg: r.append((n, [], [g.id for g in tg]))
                elif n.f and not n.own: r.append((n, self.std(n), self.callables(n)))
                elif not n.f and n.k in ("CallExpr", "CXXMemberCallExpr"): r.append((n, [":addr"], []))
            elif n.k == "CXXDynamicCastExpr" and n.t is not None and n.lv: r.append((n, ["std::bad_cast"], []))
        self._sites[f.id] = r
        return r

    def _union(self, ids):
        r = {}
        for g in ids:
            for t, w in self.esc.get(g, {}).items(): r.setdefault(t, (None, g))
        return r

    def at(self, f, n, types, callees):
        """types arriving at node n before the try blocks around it are considered"""
        res = {}
        for t in types:
            if t == ":re":
                tr, h = self.handler_of(n)
                if tr is None: res[ANY] = (n, None)
                else:
                    for u, w in self.inside(f, trybody(tr)).items():
                        if self.catches(h, u): res.setdefault(u, (n, w[1]))
            elif t == ":task":
                for u, w in self._union(self.taskids()).items(): res.setdefault(u, (n, w[1]))
            elif t == ":lambda":
                for u, w in self._union([g.id for gs in self.p.lambdas.values() for g in gs]).items(): res.setdefault(u, (n, w[1]))
            elif t == ":addr":
                for u, w in self._union(self.address_taken()).items(): res.setdefault(u, (n, w[1]))
            else: res.setdefault(t, (n, None))
        for g in callees:
            if self.p.fns[g].nx: continue     # an exception would end the process there, not leave the call
            for u in self.esc[g]: res.setdefault(u, (n, g))
        return res

    def taskids(self):
        if self.tasks is None:
            self.tasks = set()
            for f in self.p.fns.values():
                for n in f.nodes():
                    if n.k == "CallExpr" and n.fq in ("std::async",): self.tasks |= set(self.callables(n))
                    elif n.t is not None and n.k == "CXXConstructExpr" and "packaged_task" in n.t.s:
                        self.tasks |= set(self.callables(n))
        return self.tasks

    def address_taken(self):
        if not hasattr(self, "_addr"):
            self._addr = set()
            for f in self.p.fns.values():
                for n in f.nodes():
                    if n.k == "DeclRefExpr" and n.d.get("fn") and n.f in self.p.fns: self._addr.add(n.f)
        return self._addr

    def filter(self, n, types):
        """what is left of `types` thrown at n after the try blocks around n inside its function"""
        res = dict(types)
        for tr in self.handlers(n):
            for t in list(res):
                if any(self.catches(h, t) for h in tr.d.get("h", ())): del res[t]
        return res

    def inside(self, f, body):
        """types leaving a statement (used for the body of a try block)"""
        res = {}
        for n, types, callees in self.sites(f):
            x = n
            while x is not None and x is not body: x = x.up
            if x is None: continue
            got = self.at(f, n, types, callees)
            # only the try blocks strictly inside body
            for tr in self.handlers(n):
                y = tr
                while y is not None and y is not body: y = y.up
                if y is None: continue
                for t in list(got):
                    if any(self.catches(h, t) for h in tr.d.get("h", ())): del got[t]
            for t, w in got.items(): res.setdefault(t, w)
        return res

    def raw(self, f):
        """types leaving f's body if it were not noexcept"""
        res = {}
        for n, types, callees in self.sites(f):
            for t, w in self.filter(n, self.at(f, n, types, callees)).items(): res.setdefault(t, w)
        return res

    def _solve(self):
        ch = True
        rounds = 0
        while ch:
            ch = False; rounds += 1
            for f in self.p.fns.values():
                r = self.raw(f)
                o = self.esc[f.id]
                for t, w in r.items():
                    if t not in o: o[t] = w; ch = True

    def trace(self, fid, t, limit=15):
        out = []
        seen = set()
        while fid and fid not in seen and len(out) < limit:
            seen.add(fid)
            f = self.p.fns[fid]
            w = self.esc[fid].get(t)
            if w is None: break
            n = w[0]
            out.append(f"{f.file}:{n.l if n is not None else f.line} {f.q}: {show(n)[:100] if n is not None else ''}")
            fid = w[1]
        return out

    def never_returns(self):
        """functions every path of which throws or calls such a function"""
        if hasattr(self, "_nr"): return self._nr
        p = self.p
        nr = set()
        ch = True
        while ch:
            ch = False
            for f in p.fns.values():
                if f.id in nr or f.cfg is None or f.body is None: continue
                if not self._can_return(f, nr): nr.add(f.id); ch = True
        self._nr = nr
        return nr

    def stops(self, n, nr):
        if n is None or not isinstance(n, Node): return False
        if n.k == "CXXThrowExpr": return True
        if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            tg = self.p.targets(n)
            return bool(tg) and all(g.id in nr for g in tg)
        return False

    def _can_return(self, f, nr):
        g = f.cfg
        todo, seen = [g.entry], set()
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b)
            if b == g.exit: return True
            bl = g.blocks[b]
            if any(self.stops(e, nr) for e in bl.elems) or bl.noret: continue
            todo.extend(s for s in bl.succ if s is not None)
        return False


def zero(n):
    while n is not None and n.k.endswith("CastExpr") and n.c: n = n.c[0]
    if n is None: return False
    if n.k == "IntegerLiteral": return n.v in (0, "0")
    return n.k in ("InitListExpr", "ImplicitValueInitExpr", "CXXScalarValueInitExpr") and not n.c


def ec(n):
    return any(a.t is not None and "error_code" in a.t.s for a in args(n))


def trybody(tr):
    b = tr.d.get("body")
    return b if isinstance(b, Node) else (tr.c[0] if tr.c else None)
