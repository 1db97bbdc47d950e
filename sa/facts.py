"""Fact base: runs the exporter over every translation unit of /repo's current tree and merges the
results into one whole-program view (functions with syntax trees and CFGs, records, enums, variables).

Exporter outputs are cached under /verif/.cache keyed by the content of the translation unit, of every
header under /repo/libs, of the exporter and of the compiler flags, so a stale result is never used."""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, tempfile

REPO = os.environ.get("KT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, source does not parse)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    src = os.path.join(HERE, "tool", "ktx.cpp")
    out = os.path.join(CACHE, "ktx-" + _sha(_read(src)))
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    last = ""
    for cxx in ("/usr/bin/g++-13", "/usr/bin/g++", LLVM + "/bin/clang++"):
        if not os.path.exists(cxx):
            continue
        fd, tmp = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        r = subprocess.run(
            [cxx, "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
             LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"],
            capture_output=True, text=True)
        if r.returncode == 0:
            os.chmod(tmp, 0o755)
            os.replace(tmp, out)
            return out
        last = r.stderr
        os.unlink(tmp)
    raise Broken("exporter does not build: " + last[-800:])


def flags():
    inc = sorted(glob.glob(REPO + "/libs/*/include"))
    # asserts are compiled out: a check that only exists in debug builds protects no user
    return (["-std=c++20", "-include", "cstdint", "-Dishexnumber=isxdigit", "-DNDEBUG", "-w"]
            + ["-I" + i for i in inc] + ["-resource-dir", LLVM + "/lib/clang/18"])


def units():
    us = sorted(glob.glob(REPO + "/libs/*/src/**/*.cpp", recursive=True)) + sorted(
        glob.glob(REPO + "/apps/**/*.cpp", recursive=True))
    if len(us) < 30:
        raise Broken(f"only {len(us)} translation units found under {REPO}")
    return us


def export_all(extra=()):
    tool = build_tool()
    fl = flags()
    heads = sorted(p for e in ("h", "hpp", "hh", "inc", "ipp") for p in
                   glob.glob(REPO + "/libs/**/*." + e, recursive=True) + glob.glob(REPO + "/apps/**/*." + e, recursive=True))
    base = _sha(os.path.basename(tool), REPO, " ".join(fl), *[x for h in heads for x in (h, _read(h))])
    os.makedirs(CACHE, exist_ok=True)
    jobs = []
    for u in units() + list(extra):
        jobs.append((u, os.path.join(CACHE, "tu-" + _sha(base, u, _read(u)) + ".json")))

    def one(job):
        u, out = job
        if os.path.exists(out):
            return None
        fd, tmp = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        r = subprocess.run([tool, REPO, u, tmp, "--"] + fl, capture_output=True, text=True)
        if r.returncode != 0 or os.path.getsize(tmp) == 0:
            os.unlink(tmp)
            return f"{u}: {r.stderr[-600:]}"
        os.replace(tmp, out)
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise Broken("source does not parse: " + errs[0])
    return jobs


class Type:
    __slots__ = ("s", "k", "w", "sg", "n", "a", "to", "const", "len", "ret", "lam", "scoped", "rv")

    def __init__(self):
        self.k = "other"; self.s = "?"; self.w = 0; self.sg = 0; self.n = ""; self.a = []
        self.to = None; self.const = False; self.len = None; self.ret = None; self.lam = None
        self.scoped = 0; self.rv = 0

    def strip(self):
        t = self
        while t.k == "ref":
            t = t.to
        return t

    def deref(self):
        t = self.strip()
        return t.to.strip() if t.k == "ptr" else t

    @property
    def range(self):
        """value range of an integer-like type"""
        if self.k == "bool":
            return (0, 1)
        if self.k in ("int", "enum") and self.w:
            return (-(1 << (self.w - 1)), (1 << (self.w - 1)) - 1) if self.sg else (0, (1 << self.w) - 1)
        return None

    def is_rec(self, name):
        t = self.strip()
        return t.k == "rec" and t.n == name

    def __repr__(self):
        return self.s


class Node:
    """syntax tree node; k kind, i id in function, l line, t Type, c children, rest as attributes"""
    __slots__ = ("k", "i", "l", "t", "c", "d", "up", "of")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return self.d.get(a)

    def walk(self):
        yield self
        for x in self.subs():
            yield from x.walk()

    def subs(self):
        """all direct sub-nodes, in source order"""
        for x in self.c:
            if x is not None:
                yield x
        d = self.d
        for key in ("init", "cvar", "range", "begin", "end", "cond", "inc", "lvar", "body", "then", "else"):
            x = d.get(key)
            if isinstance(x, Node):
                yield x
        for v in d.get("d", ()) or ():
            for key in ("init", "sinit"):
                if v.get(key) is not None:
                    yield v[key]
            for b in v.get("bind", ()):
                if b.get("e") is not None:
                    yield b["e"]
        for h in d.get("h", ()) or ():
            yield h["body"]
        for cp in d.get("caps", ()) or ():
            if cp.get("init") is not None:
                yield cp["init"]

    def __repr__(self):
        return f"<{self.k} {show(self)}>"


class Fn:
    def __init__(self):
        pass

    @property
    def loc(self):
        return f"{self.file}:{self.line}"

    def __repr__(self):
        return f"<Fn {self.id}>"

    def nodes(self):
        if self._nodes is None:
            r = []
            for ini in self.inits:
                if ini["e"] is not None:
                    r.extend(ini["e"].walk())
            if self.body is not None:
                r.extend(self.body.walk())
            for x in self.extra:
                r.extend(x.walk())
            self._nodes = r
        return self._nodes


class Program:
    def __init__(self, extra=()):
        self.extra = [os.path.join(HERE, e) for e in extra]
        self.fns = {}
        self.recs = {}
        self.enums = {}
        self.gvars = {}
        self.decls = {}  # every declared method head by id
        self.units = []
        self.gorder = {}  # unit -> {variable: position of its definition}
        self._load()

    # -- loading
    def _load(self):
        jobs = export_all(self.extra)
        self.units = [u for u, _ in jobs]
        for u, path in jobs:
            with open(path) as f:
                d = json.load(f)
            self._merge(d, u)
        if len(self.fns) < 1500:
            raise Broken(f"only {len(self.fns)} functions exported")
        self._link()

    def _merge(self, d, unit):
        tt = [Type() for _ in d["types"]]
        for t, j in zip(tt, d["types"]):
            t.s = j["s"]; t.k = j.get("k", "other"); t.w = j.get("w", 0); t.sg = j.get("sg", 0)
            t.n = j.get("n", ""); t.const = bool(j.get("const")); t.len = j.get("len"); t.lam = j.get("lambda")
            t.scoped = j.get("scoped", 0); t.rv = j.get("rv", 0)
            if "to" in j: t.to = tt[j["to"]]
            if "ret" in j: t.ret = tt[j["ret"]]
            t.a = [tt[a] if isinstance(a, int) else (a["v"] if "v" in a else a["x"]) for a in j.get("a", [])]

        # each program of apps/ is linked on its own: 'main' and its helpers are distinct functions
        ren = {j["id"]: f"{j['id']}@{j['file']}" for j in d["fns"] if j["file"].startswith("apps/") and not j.get("cls")}

        def ty(i):
            return tt[i] if i is not None and i >= 0 else None

        def node(j, up, fn, reg):
            if j is None:
                return None
            n = Node()
            n.k = j.pop("k"); n.i = j.pop("i"); n.l = j.pop("l", up.l if up else 0)
            n.t = ty(j.pop("t", None)); n.up = up; n.of = fn
            n.c = [node(x, n, fn, reg) for x in j.pop("c", ())]
            for key in ("init", "cvar", "range", "begin", "end", "cond", "inc", "lvar", "body", "then", "else"):
                if isinstance(j.get(key), dict):
                    j[key] = node(j[key], n, fn, reg)
            for v in j.get("d", ()):
                v["t"] = ty(v["t"])
                for key in ("init", "sinit"):
                    if key in v: v[key] = node(v[key], n, fn, reg)
                for b in v.get("bind", ()):
                    b["t"] = ty(b["t"]); b["e"] = node(b["e"], n, fn, reg)
            for h in j.get("h", ()):
                h["t"] = ty(h["t"]); h["body"] = node(h["body"], n, fn, reg)
            for cp in j.get("caps", ()):
                if "t" in cp: cp["t"] = ty(cp["t"])
                if "init" in cp: cp["init"] = node(cp["init"], n, fn, reg)
            for key in ("tt", "ct"):
                if key in j: j[key] = ty(j[key])
            if "pt" in j: j["pt"] = [ty(x) for x in j["pt"]]
            if j.get("f") in ren: j["f"] = ren[j["f"]]
            n.d = j
            reg[n.i] = n
            return n

        def head(j):
            f = Fn()
            f.id = j["id"]; f.q = j["q"]; f.name = j["n"]; f.file = j["file"]; f.line = j["l"]
            f.endline = j.get("el", f.line)
            f.ret = ty(j["ret"]); f.nx = bool(j.get("nx")); f.kind = j["kind"]; f.cls = j.get("cls")
            f.clst = ty(j.get("clst")); f.acc = j.get("acc"); f.const = bool(j.get("const"))
            f.virt = bool(j.get("virt")); f.pure = bool(j.get("pure")); f.over = j.get("over", [])
            f.inst = bool(j.get("inst")); f.lam = j.get("lambda"); f.inside = j.get("in")
            f.defaulted = bool(j.get("defaulted")); f.deleted = bool(j.get("deleted"))
            f.implicit = bool(j.get("implicit")); f.oper = j.get("oper"); f.constexpr = bool(j.get("constexpr"))
            f.consteval = bool(j.get("consteval")); f.copy = bool(j.get("copy")); f.anon = bool(j.get("anon"))
            f.static = bool(j.get("static"))
            f.ta = [ty(a) if isinstance(a, int) else a for a in j.get("ta", [])]
            f.params = [{**p, "t": ty(p["t"])} for p in j["params"]]
            f.body = None; f.cfg = None; f.inits = []; f.extra = []; f._nodes = None; f.byid = {}
            return f

        for j in d["fns"]:
            j["id"] = ren.get(j["id"], j["id"])
            if j["id"] in self.fns and (self.fns[j["id"]].body is not None or not j["body"]):
                continue
            f = head(j)
            reg = f.byid
            f.inits = [{**i, "e": node(i["e"], None, f, reg), "mt": ty(i.get("mt")), "b": ty(i.get("b"))}
                       for i in j.get("inits", [])]
            f.body = node(j["body"], None, f, reg)
            if j.get("cfg"):
                f.extra = [node(x, None, f, reg) for x in j["cfg"]["x"]]
                f.cfg = Cfg(f, j["cfg"])
            self.fns[f.id] = f
        for j in d["decls"]:
            if "rec" in j:
                t = ty(j["t"])
                if t.s in self.recs: continue
                r = {"q": j["rec"], "t": t, "file": j["file"], "l": j["l"], "abstract": bool(j.get("abstract")),
                     "bases": [ty(b) for b in j["bases"]], "acc": j.get("acc"),
                     "fields": [{**x, "t": ty(x["t"])} for x in j["fields"]],
                     "methods": [head(m) for m in j["methods"]]}
                self.recs[t.s] = r
                for m in r["methods"]:
                    self.decls.setdefault(m.id, m)
            elif "enum" in j:
                self.enums.setdefault(j["enum"], {"q": j["enum"], "t": ty(j["t"]), "file": j["file"], "l": j["l"],
                                                  "vals": j["vals"]})
            else:
                o = self.gorder.setdefault(unit, {})
                o.setdefault(j["gvar"], len(o))
                if j["gvar"] in self.gvars: continue
                j["t"] = ty(j["t"])
                if "init" in j: j["init"] = node(j["init"], None, None, {})
                self.gvars[j["gvar"]] = j

    def _link(self):
        self.overriders = {}
        for f in list(self.fns.values()) + list(self.decls.values()):
            for b in f.over:
                self.overriders.setdefault(b, set()).add(f.id)
        # transitive
        ch = True
        while ch:
            ch = False
            for b, s in self.overriders.items():
                for x in list(s):
                    n = self.overriders.get(x, set()) - s
                    if n:
                        s |= n; ch = True
        self.lambdas = {f.lam: [] for f in self.fns.values() if f.lam}
        for f in self.fns.values():
            if f.lam and f.name == "operator()": self.lambdas[f.lam].append(f)
        self.bases = {}   # class type string -> set of base record names, transitive
        for s, r in self.recs.items():
            self.bases[s] = {b.s for b in r["bases"]}

    def derived_from(self, t, name):
        """is record type t (or a base of it) the record called name?"""
        t = t.strip()
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.s in seen: continue
            seen.add(x.s)
            if x.n == name: return True
            r = self.recs.get(x.s)
            if r is None:
                # type printed with const
                r = self.recs.get(x.s.replace("const ", ""))
            if r: todo.extend(r["bases"])
        return False

    def by_q(self, q):
        return [f for f in self.fns.values() if f.q == q]

    def targets(self, n):
        """definitions a call node may reach (own functions); virtual calls go to all overriders"""
        f = n.f
        if not f: return []
        out = []
        if n.virt and not n.qual:
            ids = {f} | self.overriders.get(f, set())
        else:
            ids = {f}
        for i in ids:
            if i in self.fns: out.append(self.fns[i])
        return out


class Cfg:
    def __init__(self, fn, j):
        self.fn = fn
        self.entry = j["entry"]; self.exit = j["exit"]
        self.blocks = {}
        for b in j["bl"]:
            self.blocks[b["b"]] = Block(self, b)
        for b in self.blocks.values():
            for s in b.succ:
                if s is not None: self.blocks[s].pred.append(b.id)


class Block:
    __slots__ = ("id", "elems", "term", "cond", "succ", "pred", "case", "default", "catch", "noret")

    def __init__(self, g, j):
        reg = g.fn.byid
        self.id = j["b"]
        self.elems = [reg.get(e) if isinstance(e, int) else e for e in j["e"]]
        for e in self.elems:
            if isinstance(e, dict) and "e" in e and isinstance(e["e"], int):
                e["e"] = reg.get(e["e"])
        self.term = reg.get(j["t"]) if "t" in j else None
        self.cond = reg.get(j["c"]) if "c" in j else None
        self.succ = j["s"]; self.pred = []
        self.case = j.get("case"); self.default = bool(j.get("default")); self.catch = j.get("catch")
        self.noret = bool(j.get("noret"))


def show(n, depth=0):
    """compact text of an expression, for reports"""
    if n is None: return ""
    if depth > 6: return "..."
    s = lambda x: show(x, depth + 1)
    k = n.k
    if n.s is not None and k == "StringLiteral": return repr(n.s)
    if k == "DeclRefExpr": return n.n or n.ec or (n.fq or "?").split("::")[-1]
    if k == "MemberExpr":
        b = s(n.c[0]) if n.c else ""
        return f"{b}.{n.m}" if b and b != "this" else n.m
    if k == "CXXThisExpr": return "this"
    if k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr"): return str(n.v)
    if k in ("BinaryOperator", "CompoundAssignOperator"): return f"{s(n.c[0])} {n.op} {s(n.c[1])}"
    if k == "UnaryOperator": return f"{s(n.c[0])}{n.op}" if n.post else f"{n.op}{s(n.c[0])}"
    if k.endswith("CastExpr"): return s(n.c[0])
    if k == "CXXOperatorCallExpr":
        a = [s(x) for x in n.c if x is not None]
        if n.oper == "()": return f"{a[0]}({', '.join(a[1:])})"
        if n.oper == "[]": return f"{a[0]}[{', '.join(a[1:])}]"
        if len(a) == 1: return f"{n.oper}{a[0]}"
        return f" {n.oper} ".join(a)
    if k in ("CallExpr", "CXXMemberCallExpr"):
        nm = (n.fq or "?").split("::")[-1]
        b = s(n.c[0]) + "." if n.c and n.c[0] is not None and n.f and n.c[0].k != "CXXThisExpr" else ""
        return f"{b}{nm}({', '.join(s(x) for x in n.c[1:])})"
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return f"{(n.fq or '').split('::')[-1]}({', '.join(s(x) for x in n.c[1:])})"
    if k == "InitListExpr": return "{" + ", ".join(s(x) for x in n.c) + "}"
    if k == "LambdaExpr": return "[lambda]"
    if k == "ConditionalOperator": return f"{s(n.c[0])} ? {s(n.c[1])} : {s(n.c[2])}"
    if k == "ReturnStmt": return "return " + (s(n.c[0]) if n.c else "")
    if k == "ArraySubscriptExpr": return f"{s(n.c[0])}[{s(n.c[1])}]"
    return k
