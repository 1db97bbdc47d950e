"""C16: enumerations, their names and the categories of kanji are consistent."""
import os, re, subprocess, tempfile

from sa import facts
from sa.absint import Frame, I, K, Limit, State
from sa.exc import short
from sa.facts import Node
from rules.c17 import Flow17, Globals, Interp17, enum, text, values

EXPLAIN = ("The lists of names of the enumerations are followed by constant propagation from their creation to the tables they fill and compared with the "
           "enumerators; bit masks are compared as constants and their operators are checked by a compile-time witness (static_asserts over all pairs of values of an 8 bit "
           "mask); and every kanji that's created is followed to the list of kanji it's put in, which has to be the list of its class.")
RULES = {"names": "each enumerator has exactly its own name in the list of its enumeration, in the table by value and in the table by name",
         "bits": "enumerators of a bit mask are different single bits, or unions of other enumerators",
         "operators": "operators of bit masks are those of sets",
         "type": "each class of kanji (and of groups) has its own type",
         "into": "a kanji is put in the list of its own type",
         "files": "there's one data file for each level and each kyu"}
ASSUME = []


class Make(Flow17):
    """also follows constructors, strings made of literals and the creation of kanji"""
    def __init__(self, p, gl, kinds):
        super().__init__(p, gl)
        self.kinds = kinds
        self.tables = []      # (what, index, name)
        self.put = []         # (node, list, class)
        self.unk = []

    def inline(self, f, n):
        if f.cfg is None: return False
        if "kt_utils/Enum" in f.file: return True
        return f.lam is not None or f.file.startswith("libs/kanji") and (f.const or f.static) and len(f.cfg.blocks) < 8 and not f.virt

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""
        sh = short(fq)
        av = [(a, v) for a, v in zip(n.c[1:], args) if a is not None]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t = n.t.strip()
            if t.k == "rec" and t.n == "std::basic_string" and av:
                u = self.chars(s, av[0][1])
                if u is not None:
                    loc = ("tmp", fr.id, n.i)
                    it.kill(s, loc)
                    s.env[loc + ("#text",)] = ("text", u)
                    return [(s, ("l", loc))]
            c = t.n.split("::")[-1] if t.k == "rec" else ""
            if t.k == "rec" and t.n == "std::shared_ptr" and av:
                k = self.kan(s, av[0][1])
                if k is not None: return [(s, k)]
                return None
            return None
        m = re.search(r"make_shared<(?:const )?kanji_tools::(\w+)", str(n.f or "") + " " + (n.t.s if n.t is not None else ""))
        if n.k == "CallExpr" and sh == "make_shared":
            c = made(n)
            if c in self.kinds: return [(s, ("kan", c))]
        if n.own and sh == "fromFile" and n.f:
            m = re.search(r"fromFile<(?:const )?(?:kanji_tools::)?(\w+)", self.p.fns[n.f].id if n.f in self.p.fns else str(n.f))
            if m and m.group(1) in self.kinds: return [(s, ("kan", m.group(1)))]
        if n.k == "CXXOperatorCallExpr" and n.oper == "=":
            k = self.kan(s, av[-1][1]) if av else None
            l = recv
            if k is not None and isinstance(l, tuple) and l[0] == "l":
                if l[1][0] == "elt": self.put.append((n, l[1], k[1])); return [(s, l)]
                s.env[l[1]] = k
                return [(s, l)]
            if isinstance(l, tuple) and l[0] == "l" and l[1][0] == "elt": self.unk.append(n)
        if n.own and n.k in ("CallExpr", "CXXMemberCallExpr") and len(av) >= 2 or sh in ("push_back", "emplace_back"):
            ls = [v for a, v in av if isinstance(v, tuple) and v and v[0] == "l" and v[1][0] == "elt" and v[1][1] == "KanjiTypes"]
            if isinstance(recv, tuple) and recv and recv[0] == "l" and recv[1][0] == "elt" and recv[1][1] == "KanjiTypes": ls.append(recv)
            ks = [self.kan(s, v) for a, v in av if self.kan(s, v) is not None]
            if ls and ks:
                self.put.append((n, ls[0][1], ks[0][1]))
            elif ls and any(a.t is not None and a.t.strip().k == "rec" and a.t.strip().n == "std::shared_ptr" for a, v in av): self.unk.append(n)
            if ls and n.own: return [(s, it.fresh(s, n, n.t))]
        if sh in ("begin", "end", "size", "empty", "cbegin", "cend") and self.kan(s, recv) is not None: return [(s, ("o", sh))]
        # tables of names
        if n.own and n.k in ("CallExpr", "CXXMemberCallExpr") and len(av) == 2 and sh == "insert":
            u, k = self.chars(s, av[0][1]), self.const(it, s, av[1][1], av[1][0])
            self.tables.append(("by name", k, u, n))
        if n.k == "CXXOperatorCallExpr" and n.oper == "=" and n.t is not None and not n.own and isinstance(recv, tuple) and recv[0] == "l":
            u = self.chars(s, av[-1][1]) if av else None
            if u is not None:
                k = recv[1][-1][1] if recv[1][-1:] and isinstance(recv[1][-1], tuple) and recv[1][-1][0] == "k" else None
                if recv[1][-2:-1] == ("[]",): self.tables.append(("by value", k, u, n))
                s.env[recv[1] + ("#text",)] = ("text", u)
                return [(s, recv)]
        return super().call(it, s, fr, n, recv, args)

    def kan(self, s, v):
        if isinstance(v, tuple) and v:
            if v[0] == "kan": return v
            if v[0] == "l" and isinstance(s.env.get(v[1]), tuple) and s.env[v[1]][:1] == ("kan",): return s.env[v[1]]
        return None


def made(n):
    m = re.search(r"shared_ptr<(?:const )?(?:kanji_tools::)?(\w+)>", n.t.s if n.t is not None else "")
    return m.group(1) if m else None


def names(ctx, p, gl, und):
    for var, g in sorted(p.gvars.items(), key=lambda x: str(x[0])):
        if g.get("init") is None: continue
        for n in g["init"].walk():
            if n.k != "CallExpr" or short(n.fq or "") != "create" or not n.own: continue
            m = re.search(r"BaseEnumList<(?:[\w:]*::)?(\w+)>", n.fq or "") or re.search(r"BaseEnumList<(?:[\w:]*::)?(\w+)>", str(n.f))
            ts = p.targets(n)
            if not m or len(ts) != 1: und.append(f"{g['q']}: create"); continue
            e = enum(p, m.group(1))
            if e is None: und.append(f"{g['q']}: enumeration {m.group(1)}"); continue
            f = ts[0]
            cl = Make(p, gl, {})
            it = Interp17(p, cl, maxdepth=40, widen=1 << 20, maxstates=20000, maxtime=20)
            s = State()
            lits = []
            for i, prm in enumerate(f.params):
                a = n.c[1 + i] if 1 + i < len(n.c) else None
                l = next((x for x in a.walk() if x.k == "StringLiteral"), None) if a is not None else None
                u = text(l.s) if l is not None and isinstance(l.s, str) else None
                lits.append(u)
                if prm["t"].k == "ref":
                    s.alias[("0", prm["var"])] = ("ext", i)
                    if u is not None: s.env[("ext", i, "#text")] = ("text", u)
                elif u is not None: s.env[("v", "0", prm["var"])] = ("lit", l.s)
            try: outs = it.run(s, Frame(f, "0", 0, None, stack=(f.id,)))
            except Limit as x: und.append(f"{g['q']}: {x}"); continue
            where = f"{g['file']}:{g['l']}"
            evals = {v: nm for nm, v in e["vals"] if nm != "None"}
            none = dict((nm, v) for nm, v in e["vals"]).get("None")
            if none is not None: evals = {v: nm for v, nm in evals.items() if v < none}
            short_ = m.group(1)
            ctx.check(sorted(evals) == list(range(len(evals))), "names", where, f"{short_}: values 0 to {len(evals) - 1}",
                      f"the enumerators of {short_} don't have the values from 0 on", f"values {short_}")
            for what in ("by value", "by name"):
                rows = [(k, u) for w, k, u, _ in cl.tables if w == what]
                if not rows or any(k is None or u is None for k, u in rows): und.append(f"{short_}: table {what}"); continue
                got = {}
                for k, u in rows: got.setdefault(k, set()).add(u)
                for v, nm in sorted(evals.items()):
                    us = {u.rstrip("*") if u.endswith("*") else u for u in got.get(v, ())}
                    # R stands for a linked entry: 'Semantic*' is Semantic_R
                    full = got.get(v, set())
                    ok = len(full) == 1 and norm(nm) == norm(next(iter(full)))
                    ctx.check(ok, "names", where, f"{short_}::{nm} {what}", f"the name of {short_}::{nm} {what} is {sorted(full) or 'missing'}", f"name {short_} {nm}")
                extra = sorted(k for k in got if k not in evals)
                ctx.check(not extra, "names", where, f"{short_}: no name without enumerator", f"{short_} has names for values {extra} without enumerator", f"extra {short_}")


def norm(u):
    return re.sub(r"_R$", "*", u)


def bits(ctx, p):
    masks = set()
    for var, g in p.gvars.items():
        m = re.search(r"is_bitmask<(?:[\w:]*::)?(\w+)>", str(var) + " " + g["q"])
        if m: masks.add(m.group(1))
    for q, e in p.enums.items():
        vs = [v for _, v in e["vals"]]
        nz = [v for v in vs if v]
        short_ = q.split("::")[-1]
        single = [v for v in nz if v & (v - 1) == 0]
        if short_ not in masks and short_ not in ("ConvertFlags", "Info"): continue
        allb = 0
        for v in single: allb |= v
        for nm, v in e["vals"]:
            if not v: continue
            at = f"{e['file']}:{e['l']}"
            if v & (v - 1) == 0: ctx.check(vs.count(v) == 1, "bits", at, f"{short_}::{nm} is a bit of its own", f"{short_}::{nm} is the same bit as another enumerator", f"bit {short_} {nm}")
            else: ctx.check(v & ~allb == 0 and (nm != "All" or v == allb), "bits", at, f"{short_}::{nm} is a union", f"{short_}::{nm} isn't the union of the others", f"union {short_} {nm}")


WITNESS = """#include <kt_utils/Bitmask.h>
#include <cstdint>
#include <initializer_list>
namespace kanji_tools {
enum class W8 : std::uint8_t { A = 1 };
enum class W64 : std::uint64_t { A = 1 };
template <> inline constexpr auto is_bitmask<W8>{true};
template <> inline constexpr auto is_bitmask<W64>{true};
template <class E, class U> constexpr bool pair(U a, U b) {
  const auto x{static_cast<E>(a)}; const auto y{static_cast<E>(b)};
  if (static_cast<U>(x & y) != static_cast<U>(a & b)) return false;
  if (static_cast<U>(x | y) != static_cast<U>(a | b)) return false;
  if (static_cast<U>(x ^ y) != static_cast<U>(a ^ b)) return false;
  auto z{x};
  if (&(z &= y) != &z || static_cast<U>(z) != static_cast<U>(a & b)) return false;
  z = x;
  if (&(z |= y) != &z || static_cast<U>(z) != static_cast<U>(a | b)) return false;
  z = x;
  return &(z ^= y) == &z && static_cast<U>(z) == static_cast<U>(a ^ b);
}
template <class E, class U> constexpr bool one(U a) {
  const auto x{static_cast<E>(a)};
  return static_cast<U>(~x) == static_cast<U>(~a) && hasValue(x) == (a != 0) && !x == (a == 0);
}
constexpr bool all8() {
  for (unsigned a{}; a < 256; ++a) {
    if (!one<W8, std::uint8_t>(static_cast<std::uint8_t>(a))) return false;
    for (unsigned b{}; b < 256; ++b)
      if (!pair<W8, std::uint8_t>(static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b))) return false;
  }
  return true;
}
constexpr bool all64() {
  for (unsigned i{}; i < 64; ++i) {
    const auto a{std::uint64_t{1} << i};
    if (!one<W64, std::uint64_t>(a) || !one<W64, std::uint64_t>(~a)) return false;
    for (unsigned j{}; j < 64; ++j)
      for (const auto b : {std::uint64_t{1} << j, ~(std::uint64_t{1} << j)})
        if (!pair<W64, std::uint64_t>(a, b) || !pair<W64, std::uint64_t>(~a, b)) return false;
  }
  return true;
}
static_assert(all8(), "operators of an 8 bit mask");
static_assert(all64(), "operators of a 64 bit mask, bit by bit");
}
"""


def operators(ctx, p, und):
    d = tempfile.mkdtemp(prefix="c16-")
    try:
        src = os.path.join(d, "w.cpp")
        with open(src, "w") as f: f.write(WITNESS)
        inc = [x for x in facts.flags() if x.startswith(("-I", "-std", "-D"))]
        r = subprocess.run(["clang++", "-std=c++20", "-fsyntax-only", "-fconstexpr-steps=200000000", "-w", *inc, src], capture_output=True, text=True, timeout=300)
        at = "libs/utils/include/kt_utils/Bitmask.h:27"
        if r.returncode == 0:
            ctx.ok("operators", at, "all pairs of 256 values, 64 bit values bit by bit")
        elif "static assertion failed" in r.stderr or "static_assert" in r.stderr:
            for line in r.stderr.splitlines():
                if "failed" in line: ctx.bad("operators", at, "an operator of bit masks isn't the operation on the sets of bits: " + line.split("error: ")[-1][:150], key="operators")
        else: und.append("operators: " + r.stderr.strip().splitlines()[0][-150:] if r.stderr.strip() else "operators")
    finally:
        for x in os.listdir(d): os.remove(os.path.join(d, x))
        os.rmdir(d)


def types(ctx, p, gl, und):
    """class -> enumerator of the type it returns"""
    res = {}
    for f in p.fns.values():
        if f.cfg is None or f.cls is None or f.ret is None or f.q.split("::")[-1] != "type" or f.params: continue
        t = f.ret.strip()
        if t.k != "enum" or t.n.split("::")[-1] not in ("KanjiTypes", "GroupType"): continue
        en = t.n.split("::")[-1]
        cls = f.q.split("::")[-2]
        if not cls.endswith("Kanji" if en == "KanjiTypes" else "Group"): continue
        cl = Flow17(p, gl)
        it = Interp17(p, cl, maxdepth=4, widen=100, maxstates=500, maxtime=5)
        try: outs = it.run(State(), Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit: und.append(f.q); continue
        vals = {o.val.const() if isinstance(o.val, I) else None for o in outs if o.thrown is None}
        if len(vals) != 1 or None in vals: und.append(f"{f.q}: type not constant"); continue
        nm = values(p, en).get(vals.pop())
        want = cls[:-5]
        if want not in values(p, en).values(): und.append(f"{cls}: no type of its own"); res[cls] = nm; continue
        ctx.check(nm == want, "type", f, f"{cls}: {nm}", f"{cls} has type {nm}", f"type {cls}")
        res[cls] = want if nm != want else nm
    # two classes don't share a type
    return res


def into(ctx, p, gl, kinds, und):
    n0, tv = 0, values(p, "KanjiTypes")
    for f in p.fns.values():
        if f.cfg is None or f.lam is not None or not f.file.startswith("libs/"): continue
        rel = False
        for n in f.nodes():
            if n.k == "CallExpr" and (short(n.fq or "") == "make_shared" and made(n) in kinds or n.own and short(n.fq or "") == "fromFile"): rel = True; break
        if not rel: continue
        cl = Make(p, gl, kinds)
        it = Interp17(p, cl, maxdepth=6, widen=6, maxstates=30000, maxtime=30)
        try: it.run(State(), Frame(f, "0", 0, ("this0",) if f.cls and not f.static else None, stack=(f.id,)))
        except Limit as e: und.append(f"{f.q}: {str(e)[:60]}"); 
        seen = {}
        for n, l, c in cl.put: seen.setdefault((n, c), set()).add(l[2])
        for (n, c), ks in seen.items():
            if None in ks: und.append(f"{f.q}: list not known"); continue
            got = {tv.get(k) for k in ks}
            ctx.check(got == {kinds[c]}, "into", n, f"{c} into {sorted(map(str, got))}", f"{c} (type {kinds[c]}) is put in the list of {sorted(map(str, got - {kinds[c]}))}", f"into {f.q} {c}")
        for n in cl.unk: und.append(f"{f.q}: line {n.l}: kanji not known")
    ctx.info["classes"] = len(kinds)


def files(ctx, p):
    for f in p.fns.values():
        if f.kind != "ctor" or f.cfg is None or not f.file.startswith("libs/"): continue
        by = {}
        for n in f.nodes():
            if n.k not in ("CallExpr", "CXXMemberCallExpr") or not n.own: continue
            a = [x for x in n.c[1:] if x is not None]
            if len(a) != 1 or a[0].v is None or a[0].t is None or a[0].t.strip().k != "enum": continue
            by.setdefault((n.fq, a[0].t.strip().n), []).append((a[0].v, n))
        for (fq, en), calls in by.items():
            e = enum(p, en.split("::")[-1])
            if e is None or len(calls) < 3: continue
            vals = {v: nm for nm, v in e["vals"] if nm != "None"}
            cnt = {}
            for v, n in calls: cnt.setdefault(v, []).append(n)
            for v, nm in vals.items():
                k = len(cnt.get(v, ()))
                ctx.check(k == 1, "files", cnt[v][-1] if k else f, f"{short(fq)}({nm})", f"{short(fq)} is called {k} times for {en.split('::')[-1]}::{nm}", f"files {nm}")


def check(ctx):
    p = ctx.p
    gl = Globals(p)
    und = []
    names(ctx, p, gl, und)
    bits(ctx, p)
    operators(ctx, p, und)
    kinds = types(ctx, p, gl, und)
    into(ctx, p, gl, {k: v for k, v in kinds.items() if k.endswith("Kanji")}, und)
    files(ctx, p)
    ctx.info["undecided"] = und[:60]
