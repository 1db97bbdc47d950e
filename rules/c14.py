"""C14: kanji are loaded in order of precedence, once, and put in every index they have a key for."""
import re

from sa.absint import Frame, I, K, Limit, State
from sa.exc import short
from rules.c16 import Make, made, types
from rules.c17 import Globals, Interp17, fnamed, values
from rules.c20 import idxkey

EXPLAIN = ("Creation of kanji, loading of the data they need and insertion into maps are events. Which event may come after which one is computed over the control flow of the constructor and "
           "everything it calls; the loops over lists, files and maps are interpreted abstractly, one iteration at a time: what was looked up, created, inserted and added.")
RULES = {"before": "what kanji need is loaded before they're created",
         "order": "categories are filled in order of precedence",
         "all": "every category is filled",
         "absent": "a kanji of a category that isn't read from a file of its own is only created if there's none with its name",
         "insert": "every kanji that's read or created is inserted exactly once",
         "list": "each entry of a level, kyu or frequency list is added to the list of its kind exactly once",
         "rank": "a kanji created from the frequency list has the position in that list as frequency",
         "index": "a kanji is put in each index it has a key for, and only if its name was new"}
ASSUME = []
ORDER = ["Jouyou", "LinkedJinmei", "Extra", "Frequency", "Kentei", "Ucd"]
INDEX = {"morohashi": "morohashiId", "compat": "variant", "nelson": "nelsonIds", "grade": "hasGrade"}


def strp(t): return t is not None and t.deref().strip().k == "rec" and t.deref().strip().n == "std::basic_string"


def kanptr(t):
    return t is not None and t.deref().strip().k == "rec" and t.deref().strip().n == "std::shared_ptr" and "Kanji" in t.deref().strip().s


def member(n):
    """the non-static member an expression names (also through an accessor or a subscript)"""
    while n is not None:
        if n.k == "MemberExpr" and n.m: return n
        if n.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr") and n.c: n = n.c[0]; continue
        if n.k == "CXXOperatorCallExpr" and n.oper == "[]" or n.k == "ArraySubscriptExpr": n = n.c[0]; continue
        return None
    return None


class Load(Make):
    """one iteration of a loop at a time: found / absent / made / inserted / added"""
    def __init__(self, p, gl, kinds, kind=None, param=None):
        super().__init__(p, gl, kinds)
        self.kind, self.param = kind, param
        self.done = []        # events of finished iterations
        self.ranks = []
        self.idx = []
        self.adders = {}

    def inline(self, f, n):
        if f.cfg is None or f.virt or f.kind in ("ctor", "dtor"): return False
        if f.lam is not None: return True
        if "kt_utils" in f.file: return f.cls is None and len(f.cfg.blocks) <= 3
        sh = f.q.split("::")[-1]
        if sh in ("checkInsert", "findByName", "error", "load") or sh.startswith("print"): return False
        return f.file.startswith("libs/kanji") and f.cls is not None and ("KanjiData" in f.q) and len(f.cfg.blocks) < 30

    def event(self, s, *e): s.ts = (s.ts or ()) + (e,)

    def note(self, s):
        if s.ts: self.done.append((s.ts, s))

    def head(self, it, s, fr, bid):
        if s.ts: self.done.append((s.ts, s.copy()))
        s.ts = ()
        self.prune(s)

    def prune(self, s):
        # what doesn't carry over: sizes, numbers kept in members, kanji of the iteration before
        for k, v in list(s.env.items()):
            if k[-1] == "#size" or k[0] in ("g", "this0", "tmp") or not isinstance(v, I) and (not isinstance(v, tuple) or v[0] in ("kan", "o") and v[:2] != ("o", "begin") and v[1][0] != "file") or isinstance(v, I) and k[0] == "v" and len(k) > 3:
                s.env.pop(k, None)
        used = {v.sym for v in s.env.values() if isinstance(v, I)} | {"kyu", "level"}
        for r in list(s.rng):
            if r not in used and (not isinstance(r, str) or "@" in r or r.startswith(("m", "trunc", "w")) and not r.startswith("wv.")): s.forget(r)

    def access(self, it, s, fr, n, base, idx):
        if strp(n.t): self.event(s, "at", idxkey(idx) if isinstance(idx, I) else None)

    def beg(self, s, v):
        if isinstance(v, tuple) and v and v[0] == "l": v = s.env.get(v[1])
        return v[2] if isinstance(v, tuple) and v[:2] == ("o", "begin") and len(v) > 2 else None

    def namekey(self, s, v):
        if isinstance(v, tuple) and v and v[0] == "l": return v[1]
        return None

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""
        sh = short(fq)
        av = [(a, v) for a, v in zip(n.c[1:], args) if a is not None]
        if n.own and sh in ("kyu", "level") and n.k == "CXXMemberCallExpr" and self.kind is not None and n.c[0] is not None and n.c[0].t is not None and "ListFile" in n.c[0].t.deref().strip().s + n.c[0].t.s:
            en = "KenteiKyus" if sh == "kyu" else "JlptLevels"
            vals = {nm: v for v, nm in values(self.p, en).items()}
            if {"kyu": "kyus", "level": "levels"}[sh] == self.kind:
                hi = max(v for nm, v in vals.items() if nm != "None")
                s.rng.setdefault(sh, (0, hi))
                return [(s, I(0, hi, sh, 0))]
            return [(s, K(vals["None"]))]
        if n.own and sh in ("findByName", "getType") and av:
            k = self.namekey(s, av[0][1])
            if sh == "findByName":
                out = []
                last = [e[0] for e in s.ts or () if e[0] in ("found", "absent") and e[1] == k or e[0] == "insert"]
                for there in (True, False):
                    if k is not None and last and there != (last[-1] != "absent"): continue
                    ns = s.copy()
                    if k is None or not last or last[-1] == "insert": self.event(ns, "again" if last else "found" if there else "absent", k)
                    out.append((ns, ("kan", ("found" if there else "null", k))))
                return out
        if not n.own and sh in ("find", "contains", "count") and n.c[0] is not None and n.c[0].t is not None and kanmap(n.c[0].t) and av:
            both = any(x.k == "MemberExpr" and x.m and x.t is not None and x.t.deref().strip().n in ("std::map", "std::unordered_map") and "shared_ptr" not in x.t.deref().strip().s for x in fr.fn.nodes())
            self.event(s, "looked", self.namekey(s, av[0][1]), both)
        if sh == "operator bool" or n.k == "CXXOperatorCallExpr" and n.oper in ("!", "==", "!="):
            k = self.kan(s, recv)
            if k is None and av: k = self.kan(s, av[0][1])
            if k is not None and isinstance(k[1], tuple) and (sh == "operator bool" or all(a.t is not None and (kanptr(a.t) or "nullptr" in a.t.s) for a, _ in av)):
                there = k[1][0] == "found"
                if n.k == "CXXOperatorCallExpr" and n.oper != "!=": there = not there
                return [(s, ("b", ("c", there)))]
        if n.k == "CallExpr" and sh == "make_shared" and made(n) in self.kinds:
            c = made(n)
            names = [self.namekey(s, v) for a, v in av if strp(a.t)]
            links = [self.kan(s, v) for a, v in av if kanptr(a.t)]
            self.event(s, "made", c, tuple(names))
            if c == "FrequencyKanji":
                i = [it.rv(s, v, a.t, a) for a, v in av if a.t is not None and a.t.deref().strip().range is not None and a.t.deref().strip().k != "enum"]
                self.ranks.append((n, [x[1] for x in s.ts if x[0] == "at"], i[-1] if i else None))
            return [(s, ("kan", ("new", c)))]
        if n.own and sh == "fromFile":
            m = re.search(r"fromFile<(?:const )?(?:kanji_tools::)?(\w+)", self.p.fns[n.f].id if n.f in self.p.fns else str(n.f))
            if m and m.group(1) in self.kinds:
                self.event(s, "file", m.group(1))
                return [(s, ("kan", ("file", m.group(1))))]
        if sh in ("begin", "cbegin", "end", "cend") and not n.own and (k := self.kan(s, recv)) is not None and k[1][0] == "file":
            return [(s, ("o", "begin", k[1][1]))]
        if not n.own and (n.oper == "[]" or sh == "at") and (k := self.kan(s, recv)) is not None and k[1][0] == "file":
            self.event(s, "next", k[1][1])
            return [(s, ("kan", ("next", k[1][1])))]
        if n.k == "CXXOperatorCallExpr" and n.oper == "++" and self.beg(s, recv): return [(s, recv)]
        if n.k == "CXXOperatorCallExpr" and n.oper == "*" and not n.own and kanptr(n.t) and (c := self.beg(s, recv)):
            self.event(s, "next", c)
            return [(s, ("kan", ("next", c)))]
        if n.own and sh == "checkInsert":
            ks = [self.kan(s, v) for a, v in av if kanptr(a.t)]
            self.event(s, "insert", ks[0][1] if ks and ks[0] is not None else None)
            return [(s, it.fresh(s, n, n.t))]
        if not n.own and sh in ("push_back", "emplace_back") and av and kanptr(av[0][0].t):
            m = member(n.c[0])
            base = ""
            if m is not None: base = m.t.strip().s if m.t is not None else ""
            to = "kyus" if "KenteiKyus" in base else "levels" if "JlptLevels" in base else "freq" if "array" in base else None
            if to:
                self.event(s, "to", to, (self.kan(s, av[0][1]) or (None, None))[1])
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and kanptr(n.t) and not av:
            return [(s, ("kan", ("null", None)))]
        return super().call(it, s, fr, n, recv, args)


def kanmap(t):
    t = t.deref().strip()
    return t.k == "rec" and t.n in ("std::map", "std::unordered_map") and "shared_ptr" in t.s and "basic_string" in t.s.split("shared_ptr")[0] + "basic_string" * ("String" in t.s)


# -- order of events over the control flow

class Order:
    def __init__(self, p, kinds, und):
        self.p, self.kinds, self.und = p, kinds, und
        self.memo = {}
        self.bylist = {}
        self.sites = {}
        self.active = set()
        self.unres = False

    def own(self, f): return f is not None and f.cfg is not None and f.file.startswith("libs/kanji")

    def creates(self, f):
        return any(n.k == "CallExpr" and short(n.fq or "") == "make_shared" and made(n) in self.kinds for n in f.nodes())

    def ofcall(self, n, kind, cur=None):
        """what may happen in a call: (events, pairs)"""
        sh = short(n.fq or "")
        if n.k == "CallExpr" and sh == "make_shared" and made(n) in self.kinds: return {self.kinds[made(n)]}, set()
        if n.own and sh == "fromFile":
            m = re.search(r"fromFile<(?:const )?(?:kanji_tools::)?(\w+)", self.p.fns[n.f].id if n.f in self.p.fns else str(n.f))
            if m and m.group(1) in self.kinds: return {self.kinds[m.group(1)]}, set()
        if n.own and (n.fq or "").endswith("UcdData::load"): return {"ucd"}, set()
        if n.own and (n.fq or "").endswith("RadicalData::load"): return {"radicals"}, set()
        if not n.own and n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and (sh in ("emplace", "insert", "try_emplace", "insert_or_assign") or n.oper == "[]"):
            m = member(n.c[0])
            if m is not None and m.t is not None and "requencyReadings" in m.m: return {"readings"}, set()
        has, pairs = set(), set()
        for f in (self.p.targets(n) if n.own or n.k == "CXXOperatorCallExpr" else ()):
            f = self.p.fns.get(f) if isinstance(f, str) else f
            if not self.own(f): continue
            k = None
            for a in n.c[1:]:
                if a is None or a.t is None or "ListFile" not in a.t.deref().strip().s: continue
                names = {x.t.deref().strip().n.split("::")[-1] for x in a.walk() if x.t is not None and x.t.deref().strip().k == "rec"}
                if kind is not None and a.k == "DeclRefExpr" and cur is not None and any(x["var"] == a.var for x in cur.params): k = kind
                elif "KyuListFile" in names: k = "kyus"
                elif "LevelListFile" in names: k = "levels"
                elif "ListFile" in names:
                    m = member(a)
                    k = "freq" if m is not None and m.t is not None and m.t.k == "rec" else "?"
            h, q = self.of(f, k)
            has |= h; pairs |= q
        return has, pairs

    def of(self, f, kind=None):
        key = (f.id, kind)
        if key in self.memo: return self.memo[key]
        if key in self.active: return set(), set()
        if kind in self.bylist and self.bylist[kind].get(f.id) is not None:
            r = self.memo[key] = (self.bylist[kind][f.id], set())
            return r
        if kind is not None and any(x["t"].k == "ref" and x["t"].deref().strip().n.endswith("::ListFile") for x in f.params) and self.creates(f): self.unres = True
        self.active.add(key)
        blocks = f.cfg.blocks
        seq = {}
        for b in blocks.values():
            l = []
            for e in b.elems:
                n = e.get("e") if isinstance(e, dict) else e
                if n is None or not hasattr(n, "k"): continue
                if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                    h, q = self.ofcall(n, kind, f)
                    if h: l.append((h, q))
                    for x in h: self.sites.setdefault(x, n)
            seq[b.id] = l
        # events that may have happened before a block
        before = {b: set() for b in blocks}
        work = list(blocks)
        while work:
            b = work.pop()
            out = set(before[b]).union(*[h for h, _ in seq[b]])
            for t in blocks[b].succ:
                if t is not None and not out <= before[t]:
                    before[t] |= out
                    work.append(t)
        has, pairs = set(), set()
        for b in blocks:
            cur = set(before[b])
            for h, q in seq[b]:
                pairs |= {(x, y) for x in cur for y in h} | q
                cur |= h
                has |= h
        self.active.discard(key)
        self.memo[key] = (has, pairs)
        return has, pairs


def lists(ctx, p, gl, kinds, und):
    """functions that process an entry after the other of a list; returns kind -> {function: categories created}"""
    res = {}
    fs = [f for f in p.fns.values() if f.cfg is not None and f.lam is None and f.file.startswith("libs/kanji") and "KanjiData" in f.q and not f.const
          and any(x["t"].k == "ref" and x["t"].deref().strip().n.endswith("::ListFile") for x in f.params)]
    for f in fs:
        for kind in ("levels", "kyus", "freq"):
            cl = Load(p, gl, kinds, kind)
            it = Interp17(p, cl, maxdepth=5, widen=2, maxstates=20000, maxtime=40)
            try: outs = it.run(State(), Frame(f, "0", 0, ("this0",), stack=(f.id,)))
            except Limit as e: und.append(f"{f.q} ({kind}): {str(e)}"); continue
            created = {kinds[e[1]] for t, _ in cl.done for e in t if e[0] == "made"}
            res.setdefault(kind, {})[f.id] = created
            n = 0
            seen = set()
            for t, s in cl.done:
                if not any(e[0] in ("found", "absent", "made", "to", "insert") for e in t): continue
                t = tuple(e for e in t if e[0] != "at")
                if t in seen: continue
                seen.add(t)
                n += 1
                to = [e for e in t if e[0] == "to"]
                mk = [e for e in t if e[0] == "made"]
                ins = [e for e in t if e[0] == "insert"]
                fnd = [e[0] for e in t if e[0] in ("found", "absent")]
                what = "found" if "found" in fnd else "new"
                if len(to) != 1 or to[0][1] != kind:
                    ctx.bad("list", f, f"an entry ({what}) of a list of kind '{kind}' is added to {[e[1] for e in to] or 'no list'}", key=f"list {kind} {what}")
                if mk and not fnd: ctx.bad("absent", f, f"{mk[0][1]} is created without looking whether there's one with that name", key=f"absent {kind}")
                if mk and what == "found": ctx.bad("absent", f, f"{mk[0][1]} is created although there's one with that name", key=f"absent2 {kind}")
                if what == "new" and fnd and not mk and to: ctx.bad("list", f, "an entry that isn't known is added without being created", key=f"null {kind}")
                want = "KenteiKanji" if kind == "kyus" else "FrequencyKanji"
                for e in mk: ctx.check(e[1] == want, "list", f, f"{kind}: {e[1]}", f"{e[1]} is created from a list of kind '{kind}'", f"kind {kind}")
                if mk and len(ins) != len(mk): ctx.bad("insert", f, f"{mk[0][1]} is created but inserted {len(ins)} times", key=f"insert {kind}")
                if not mk and ins: ctx.bad("insert", f, "a kanji that exists is inserted again", key=f"again {kind}")
                if mk and to and to[0][2] is not None and to[0][2][0] != "new": ctx.bad("list", f, "another kanji than the one that was created is added", key=f"other {kind}")
            if n: ctx.ok("list", f, f"{f.q} for {kind}: {n} paths of an iteration")
            else: und.append(f"{f.q} ({kind}): nothing followed")
            for nd, at, v in cl.ranks:
                if kind != "freq": continue
                a = at[-1] if at else None
                b = idxkey(v) if isinstance(v, I) else None
                if not isinstance(a, tuple) or not isinstance(b, tuple) or a[:-1] != b[:-1]:
                    if b is not None and a is not None: und.append(f"{f.q}: rank not followed")
                    continue
                ctx.check(b[-1] == a[-1] + 1, "rank", nd, "frequency is position + 1", f"an entry at position i of the frequency list gets frequency i{b[-1] - a[-1]:+d}", "rank")
    return res


def onlymoved(f):
    """what's read from a file is only moved into the list of its type"""
    vs = {d["var"] for n in f.nodes() if n.k == "DeclStmt" for d in n.d["d"] if d.get("init") is not None and any(short(x.fq or "") == "fromFile" for x in d["init"].walk())}
    if len(vs) != 1: return False
    uses = 0
    for n in f.nodes():
        if n.k == "DeclRefExpr" and n.var in vs:
            uses += 1
            u = n.up
            while u is not None and (u.k != "CXXOperatorCallExpr" or u.oper != "="):
                if u.k not in ("CallExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") or u.k == "CallExpr" and u.fq != "std::move": return False
                u = u.up
            if u is None: return False
    return uses > 0


def singles(ctx, p, gl, kinds, und):
    """functions that create kanji (not from level, kyu or frequency lists)"""
    for f in p.fns.values():
        if f.cfg is None or f.lam is not None or not f.file.startswith("libs/kanji") or "KanjiData" not in f.q: continue
        if any(x["t"].k == "ref" and x["t"].deref().strip().n.endswith("::ListFile") for x in f.params): continue
        cls = set()
        for n in f.nodes():
            if n.k != "CallExpr": continue
            if short(n.fq or "") == "make_shared" and made(n) in kinds: cls.add(made(n))
            if n.own and short(n.fq or "") == "fromFile": cls.add("file")
        if not cls: continue
        cl = Load(p, gl, kinds)
        it = Interp17(p, cl, maxdepth=5, widen=6, maxstates=20000, maxtime=40)
        try: outs = it.run(State(), Frame(f, "0", 0, ("this0",) if f.cls and not f.static else None, stack=(f.id,)))
        except Limit as e: und.append(f"{f.q}: {str(e)[:60]}"); continue
        its = {t for t, _ in cl.done} | {o.state.ts for o in outs if o.thrown is None and o.state.ts}
        files = {e[1] for t in its for e in t if e[0] == "file"}
        nexts = {e[1] for t in its for e in t if e[0] == "next"}
        k = 0
        for t in sorted(its, key=repr):
            mk = [e for e in t if e[0] == "made"]
            ins = [e[1] for e in t if e[0] == "insert"]
            for e in mk:
                k += 1
                if kinds[e[1]] in ("LinkedOld", "Ucd", "Frequency", "Kentei"):
                    i = t.index(e)
                    ab = [x for x in t[:i] if x[0] == "absent"]
                    if not ab:
                        lk = [x for x in t[:i] if x[0] == "looked"]
                        if lk and all(not x[2] and (not e[2] or x[1] is not None and x[1] in e[2]) for x in lk): ctx.bad("absent", f, f"{e[1]} is created if its name isn't in the map of names, without looking for a compatibility name", key=f"absent {e[1]}")
                        elif lk: und.append(f"{f.q}: search by another function")
                        elif any(x[0] == "found" for x in t[:i]): ctx.bad("absent", f, f"{e[1]} is created if there's one with that name", key=f"absent {e[1]}")
                        else: ctx.bad("absent", f, f"{e[1]} is created without looking whether there's one with that name", key=f"absent {e[1]}")
            if len(mk) > sum(1 for x in ins if x is not None and x[0] == "new"):
                if None in ins: und.append(f"{f.q}: insertion not followed")
                else: ctx.bad("insert", f, f"{mk[0][1]} is created but not inserted", key=f"insert {mk[0][1]}")
            if len(mk) < sum(1 for x in ins if x is not None and x[0] == "new"): ctx.bad("insert", f, "a kanji that was created is inserted more than once", key="twice")
            nx = [e[1] for e in t if e[0] == "next"]
            if nx and set(nx) <= files:
                k += 1
                c = sum(1 for x in ins if x is not None and x[0] == "next")
                if c != 1 and None in ins: und.append(f"{f.q}: insertion not followed")
                elif c != 1: ctx.bad("insert", f, f"{nx[0]} is read from its file but inserted {c} times", key=f"insert {nx[0]}")
        for c in files - nexts:
            if onlymoved(f): ctx.bad("insert", f, f"{c} are read from their file but never inserted", key=f"insert {c}")
            else: und.append(f"{f.q}: kanji of {c} not followed")
        if k: ctx.ok("insert", f, f"{f.q}: {k} paths with kanji read or created")
        else: und.append(f"{f.q}: no kanji followed")


def order(ctx, p, kinds, bylist, und):
    fs = [f for f in p.fns.values() if f.kind == "ctor" and f.cfg is not None and f.file.startswith("libs/kanji") and f.q.endswith("TextKanjiData::TextKanjiData")]
    if not fs: und.append("constructor of TextKanjiData not found"); return
    f = fs[0]
    o = Order(p, kinds, und)
    o.bylist = bylist
    has, pairs = o.of(f)
    cats = set(kinds.values())
    if o.unres:
        und.append("kind of a list isn't known")
        cats -= {"Frequency", "Kentei"}
        has = has - {"Frequency", "Kentei"}
    for x, ys in (("ucd", cats), ("radicals", cats), ("readings", {"Frequency"})):
        if x not in has: ctx.bad("before", f, f"{x} aren't loaded", key=f"load {x}"); continue
        for y in sorted(ys):
            if y not in has: continue
            ctx.check((x, y) in pairs and (y, x) not in pairs, "before", o.sites.get(x) or f, f"{x} before {y}", f"{y} kanji are created before {x} {'is' if x == 'ucd' else 'are'} loaded", f"{x} {y}")
    for c in sorted(cats):
        ctx.check(c in has, "all", f, f"{c} kanji are created", f"no kanji of type {c} are created", f"all {c}")
    def after(x, y, what=None):
        if x not in has or y not in has: return
        ctx.check((y, x) not in pairs, "order", o.sites.get(x) or f, f"no {x} after {y}", f"{x} kanji may be created after {y} kanji", f"{x} {y}")
    for i, x in enumerate(ORDER):
        for y in ORDER[i + 1:]: after(x, y)
    for y in ("LinkedOld", "Jinmei"):
        after("Jouyou", y)
        for z in ("Extra", "Frequency", "Kentei", "Ucd"): after(y, z)
    if {"LinkedJinmei", "LinkedOld"} <= has:
        ctx.check(("LinkedJinmei", "LinkedOld") in pairs, "order", o.sites.get("LinkedOld") or f, "official linked kanji before other old forms", "old forms of Jouyou kanji are created before the official linked ones", "linked old")
    ctx.info["events"] = sorted(has)


class Ins(Load):
    """checkInsert: which indexes are filled under which answers of the kanji"""
    def inline(self, f, n):
        if f.cfg is None or f.virt or f.kind in ("ctor", "dtor"): return False
        if f.lam is not None: return True
        sh = f.q.split("::")[-1]
        return f.cls is not None and "KanjiData" in f.q and not f.const and len(f.cfg.blocks) < 30 and f.file.startswith("libs/kanji")

    def kindof(self, t):
        t = t.deref().strip()
        if t.k != "rec": return None
        if t.n in ("std::map", "std::unordered_map"):
            a = [x for x in (t.a or ()) if hasattr(x, "k")]
            k = a[0].strip() if a else None
            v = a[1].strip() if len(a) > 1 else None
            if k is None or v is None: return None
            if k.k == "rec" and k.n == "std::basic_string": return "name" if v.k == "rec" and v.n == "std::shared_ptr" else "compat" if v.k == "rec" and v.n == "std::basic_string" else None
            if k.k == "rec" and k.n.endswith("MorohashiId"): return "morohashi"
            if k.range is not None: return "nelson"
        if "KanjiGrades" in t.s and "EnumMap" in t.s: return "grade"
        return None

    def call(self, it, s, fr, n, recv, args):
        sh = short(n.fq or "")
        av = [(a, v) for a, v in zip(n.c[1:], args) if a is not None]
        rt = n.c[0].t if n.c and n.c[0] is not None else None
        if n.own and n.k == "CXXMemberCallExpr" and rt is not None and rt.deref().strip().k == "rec" and rt.deref().strip().n.endswith("::Kanji") and not av:
            if sh in ("hasGrade", "variant") and n.t.strip().k == "bool":
                out = []
                for b in (True, False):
                    if (sh, not b) in (s.ts or ()): continue
                    ns = s.copy()
                    if (sh, b) not in (s.ts or ()): self.event(ns, sh, b)
                    out.append((ns, ("b", ("c", b))))
                return out
            return [(s, ("l", ("acc", sh)))] if n.t is not None and n.t.strip().range is None else [(s, it.fresh(s, n, n.t))]
        if n.own and sh == "operator bool" and isinstance(recv, tuple) and recv and recv[0] == "l" and recv[1][:1] == ("acc",):
            out = []
            for b in (True, False):
                if (recv[1][1], not b) in (s.ts or ()): continue
                ns = s.copy()
                if (recv[1][1], b) not in (s.ts or ()): self.event(ns, recv[1][1], b)
                out.append((ns, ("b", ("c", b))))
            return out
        if n.own and sh.startswith("insertSanity"): return [(s, ("o", "void"))]
        if not n.own and rt is not None and sh in ("emplace", "insert", "try_emplace", "insert_or_assign") and self.kindof(rt):
            k = self.kindof(rt)
            if k in ("name", "compat"):
                out = []
                for okk in (True, False):
                    ns = s.copy()
                    self.event(ns, "map", k, okk, tuple(v[1][1] if isinstance(v, tuple) and v and v[0] == "l" and v[1][:1] == ("acc",) else None for a, v in av))
                    loc = ("tmp", fr.id, n.i)
                    it.kill(ns, loc)
                    ns.env[loc + ("second",)] = ("b", ("c", okk))
                    out.append((ns, ("l", loc)))
                return out
        if not n.own and sh in ("push_back", "emplace_back") and av and kanptr(av[0][0].t):
            m = member(n.c[0])
            k = self.kindof(m.t) if m is not None and m.t is not None else None
            if k != "nelson" or ("put", k) not in (s.ts or ()): self.event(s, "put", k or "list")
        if n.own and sh == "checkInsert" and not self.inline(self.p.fns.get(n.f), n) if n.f in self.p.fns else False: return None
        return Make.call(self, it, s, fr, n, recv, args) if sh not in ("findByName",) else None


def index(ctx, p, gl, kinds, und):
    fs = [f for f in p.fns.values() if f.cfg is not None and f.q.endswith("KanjiData::checkInsert")]
    if not fs: und.append("checkInsert not found"); return
    for f in fs:
        tolist = any(x["t"].k == "ref" and x["t"].deref().strip().n == "std::vector" for x in f.params)
        cl = Ins(p, gl, kinds)
        cl.head = lambda it, s, fr, bid: cl.prune(s)
        it = Interp17(p, cl, maxdepth=4, widen=3, maxstates=20000, maxtime=40)
        try: outs = it.run(State(), Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit as e: und.append(f"{f.q}: {str(e)[:60]}"); continue
        good = 0
        puts = set()
        for o in outs:
            if o.thrown is not None: continue
            ts = o.state.ts or ()
            nm = [e for e in ts if e[0] == "map" and e[1] == "name"]
            if len(nm) != 1:
                ctx.bad("index", f, f"the map of names is filled {len(nm)} times", key="names"); continue
            okk = nm[0][2]
            put = [e[1] for e in ts if e[0] == "put"] + [e[1] for e in ts if e[0] == "map" and e[1] != "name"]
            puts |= set(put)
            r = o.val[1] if isinstance(o.val, tuple) and o.val[:1] == ("b",) else None
            r = r[1] if isinstance(r, tuple) and r[:1] == ("c",) else None
            if nm[0][3][:1] not in ((None,), ("name",)): ctx.bad("index", f, f"the map of names is filled with {nm[0][3][0]}", key="name key")
            if not okk:
                if put: ctx.bad("index", f, f"a kanji whose name is known already is put in {put[0]}", key="known")
                if r is True: ctx.bad("index", f, "true is returned though the name is known already", key="true")
            else:
                if r is False: ctx.bad("index", f, "false is returned though the kanji was inserted", key="false")
                for k, acc in INDEX.items():
                    c = [e[1] for e in ts if e[0] == acc]
                    if c and c[0] is True and k not in put: ctx.bad("index", f, f"a kanji with {k} isn't put in that index", key=f"missing {k}")
                    if c and c[0] is False and k in put: ctx.bad("index", f, f"a kanji without {k} is put in that index", key=f"without {k}")
                if tolist and "list" not in put: ctx.bad("index", f, "the kanji isn't put in the list", key="list")
                for e in ts:
                    if e[0] == "map" and e[1] == "compat" and e[3] not in (("compatibilityName", "name"),) and None not in e[3]:
                        ctx.bad("index", f, f"the map of compatibility names leads from {e[3][0]} to {e[3][1]}", key="compat key")
            for k in set(put):
                if put.count(k) > 1 and k != "nelson": ctx.bad("index", f, f"a kanji is put in {k} more than once", key=f"twice {k}")
            good += 1
        for k in INDEX:
            ctx.check(k in puts, "index", f, f"{k} is filled", f"the index {k} is never filled", f"never {k}")
        if good: ctx.ok("index", f, f"{f.q}: {good} paths")


def check(ctx):
    p = ctx.p
    gl = Globals(p)
    und = []
    class Quiet:
        info = {}
        def check(self, c, *a): pass
        def ok(self, *a, **k): pass
        def bad(self, *a, **k): pass
    kinds = {k: k[:-5] for k in types(Quiet(), p, gl, []) if k.endswith("Kanji")}
    bylist = lists(ctx, p, gl, kinds, und)
    singles(ctx, p, gl, kinds, und)
    order(ctx, p, kinds, bylist, und)
    index(ctx, p, gl, kinds, und)
    ctx.info["undecided"] = und[:60]
