"""C12: a directory walk never follows symbolic links found inside a directory."""
from sa.absint import Client, Frame, I, Interp, K, Limit, State, NOT, locname
from sa.exc import short, args
from sa.facts import Node, show

EXPLAIN = ("Path-partitioned abstract interpretation of every function that iterates over a directory: the directory entry is "
           "tracked by identity through references, path() and helper functions, and on every path each use that processes or "
           "descends into it must be preceded, for that same entry, by a test that it is not a symbolic link.")
RULES = {"entry-not-link": "an entry of a directory is passed on (processed, opened, iterated) only where it was tested not to be a symbolic link",
         "no-follow": "no directory iterator is asked to follow directory symbolic links"}
ASSUME = ["the file system doesn't change while it is walked"]
PRED = {"is_regular_file", "is_directory", "is_symlink", "exists", "status", "symlink_status", "path", "file_size", "is_other",
        "filename", "string", "extension", "stem", "hard_link_count", "last_write_time", "operator*", "operator->", "begin", "end",
        "operator<<", "c_str", "native", "operator==", "operator!=", "operator const std::filesystem::path &", "refresh", "u8string"}


def fs(fq): return "filesystem" in (fq or "")


def direntry(t):
    t = t.deref() if t is not None and t.k in ("ptr", "ref") else t
    return t is not None and t.strip().k == "rec" and "directory_entry" in t.strip().n


class Walk(Client):
    def __init__(self, p, root): self.p = p; self.root = root; self.sites = {}; self.memo = {}

    def inline(self, f, n):
        # helpers that take an entry, or that test for links themselves
        if f.id not in self.memo:
            r = f.cfg is not None and len(f.cfg.blocks) < 40
            its = any(iterator(x) for x in f.nodes())
            ent = any(direntry(q["t"]) for q in f.params)
            test = any(x.k in ("CallExpr", "CXXMemberCallExpr") and short(x.fq) == "is_symlink" for x in f.nodes())
            small = f.ret is not None and f.ret.strip().k == "bool" and any("filesystem" in q["t"].s for q in f.params)
            path = f.ret is not None and "filesystem" in f.ret.s and any("filesystem" in q["t"].s for q in f.params)
            self.memo[f.id] = r and not its and (ent or test or small or path)
        return self.memo[f.id]

    def entry(self, s, v):
        """location of the entry a value stands for"""
        if isinstance(v, tuple) and len(v) > 1:
            if v[0] == "l" or v[0] == "p" and isinstance(v[1], tuple):
                l = v[1]
                for i in range(len(l), 0, -1):
                    if ("ent",) + l[:i] in s.env: return s.env[("ent",) + l[:i]][1]
        return None

    def call(self, it, s, fr, n, recv, vals):
        fq, sh = n.fq or "", short(n.fq)
        if fs(fq) and "iterator" in fq:
            if sh in ("operator++",) or sh == "increment":
                for k in [k for k in s.bools if str(k).startswith("link:")]: del s.bools[k]
                return None
            if sh == "operator*" or sh == "operator->":
                loc = ("dirent", fr.id)
                s.env[("ent",) + loc] = ("o", loc)
                return [(s, ("l", loc) if sh == "operator*" else ("p", loc, K(0)))]
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.use(it, s, fr, n, vals)
            return None
        if sh == "is_symlink" and fs(fq):
            e = None
            if recv is not None and n.c[0] is not None: e = self.entry(s, self.obj(it, s, fr, n, recv))
            for v in vals: e = e or self.entry(s, v)
            if e is not None:
                return [(s, ("b", ("sym", "link:" + locname(e))))]
            return None
        if fs(fq) and recv is not None and n.c and n.c[0] is not None and not n.own:
            o = self.obj(it, s, fr, n, recv)
            e = self.entry(s, o)
            if e is not None and sh in ("path", "symlink_status", "operator const path &", "native", "string") or e is not None and "operator" in sh:
                loc = ("tmp", fr.id, n.i, "path")
                s.env[("ent",) + loc] = ("o", e)
                return [(s, ("l", loc))]
        if fs(fq) and not n.own and n.k == "CallExpr" and sh in ("symlink_status", "absolute"):
            for v in vals:
                e = self.entry(s, v)
                if e is not None:
                    loc = ("tmp", fr.id, n.i, "st")
                    s.env[("ent",) + loc] = ("o", e)
                    return [(s, ("l", loc))]
        if n.copy and vals and self.entry(s, vals[0]) is not None or n.k == "CXXConstructExpr" and fs(fq) and "path" in sh and vals and self.entry(s, vals[0]):
            loc = ("tmp", fr.id, n.i, "copy")
            s.env[("ent",) + loc] = ("o", self.entry(s, vals[0]))
            return [(s, ("l", loc))]
        if n.own:
            ts = self.p.targets(n)
            if ts and all(self.inline(g, n) and g.id not in fr.stack and g.id != self.root.id for g in ts): return None
            return self.use(it, s, fr, n, vals)
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "stream" in fq or sh == "open": return self.use(it, s, fr, n, vals)
        return None

    def obj(self, it, s, fr, n, recv):
        if n.arrow: return ("l", it.objloc(s, fr, n.c[0], recv, True))
        return recv

    def use(self, it, s, fr, n, vals):
        for v in vals:
            e = self.entry(s, v)
            if e is not None:
                t = s.truth(("sym", "link:" + locname(e)))
                self.sites.setdefault(n, []).append(t is False)
        return None


def iterator(n): return n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and fs(n.fq) and "directory_iterator" in short(n.fq) and not n.copy and len(args(n)) >= 1


def check(ctx):
    p = ctx.p
    its = 0
    for f in p.fns.values():
        mine = [n for n in f.nodes() if iterator(n)]
        for n in f.nodes():
            if n.k == "DeclRefExpr" and "follow_directory_symlink" in str(n.ec or n.n or n.fq or n.var or ""):
                ctx.bad("no-follow", n, "asks the iterator to follow symbolic links to directories", key=f"follow {f.q}")
        if not mine: continue
        its += len(mine)
        root = f
        while root.lam and p.fns.get(root.inside): root = p.fns[root.inside]
        cl = Walk(p, root)
        it = Interp(p, cl, maxdepth=5)
        s = State()
        try: it.run(s, Frame(root, "0", 0, ("this0",) if root.cls else None, stack=(root.id,)))
        except Limit as x: ctx.info.setdefault("undecided", []).append(f"{f.q}: {x}")
        for n, oks in cl.sites.items():
            ctx.check(all(oks), "entry-not-link", n, f"{show(n)[:80]}: only for entries that aren't symbolic links",
                      f"a directory entry is passed to {n.fq} on a path where it may be a symbolic link", key=f"link {n.of.q} {short(n.fq)}")
    ctx.ok("no-follow", "libs, apps", "no follow_directory_symlink")
    ctx.info["directory_iterators"] = its
    if its: ctx.floor("entry-not-link", 1, "uses of directory entries")
