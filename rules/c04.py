"""C04: statistics workers share nothing they write, and results are read only after they finished."""
from sa.effects import Effects, is_handle
from sa.cfgx import Flow, loop_of, loops_of, inside, breaks
from sa.facts import Broken, show

EXPLAIN = ("Interprocedural write-effect analysis (fixpoint over the whole call graph, virtual calls to every overrider, "
           "lambdas counted where made) of every callable handed to another thread: each storage root it may write must be "
           "the task's own object, created in the launching function for this launch only; captured references must outlive "
           "the task; task results are dereferenced elsewhere only behind a join on every path (dominance).")
RULES = {"task-writes": "every storage root written by a task is exclusively its own",
         "task-object": "the task's object is made in the launching function, once per launch, captured by one task",
         "task-captures": "references held by a task or its object do not refer to the launching function's frame",
         "task-calls": "no task reaches a library function with hidden shared state",
         "read-after-join": "results are read only behind get()/wait() on the futures, on every path",
         "launcher-writes": "the launching code writes nothing but its own frame and the output stream before the join"}
ASSUME = ["standard library calls on distinct objects and const calls on shared objects are race-free, as the C++ standard says"]

THREADS = ("std::thread", "std::jthread")
HIDDEN = {"setlocale", "strtok", "rand", "srand", "localtime", "gmtime", "asctime", "ctime", "strerror", "tmpnam",
          "setenv", "putenv", "unsetenv", "mblen", "mbtowc", "wctomb", "global", "sync_with_stdio"}
SYNC = ("std::atomic", "std::atomic_flag", "std::mutex", "std::shared_mutex", "std::recursive_mutex",
        "std::condition_variable", "std::once_flag", "std::__atomic_base", "std::latch", "std::barrier")


def atomic(t):
    t = t.strip() if t is not None else None
    return t is not None and t.k == "rec" and (t.n in SYNC or t.n.startswith("std::atomic"))


def tasks(p):
    """(function, call node, callable node, further argument nodes)"""
    for f in p.fns.values():
        for n in f.nodes():
            args = None
            if n.k == "CallExpr" and (n.fq or "") == "std::async":
                args = [a for a in n.c[1:] if a is not None]
                if args and args[0].t is not None and args[0].t.strip().k == "enum": args = args[1:]
            elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.t is not None and n.t.strip().n in THREADS:
                args = [a for a in n.c[1:] if a is not None]
                if not args or args[0].t.strip().n in THREADS: args = None
            elif n.k == "CXXMemberCallExpr" and (n.fq or "").endswith(("::emplace_back", "::emplace")) and n.c[0] is not None:
                t = n.c[0].t.deref()
                if t.a and hasattr(t.a[0], "n") and t.a[0].n in THREADS: args = [a for a in n.c[1:] if a is not None]
            if args: yield f, n, args[0], args[1:]


def resolve(e, f, c, depth=0):
    """the lambda expression or function a callable argument stands for"""
    if c is None or depth > 5: return None
    if c.k == "LambdaExpr": return c
    if c.k == "DeclRefExpr" and c.d.get("fn"): return c
    if c.k == "UnaryOperator" and c.op == "&": return resolve(e, f, c.c[0], depth + 1)
    if c.k == "DeclRefExpr" and c.var is not None:
        for x in e.assigned.get(f.id, {}).get(c.var, []): return resolve(e, f, x, depth + 1)
    if c.k in ("CXXConstructExpr", "CallExpr") and len(c.c) > 1: return resolve(e, f, c.c[1], depth + 1)
    return None


def check(ctx):
    p = ctx.p
    e = Effects(p)
    ts = list(tasks(p))
    if not ts:
        for f in p.fns.values():
            for n in f.nodes():
                if n.t is not None and ("std::future<" in n.t.s or "std::thread" in n.t.s):
                    raise Broken(f"thread type used at {ctx.where(n)} but no launch site recognised")
        ctx.ok("task-writes", "libs/stats", "no code runs on another thread")
        return
    capt = {}
    lost = []
    handles = set()
    launchers = {}
    allreach = set()
    for f, n, c, rest in ts:
        r = resolve(e, f, c)
        if r is None: lost.append(f"callable of the task launched at {ctx.where(n)} not resolved"); continue
        if r.k == "LambdaExpr": gs = [g for g in p.lambdas.get(r.lam, []) if g.name == "operator()"]
        else: gs = [g for g in [p.fns.get(r.f)] if g]
        if not gs: lost.append(f"task body at {ctx.where(n)} not found"); continue
        for g in gs: one(ctx, p, e, f, n, r, g, rest, capt, handles, allreach)
        launchers.setdefault(f.id, []).append(n)
    if len(lost) == len(ts): raise Broken(lost[0])
    if lost: ctx.info["undecided"] = lost
    for v, sites in capt.items():
        ctx.check(len({(s.of.id, s.i) for s in sites}) == 1, "task-object", sites[0],
                  f"object behind '{v.split('@')[0]}' belongs to one task", f"'{v.split('@')[0]}' is shared by several tasks")
    joins(ctx, p, e, launchers, handles, allreach)
    ctx.info["tasks"] = len(ts)
    ctx.info["functions_reachable_from_tasks"] = len(allreach)


def pointee(t):
    t = t.strip()
    if t.k == "ptr": return t.to.strip().n
    return t.a[0].n if t.a and hasattr(t.a[0], "n") else t.n


def lexparents(p, f):
    r = []
    g = f
    while g is not None and g.lam:
        g = p.fns.get(g.inside)
        if g is not None: r.append(g)
    return r


def one(ctx, p, e, f, n, r, g, rest, capt, handles, allreach):
    reach = e.reach([g.id])
    eff = dict(e.eff[g.id])
    if any(k[0] == "U" for k in eff):
        # an indirect call: the callable can only have been made by the launching code
        for h in [f] + lexparents(p, f):
            for x in h.nodes():
                if x.k == "LambdaExpr":
                    for q in p.lambdas.get(x.lam, []):
                        if q.id not in reach and not any(m in e.reach([q.id]) for m in [g.id]):
                            reach.update(e.reach([q.id]))
                            for k, v in e.eff[q.id].items():
                                if k[0] not in ("P", "PP"): eff.setdefault(k, v)
    allreach.update(reach)
    own = set()

    def owned(v):
        d = e.vardecl.get((f.id, v))
        if d is None or d.get("static"): return "is not made by the launching code"
        if d["t"].k == "ref": return "is a reference"
        pts = e.pt(fake(e, f, v), f)
        if not pts or any(x[0] != "H" for x in pts): return "does not refer to an object made here"
        dn = declnode(f, v)
        if dn is not None and loops_of(dn) != loops_of(n): return "is shared by the launches of a loop"
        return None

    def explain(fid, root): return [f"{x[0].split('(')[0].split('::')[-1]} {ctx.where(x[1])}: {x[2][:100]}" for x in e.trace(fid, root)]

    for root in eff:
        k = root[0]
        what = f"{k}:{root[1]}"
        if k == "CP":
            why = owned(root[1])
            if why is None:
                capt.setdefault(root[1], [])
                if n not in capt[root[1]]: capt[root[1]].append(n)
                own.add(root[1])
                d = e.vardecl[(f.id, root[1])]
                handles.add(pointee(d["t"]))
            ctx.check(why is None, "task-writes", n, f"writes its own object '{root[1].split('@')[0]}'",
                      f"task writes through '{root[1].split('@')[0]}', which {why}", path=explain(g.id, root))
        elif k in ("P", "T") and r.k == "DeclRefExpr":
            i = root[1] if k == "P" else 0
            if g.cls and k == "P": i += 1
            a = rest[i] if i < len(rest) else None
            v = a.var if a is not None and a.k == "DeclRefExpr" else None
            why = owned(v) if v else "is not an object of its own"
            if why is None:
                capt.setdefault(v, [])
                if n not in capt[v]: capt[v].append(n)
                handles.add(pointee(e.vardecl[(f.id, v)]["t"]))
            ctx.check(why is None, "task-writes", n, f"writes its own argument {show(a) if a is not None else ''}",
                      f"task writes its argument {i}, which {why}", path=explain(g.id, root))
        elif k == "C":
            t = vartype(p, e, root[1])
            ctx.check(atomic(t), "task-writes", n, f"synchronised captured object {root[1].split('@')[0]}",
                      f"task writes '{root[1].split('@')[0]}', captured by reference", path=explain(g.id, root))
        elif k == "G":
            gv = p.gvars.get(root[1])
            ctx.check(gv is not None and (atomic(gv["t"]) or gv.get("tls")), "task-writes", n, f"synchronised variable {root[1]}",
                      f"task writes variable '{str(root[1]).split('@')[0]}' with static storage", path=explain(g.id, root))
        elif k == "F":
            bad = lift_field(p, e, root, g, reach)
            if bad:
                ctx.bad("task-writes", n, f"task writes what member '{root[1]}' refers to, which may be {bad}", path=explain(g.id, root))
            else: ctx.ok("task-writes", n, f"'{root[1]}' refers to storage of this task only")
        elif k == "U":
            if "indirect call" in str(root[1]): continue
            ctx.bad("task-writes", n, f"task writes unknown storage {root[1]}", path=explain(g.id, root))
        elif k == "S" and root[1].replace("const ", "") in {x["t"].s for x in p.recs.values()} or k in ("CT", "S", "T"):
            t = str(root[1])
            ctx.bad("task-writes", n, f"task writes shared object of type {t}", path=explain(g.id, root))
    if not eff: ctx.ok("task-writes", n, "writes nothing")
    # captures
    caps(ctx, p, e, f, n, r, 0)
    objfields(ctx, p, e, f, n)
    hid = 0
    for fid in reach:
        for x in p.fns[fid].nodes():
            if x.k in ("CallExpr", "CXXMemberCallExpr") and x.f and not x.own:
                short = (x.fq or "").split("::")[-1]
                if short in HIDDEN and ((x.fq or "").count("::") <= 1 or x.fq in ("std::locale::global",)):
                    hid += 1
                    ctx.bad("task-calls", x, f"task reaches {x.fq}, which uses hidden shared state")
    if not hid: ctx.ok("task-calls", n, f"{len(reach)} functions reachable")


def fake(e, f, v):
    from sa.facts import Node
    x = Node(); x.k = "DeclRefExpr"; x.d = {"var": v, "n": v.split("@")[0]}; x.c = []; x.t = e.vardecl[(f.id, v)]["t"]
    x.l = 0; x.up = None; x.i = -1; x.of = f
    return x


def declnode(f, v):
    for x in f.nodes():
        if x.k == "DeclStmt" and any(d["var"] == v for d in x.d["d"]): return x
    return None


def vartype(p, e, v):
    for (fid, name), d in e.vardecl.items():
        if name == v: return d["t"]
    for f in p.fns.values():
        for q in f.params:
            if q["var"] == v: return q["t"]
    return None


def lift_field(p, e, root, task, reach):
    """where can the pointer member come from: None when only from storage of the task, else a description"""
    field = root[1]
    cls, _, name = field.rpartition("::")
    seen = set()
    todo = []
    for fid in reach:
        f = p.fns[fid]
        if f.kind == "ctor" and f.cls == cls:
            for i in f.inits:
                if i.get("m") == name:
                    if i["e"] is not None:
                        t = e.field_type(field)
                        rs = e.obj(i["e"], f) if t is not None and t.k == "ref" else e.pt(i["e"], f)
                        todo += [(fid, r) for r in rs]
        for x in f.nodes():
            if x.k == "BinaryOperator" and x.op == "=" and x.c[0] is not None and x.c[0].k == "MemberExpr" and x.c[0].field == field:
                todo += [(fid, r) for r in e.pt(x.c[1], f)]
    if not todo: return "anything (no initialisation inside the task)"
    while todo:
        fid, r = todo.pop()
        if (fid, r) in seen: continue
        seen.add((fid, r))
        k = r[0]
        if k in ("L", "H", "CV"): continue
        if fid == task.id:
            if k == "CP": continue   # judged with the captured handle
            return f"{k}:{r[1]}"
        if k in ("P", "PP", "T", "C", "CP", "CT"):
            up = False
            for h in reach:
                hf = p.fns[h]
                for x, g in e.call_nodes(hf):
                    if g.id == fid:
                        up = True
                        for y in e.subst(r, x, hf, g): todo.append((h, y))
            if not up: return f"{k}:{r[1]} of {fid.split('(')[0]}"
            continue
        return f"{k}:{r[1]}"
    return None


def caps(ctx, p, e, f, n, r, depth):
    if r is None or r.k != "LambdaExpr" or depth > 3: return
    for c in r.d["caps"]:
        key = c.get("var") or c.get("bind")
        if key is None: continue
        name = key.split("@")[0]
        mine = (f.id, key) in e.vardecl or e.param_index(f, key) is not None or (f.id, key) in e.binds
        if c.get("ref") and mine:
            pi = e.param_index(f, key)
            d = e.vardecl.get((f.id, key))
            longlived = (pi is not None and f.params[pi]["t"].k == "ref") or (d is not None and d.get("static"))
            joined = joins_in(p, f, n)
            ctx.check(longlived and False or joined, "task-captures", n, f"'{name}' outlives the task (joined here)",
                      f"task captures '{name}' of the launching function by reference, and may outlive it")
        else:
            ctx.ok("task-captures", n, f"'{name}' captured by {'reference from an enclosing scope' if c.get('ref') else 'value'}")


def joins_in(p, f, n):
    """does the launching function itself wait for the task on every path after the launch"""
    fl = Flow.of(f)
    if fl is None: return False
    js = {fl.at(x) for x in f.nodes() if isjoin(x)} - {None}
    return bool(js) and fl.must_pass(fl.at(n), js) is None


def isjoin(x):
    if x.k != "CXXMemberCallExpr" or x.c[0] is None or x.c[0].t is None: return False
    t = x.c[0].t.deref()
    short = (x.fq or "").split("::")[-1]
    if (x.fq or "").startswith(("std::future", "std::shared_future", "std::__basic_future")) and short in ("get", "wait"): return True
    return t.n in THREADS and short == "join"


def headpos(fl, loop):
    """position that every exit through the loop's condition passes"""
    return fl.pos.get(("t", loop.i))


def everyiter(fl, loop, j):
    """does node j run in every iteration: no path from the loop's body start back to the head avoids it"""
    hp = headpos(fl, loop)
    jp = fl.at(j)
    if hp is None or jp is None: return False
    blk = fl.g.blocks[hp[0]]
    body = blk.succ[0] if blk.succ else None
    if loop.k == "DoStmt": return fl.dominates(jp, hp)
    if body is None: return False
    todo, seen = [body], set()
    while todo:
        b = todo.pop()
        if b in seen or b == jp[0]: continue
        seen.add(b)
        if b == hp[0]: return False
        todo.extend(x for x in fl.g.blocks[b].succ if x is not None)
    return True


VIEWS = ("std::basic_string_view", "std::span", "std::reference_wrapper")


def objfields(ctx, p, e, f, n):
    """reference-like members of objects made in the launching function must not refer to its frame"""
    for x in f.nodes():
        if x.k != "CallExpr" or (x.fq or "") not in ("std::make_shared", "std::make_unique"): continue
        cls = x.t.a[0] if x.t.a else None
        rec = p.recs.get(cls.s.replace("const ", "")) if cls is not None and hasattr(cls, "s") else None
        if rec is None: continue
        ctors = [g for g in p.fns.values() if g.kind == "ctor" and g.cls == rec["q"] and len(g.params) == len(x.c) - 1 and not g.copy]
        for g in ctors:
            for i in g.inits:
                nm = i.get("m")
                fd = [q for q in rec["fields"] if nm and q["n"] == nm]
                if not fd or i["e"] is None: continue
                t = fd[0]["t"]
                if t.k != "ref" and not (t.k == "ptr") and not (t.k == "rec" and t.n in VIEWS): continue
                roots = e.obj(i["e"], g) if t.k != "ptr" else e.pt(i["e"], g)
                for rt in roots:
                    if rt[0] == "L":
                        ctx.bad("task-captures", i["e"], f"member '{fd[0]['n']}' of the task object refers to a constructor local")
                    if rt[0] != "P": continue
                    a = x.c[1 + rt[1]]
                    if a is None: continue
                    rs = e.obj(a, f) if t.k != "ptr" else e.pt(a, f)
                    bad = [q for q in rs if q[0] == "L" and not joins_in(p, f, n)]
                    ctx.check(not bad, "task-captures", x, f"member '{fd[0]['n']}' refers to {show(a)}, which outlives the task",
                              f"member '{fd[0]['n']}' of the task object refers to '{show(a)}', which ends before the task does")


def joins(ctx, p, e, launchers, handles, reach):
    """every dereference of a task object outside the tasks lies behind a join"""
    callers = e.callers()
    nread = 0

    def joined(f, n, depth=0):
        """is node n of f only reached after the tasks were joined"""
        fl = Flow.of(f)
        if fl is None: return False
        at = fl.at(n)
        for j in f.nodes():
            if not isjoin(j): continue
            loop = None
            x = j
            while True:
                l = loop_of(x)
                if l is None or inside(n, l): break
                loop = l; x = l
            if loop is None:
                if fl.dominates(fl.at(j), at): return True
                continue
            # join runs in every iteration and the loop is left only at its head
            if breaks(loop): continue
            body = loop.d.get("body")
            if body is None: continue
            if not everyiter(fl, loop, j): continue
            hp = headpos(fl, loop)
            if hp is not None and fl.dominates(hp, at): return True
        # a lambda like std::for_each's: its creation must be joined; other functions: all call sites
        if depth > 4: return False
        sites = []
        for cid in callers.get(f.id, ()):
            cf = p.fns[cid]
            for x, g in e.call_nodes(cf):
                if g.id == f.id: sites.append((cf, x))
        if not sites: return False
        return all(joined(cf, x, depth + 1) for cf, x in sites)

    for f in p.fns.values():
        if f.id in reach or f.cls in handles: continue
        for n in f.nodes():
            if n.k == "CXXMemberCallExpr" and n.c[0] is not None and n.c[0].t is not None: t = n.c[0].t
            elif n.k == "MemberExpr" and n.field and n.c and n.c[0] is not None: t = n.c[0].t
            else: continue
            t = t.deref() if n.arrow else t.strip()
            if t.k != "rec" or t.n not in handles: continue
            nread += 1
            if f.id in launchers:
                fl = Flow.of(f)
                if all(not fl.can_follow(fl.at(x), fl.at(n)) for x in launchers[f.id]):
                    ctx.ok("read-after-join", n, "used before its task is launched"); continue
            ctx.check(joined(f, n), "read-after-join", n, f"{show(n)} behind a join",
                      f"{show(n)} reads a task's object without waiting for the task on every path")
    ctx.info["result_reads"] = nread
    # writes of the launching code before the join
    done = set()
    for fid in launchers:
        f = p.fns[fid]
        for h in [f] + lexparents(p, f):
            if h.id in done: continue
            done.add(h.id)
            for root, (n, text, nxt) in e.eff[h.id].items():
                if root[0] in ("P", "PP") and "stream" in (h.params[root[1]]["t"].s if root[1] < len(h.params) else ""): continue
                if root[0] == "F":
                    t = e.field_type(root[1])
                    if t is not None and "stream" in t.s: 
                        ctx.ok("launcher-writes", n, f"output stream {root[1]}"); continue
                if root[0] in ("G",) and "std::c" in str(root[1]): continue
                if h.lam and h.id in launchers and root[0] in ("C", "CP", "CT"): continue
                # what the task itself writes was judged above
                tr = e.trace(h.id, root)
                if any(x[0] in reach for x in tr): continue
                ctx.check(joined(h, n), "launcher-writes", n, f"{text} after the join",
                          f"launching code writes {root[0]}:{root[1]} ({text}) while tasks run")
