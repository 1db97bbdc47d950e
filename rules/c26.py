"""C26: output doesn't depend on addresses, hash order, time, environment or (outside of quizzes) random numbers."""
import re
from sa.exc import short
from sa.facts import show

EXPLAIN = ("Queries over every expression of the program with its types: sources of differences between runs (clock, ids, environment, locale, random "
           "devices), comparisons and default orders of pointers, iteration over containers ordered by hash or address; the call graph for who "
           "can reach random numbers.")
RULES = {
    "source": "no function whose result differs between runs (clock, process or thread id, environment, locale, rand) is used",
    "address": "objects aren't ordered by address: no relational comparison of pointers to objects, no sort or search with the default order of pointers, no printed addresses or hashes of them",
    "hash-order": "no iteration over a container ordered by hash or by address produces output or a sequence",
    "random": "random numbers can only be reached from quizzes, not from loading, statistics or conversion",
}
ASSUME = ["library functions not listed as sources are deterministic"]
NSP = "kanji_tools::"
SRC = {"time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48",
       "rand_r", "arc4random", "getrandom", "getpid", "getppid", "gettid", "pthread_self", "localtime", "gmtime", "mktime", "tmpnam", "tempnam", "mkstemp",
       "mkdtemp", "setlocale", "gethostname", "getuid", "getlogin", "__rdtsc", "timespec_get", "ftime", "times", "getrusage", "newlocale", "uselocale", "timegm", "strftime", "ctime"}
SRCQ = re.compile(r"^std::(chrono::(_V2::)?\w+_clock::now|this_thread::get_id|thread::(get_id|hardware_concurrency)|locale::global|random_shuffle|"
                  r"filesystem::(last_write_time|temp_directory_path|space)|__cxx11::|hash<.*\*)")
ENGINE = re.compile(r"\bstd::(random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|"
                    r"independent_bits_engine|shuffle_order_engine|uniform_int_distribution|uniform_real_distribution|bernoulli_distribution|"
                    r"discrete_distribution|normal_distribution)\b")
SORT = {"sort", "stable_sort", "partial_sort", "nth_element", "min_element", "max_element", "minmax_element", "is_sorted", "lower_bound", "upper_bound",
        "binary_search", "set_union", "set_intersection", "set_difference", "includes", "merge", "inplace_merge", "make_heap", "sort_heap",
        "lexicographical_compare", "next_permutation", "min", "max", "minmax", "less", "partial_sort_copy"}
PTR = r"(?:std::shared_ptr<|std::unique_ptr<|std::__shared_ptr<|(?:const )?kanji_tools::[\w:]+ ?(?:const ?)?\*)"
ELEM = re.compile(r"__normal_iterator<(?:const )?(?:std::(?:pair|tuple)<.*)?" + PTR + r"|std::_(?:Rb_tree|List|Deque)_(?:const_)?iterator<(?:const )?" + PTR)
ORD = re.compile(r"^(?:const )?std::(multi)?(set|map)<")
HASH = re.compile(r"^(?:const )?std::unordered_(multi)?(set|map)<")


def strip(t): return re.sub(r"^const |\s*&+$", "", (t.s if hasattr(t, "s") else str(t or "")).strip())


def args(s):
    """template arguments of the type written as s"""
    i = s.find("<")
    r, d, cur = [], 0, ""
    for ch in s[i + 1:]:
        if ch in "<(": d += 1
        if ch in ">)":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: r.append(cur.strip()); cur = ""
        else: cur += ch
    return r + [cur.strip()]


def isptr(s):
    s = strip(s)
    if re.match(r"std::(shared_ptr|unique_ptr|__shared_ptr)<", s) or s.endswith("*") and not re.fullmatch(r"(const )?(unsigned |signed )?(char|char8_t|wchar_t|char32_t)( const)? ?\*", s): return True
    return bool(re.match(r"std::(pair|tuple)<", s)) and any(isptr(a) for a in args(s))


def unordered(t):
    """container whose order depends on hashes or addresses"""
    s = strip(t)
    if HASH.match(s): return "a container ordered by hash"
    if ORD.match(s):
        a = args(s)
        ismap = re.match(r"std::(multi)?map<", s) is not None
        cmp_ = a[2 if ismap else 1] if len(a) > (2 if ismap else 1) else "std::less<"
        if isptr(a[0]) and re.match(r"std::(less|greater)<", cmp_): return "a container ordered by address"
    return None


def produces(p, f, loop):
    """does the loop write to a stream or append to a sequence"""
    done, todo = set(), [(f, loop.body if loop.body is not None else loop)]
    while todo:
        g, root = todo.pop()
        for n in root.walk():
            nm = (n.fq or "").rsplit("::", 1)[-1]
            if n.k == "CXXOperatorCallExpr" and n.oper == "<<": return n
            if n.k == "CXXOperatorCallExpr" and n.oper == "+=" and n.c and any(x is not None and x.t is not None and "basic_string" in x.t.s for x in n.c[:2]): return n
            if n.k == "CXXMemberCallExpr" and nm in ("push_back", "emplace_back", "append", "write", "put") and n.c[0] is not None: return n
            if n.k in ("CallExpr", "CXXMemberCallExpr"):
                for h in p.targets(n):
                    if h.body is not None and h.id not in done and len(done) < 40: done.add(h.id); todo.append((h, h.body))
    return None


def sorted_later(f, n):
    """is what n appends to sorted in this function"""
    tgt = n.c[0] if n.k == "CXXMemberCallExpr" else None
    v = tgt.var if tgt is not None and tgt.k == "DeclRefExpr" else None
    if v is None: return False
    return any(x.k == "CallExpr" and short(x.fq) in ("sort", "stable_sort") or (x.fq or "").endswith("::sort") for x in f.nodes()
               if any(y.var == v for y in x.walk()))


def sorts(f): return any(x.k == "CallExpr" and short(x.fq) in ("sort", "stable_sort") for x in f.nodes())


def check(ctx):
    p = ctx.p
    und = ctx.info["undecided"] = []
    nodes = comps = loops = 0
    users = set()
    for f in p.fns.values():
        for n in f.nodes():
            nodes += 1
            fq = n.fq or ""
            nm = fq.rsplit("::", 1)[-1]
            if n.k in ("CallExpr", "CXXMemberCallExpr", "DeclRefExpr") and not n.own and fq:
                free = fq in SRC or fq.startswith("std::") and fq[5:] in SRC or fq.startswith("::") and fq[2:] in SRC
                if free and (n.k == "CallExpr" or n.var is None) or SRCQ.match(fq):
                    ctx.bad("source", n, f"{fq} gives different results on different runs", key=f"source {f.q} {nm}")
            ts = n.t.s if n.t is not None else ""
            if ts and ENGINE.search(ts): users.add(f.id)
            # addresses
            if n.k == "BinaryOperator" and n.op in ("<", ">", "<=", ">=", "<=>"):
                comps += 1
                x = [strip(c.t) for c in n.c if c is not None and c.t is not None]
                if any(re.search(r"kanji_tools::[\w:]+(<.*>)?( const)? ?\*$", s) for s in x):
                    ctx.bad("address", n, f"{show(n)[:60]} compares addresses of objects", key=f"compare {f.q}")
            if n.k == "CXXOperatorCallExpr" and n.oper in ("<", ">", "<=", ">=", "<=>") and not n.own:
                comps += 1
                if any(c is not None and c.t is not None and isptr(c.t) for c in n.c):
                    ctx.bad("address", n, f"{show(n)[:60]} compares addresses of objects", key=f"compare {f.q}")
            if nm in ("owner_before", "owner_hash") or re.match(r"^std::hash<(std::(shared|unique)_ptr<|.*\*>)", fq):
                ctx.bad("address", n, f"{fq} depends on addresses", key=f"hash {f.q}")
            if n.k in ("CXXReinterpretCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "BuiltinBitCastExpr") and n.t is not None and n.c and n.c[-1] is not None and \
                    n.c[-1].t is not None and re.fullmatch(r"(const )?(unsigned |signed )?(long|int|long long|short|__int128)", strip(n.t)) and strip(n.c[-1].t).endswith("*"):
                ctx.bad("address", n, f"{show(n)[:60]} makes a number of an address", key=f"number {f.q}")
            if n.k == "CallExpr" and nm in SORT and fq.startswith("std::"):
                a = [c for c in n.c[1:] if c is not None]
                callable_ = any(c.k == "LambdaExpr" or c.t is not None and ("lambda" in c.t.s or "(*)" in c.t.s or "_Bind" in c.t.s or "mem_fn" in c.t.s.lower() or
                                re.match(r"^(const )?kanji_tools::", c.t.s) and c.t.k not in ("ptr", "ref") and "*" not in c.t.s or "(" in c.t.s) for c in a)
                comps += 1
                if not callable_ and (any(c.t is not None and (ELEM.search(c.t.s) or nm in ("min", "max", "minmax") and isptr(c.t)) for c in a) or
                                      ("ranges" in fq and any(c.t is not None and re.match(r"^(const )?std::(vector|deque|array|list)<(const )?" + PTR, c.t.s) for c in a))):
                    ctx.bad("address", n, f"{fq} uses the order of the objects' addresses", key=f"sort {f.q}")
            if n.k == "CXXOperatorCallExpr" and n.oper == "<<" and n.c:
                a = [c for c in n.c if c is not None][-1]
                if a.t is not None and "ostream" in ts and (isptr(a.t) or re.search(r"(kanji_tools::[\w:]+|void)( const)? ?\*$", strip(a.t))) and n.f not in p.fns and not to_cerr(n):
                    ctx.bad("address", n, f"{show(n)[:60]} prints an address", key=f"print {f.q}")
            # iteration
            rng = None
            if n.k == "CXXForRangeStmt":
                r = n.d.get("range")
                e = next((d["init"] for d in (r.d.get("d") or ()) if d.get("init") is not None), None) if r is not None and r.k == "DeclStmt" else r
                rng = e
            elif n.k == "ForStmt":
                for x in (n.d.get("init").walk() if n.d.get("init") is not None else ()):
                    if x.k == "CXXMemberCallExpr" and (x.fq or "").rsplit("::", 1)[-1] in ("begin", "cbegin") and x.c[0] is not None: rng = x.c[0]
            if rng is not None and rng.t is not None:
                loops += 1
                why = unordered(rng.t)
                if why:
                    w = produces(p, f, n)
                    if w is not None and not sorted_later(f, w):
                        ctx.bad("hash-order", n, f"the order of {show(rng)[:40]}, {why}, decides about output", key=f"order {f.q}")
                    elif any(x.k in ("BreakStmt", "ReturnStmt", "CXXThrowExpr") for x in (n.body.walk() if n.body is not None else ())):
                        und.append(f"{f.q}: looks for something in {why}")
            elif n.k == "CallExpr" and fq.startswith("std::") or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.t is not None and \
                    re.match(r"^(const )?std::(vector|list|deque|basic_string)<", ts):
                if n.k != "CallExpr": nm = "copy"
                for c in n.c[1:]:
                    if c is not None and c.k == "CXXMemberCallExpr" and (c.fq or "").rsplit("::", 1)[-1] in ("begin", "cbegin") and c.c[0] is not None and c.c[0].t is not None:
                        why = unordered(c.c[0].t)
                        if why and nm in ("copy", "transform", "for_each", "accumulate", "copy_if", "find_if", "max_element", "min_element"):
                            if nm in ("copy", "transform", "for_each", "copy_if") and not sorts(f): ctx.bad("hash-order", n, f"std::{nm} over {why} keeps its order", key=f"order {f.q}")
                            else: und.append(f"{f.q}: {nm} over {why}")
    ctx.ok("source", "libs, apps", f"{nodes} expressions in {len(p.fns)} functions")
    ctx.ok("address", "libs, apps", f"{comps} comparisons and sorts")
    ctx.ok("hash-order", "libs, apps", f"{loops} loops over containers")
    randoms(ctx, p, users)
    ctx.info.update(expressions=nodes, comparisons=comps, loops=loops, functions_using_random_numbers=len(users))


def to_cerr(n):
    """the stream written to by the chain n is the one for diagnostics"""
    while n is not None and n.k == "CXXOperatorCallExpr" and n.oper == "<<": n = next((c for c in n.c if c is not None), None)
    while n is not None and n.k == "ImplicitCastExpr" and n.c: n = n.c[0]
    return n is not None and (n.v or n.var or n.d.get("n") or "").__str__().split("@")[0].endswith(("cerr", "clog"))


def quizzy(p, f):
    """is f part of the quizzes"""
    c = f.cls
    while c:
        if re.search(r"::\w*Quiz\w*(::|$)", c): return True
        c = next((getattr(b, "n", None) or str(b) for b in p.recs.get(c, {}).get("bases") or ()), None)
    return False


def randoms(ctx, p, users):
    callers = {}
    for f in p.fns.values():
        for n in f.nodes():
            if n.f:
                for g in set([n.f] + [x.id for x in (p.targets(n) if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") else ())]):
                    callers.setdefault(g, set()).add(f.id)
            if n.k == "LambdaExpr":
                for g in p.lambdas.get(n.lam, ()): callers.setdefault(g.id, set()).add(f.id)
    for u in sorted(users):
        seen, todo = {u: None}, [u]
        hit = None
        while todo and hit is None:
            x = todo.pop()
            f = p.fns[x]
            if quizzy(p, f): continue
            if f.lam is None and (f.name == "main" or f.cls and f.q.startswith(NSP)):
                hit = x; break
            for c in callers.get(x, ()):
                if c not in seen and c in p.fns: seen[c] = x; todo.append(c)
        f = p.fns[u]
        if hit is None: ctx.ok("random", f, f"{f.q}: only from quizzes")
        else:
            path = []
            while hit is not None: path.append(p.fns[hit].q); hit = seen[hit]
            ctx.bad("random", f, f"random numbers are used by {path[0]}, that's no quiz", key=f"random {f.q}", path=path)
