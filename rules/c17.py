"""C17: options and choices lead to the list, mode and order they name."""
from sa.absint import Client, Frame, I, Interp, K, Limit, State
from sa.exc import short
from sa.facts import Node, show

EXPLAIN = ("Conditional constant propagation (abstract interpretation with everything else unknown) from QuizLauncher::start for every quiz type and every list option "
           "it can be given, or can be chosen at its prompts, through the calls to the constructions of ListQuiz and GroupQuiz: the list, the fields that are shown, the style and "
           "the kind of members passed on are compared with what the documentation says about the option. In the same way the functions that parse an option accept "
           "exactly the documented ones, and frequency lists are filled and looked up by the same rank, rank by interval.")
RULES = {"list": "an option leads to a quiz on the list that it names",
         "fields": "the field that's the same for a whole list is the one that isn't shown",
         "style": "style, number of choices and kind of members are the chosen ones",
         "label": "the description of a choice says what the choice does",
         "mode": "-r and -t (and 'r' and 't' at the prompt) select review and test, order and start as documented",
         "accept": "exactly the documented list options are accepted on the command line",
         "members": "a group quiz asks exactly for the members of the chosen kind",
         "rank": "a kanji with a frequency rank is put in the list of its rank and is looked up there"}
ASSUME = ["the quit option is '/'", "kanji are added to the lists of frequencies in the order of their rank (data files)"]

QUIT = ord("/")
TYPES = {"f": "freq", "g": "grade", "k": "kyu", "l": "JLPT", "m": "meaning", "p": "pattern"}
LISTS = {"f": "0123456789", "g": "123456s", "k": "123456789abc", "l": "12345", "m": "1234", "p": "1234"}
FIELD = {"f": "Freq", "g": "Grade", "k": "Kyu", "l": "Level"}
KYU = {"a": "K10", "b": "KJ1", "c": "KJ2"}
MEMBERS = {"1": "Jouyou", "2": "JLPT", "3": "Frequency", "4": "All"}
ORDERS = {"b": "FromBeginning", "e": "FromEnd", "r": "Random"}


def expected(q, c):
    """(enumeration, enumerator) or index"""
    if q == "f": return ("freq", int(c))
    if q == "g": return ("KanjiGrades", "S" if c == "s" else "G" + c)
    if q == "k": return ("KenteiKyus", KYU.get(c, "K" + c))
    return ("JlptLevels", "N" + c)


def text(s):
    try: return s.encode("latin-1").decode("utf-8")
    except (UnicodeError, AttributeError): return s


class Globals:
    """constant maps of choices and ranges"""
    def __init__(self, p):
        self.choices, self.ranges, self.where = {}, {}, {}
        for var, g in p.gvars.items():
            t = g["t"].strip()
            if g.get("init") is None or t.k != "rec": continue
            if t.n == "std::map":
                prs = pairs(g["init"])
                if prs: self.choices[var] = prs; self.where[var] = f"{g['file']}:{g['l']}"
            elif t.n == "std::pair":
                vs = [n.v for n in g["init"].walk() if n.k == "CharacterLiteral"]
                if len(vs) == 2: self.ranges[var] = tuple(vs)


def pairs(init):
    r = {}
    for n in init.walk():
        if n.k in ("CXXConstructExpr", "InitListExpr") and n.t is not None and n.t.strip().k == "rec" and n.t.strip().n == "std::pair":
            c = [x for x in n.walk() if x.k == "CharacterLiteral"]
            s = [x for x in n.walk() if x.k == "StringLiteral"]
            if len(c) == 1 and len(s) <= 1 and c[0].v not in r: r[c[0].v] = text(s[0].s) if s and isinstance(s[0].s, str) else "" if not s else text(bytes(s[0].s).decode("latin-1"))
    return r


class Flow17(Client):
    unwinds = False

    def __init__(self, p, gl, fixed=None):
        self.p = p; self.gl = gl
        self.sinks = []
        self.fixed = fixed or {}
        self.unknownpick = []
        self.index = []
        self.stop = False

    def inline(self, f, n):
        if f.cfg is None or f.kind in ("ctor", "dtor") or f.virt or f.q.split("::")[-1] in self.fixed: return False
        if not f.file.startswith("libs/"): return False
        return f.file.startswith("libs/quiz") or f.const or f.static or f.lam is not None or f.cls is None

    def const(self, it, s, v, a):
        x = it.rv(s, v, a.t, a)
        return x.const() if isinstance(x, I) else None

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""
        sh = short(fq)
        av = [(a, v) for a, v in zip(n.c[1:], args) if a is not None]
        if sh in self.fixed and n.own:
            v = self.fixed[sh]
            if callable(v): v = v(it, s, fr, n, recv, av)
            if v is not None: return [(s, v)]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            c = n.t.strip().n.split("::")[-1]
            if c in ("ListQuiz", "GroupQuiz"):
                self.sinks.append((c, n, s.ts, self.describe(it, s, av)))
                return [(s, ("o", "quiz"))]
            return None
        if fq.endswith("Choice::get") and n.own:
            return self.pick(it, s, n, av)
        # element of a list by enumerator
        if n.k == "CXXOperatorCallExpr" and n.oper == "[]" and n.own and av:
            t = av[0][0].t.strip()
            if t.k == "enum" and n.lv:
                k = self.const(it, s, av[0][1], av[0][0])
                return [(s, ("l", ("elt", t.n.split("::")[-1], k)))]
        if n.k == "CXXMemberCallExpr" and sh == "contains" and av and isinstance(recv, tuple) and recv and recv[0] == "l":
            g = self.global_of(it, s, recv)
            k = self.const(it, s, av[0][1], av[0][0])
            if g in self.gl.choices and k is not None: return [(s, ("b", ("c", k in self.gl.choices[g])))]
        return self.strings(it, s, fr, n, sh, recv, av)

    def global_of(self, it, s, v):
        if isinstance(v, tuple) and v and v[0] == "l" and v[1] and v[1][0] == "g": return v[1][1]
        return None

    # -- constant strings
    def chars(self, s, v):
        if isinstance(v, tuple) and v and v[0] == "l":
            x = s.env.get(v[1] + ("#text",))
            if isinstance(x, tuple) and x[0] == "text": return x[1]
            y = s.env.get(v[1])
            if isinstance(y, tuple) and y[:1] == ("lit",): v = y
        if isinstance(v, tuple) and v and v[0] == "lit": return text(v[1]) if isinstance(v[1], str) else None
        return None

    def strings(self, it, s, fr, n, sh, recv, av):
        if n.own: return None
        t = self.chars(s, recv) if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else None
        if t is not None:
            ks = [self.const(it, s, v, a) if a.t.strip().range is not None else self.chars(s, v) for a, v in av]
            if sh in ("operator[]", "at") and isinstance(ks[0], int) and 0 <= ks[0] <= len(t): return [(s, K(ord(t[ks[0]]) if ks[0] < len(t) else 0))]
            if sh in ("size", "length"): return [(s, K(len(t)))]
            if sh == "empty": return [(s, ("b", ("c", not t)))]
            if sh == "starts_with" and isinstance(ks[0], str): return [(s, ("b", ("c", t.startswith(ks[0]))))]
            if sh == "starts_with" and isinstance(ks[0], int): return [(s, ("b", ("c", t.startswith(chr(ks[0])))))]
            if sh in ("operator==", "operator!=") and isinstance(ks[0], str): return [(s, ("b", ("c", (t == ks[0]) == (sh == "operator=="))))]
            if sh in ("front", "back") and t: return [(s, K(ord(t[0 if sh == "front" else -1])))]
            if sh in ("begin", "cbegin"): return [(s, ("it17", recv[1], 0))]
            if sh in ("end", "cend"): return [(s, ("it17", recv[1], len(t)))]
            if sh == "substr" and isinstance(ks[0], int) and ks[0] <= len(t):
                e = len(t) if len(ks) < 2 or n.c[2].k == "CXXDefaultArgExpr" else ks[0] + ks[1] if isinstance(ks[1], int) else None
                if e is not None:
                    loc = ("tmp", fr.id, n.i)
                    it.kill(s, loc)
                    u = t[ks[0]:e]
                    s.env[loc + ("#text",)] = ("text", u)
                    s.env[loc + ("#size",)] = K(len(u))
                    return [(s, ("l", loc))]
        if n.k == "CallExpr" and sh in ("all_of", "any_of", "none_of") and len(av) == 3:
            a, b, f = av[0][1], av[1][1], av[2][0]
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("it17",) and a[1] == b[1]:
                u = self.chars(s, ("l", a[1]))
                names = {(x.f or x.var or x.fq or "") for x in f.walk() if x.k == "DeclRefExpr"}
                if u is not None and any("isdigit" in str(x) for x in names) and all(ord(c) < 128 for c in u):
                    d = [c.isdigit() for c in u[a[2]:b[2]]]
                    return [(s, ("b", ("c", all(d) if sh == "all_of" else any(d) if sh == "any_of" else not any(d))))]
        if n.k == "CallExpr" and sh in ("stoul", "stoi", "stol", "stoull") and av:
            u = self.chars(s, av[0][1])
            if u is not None and u.isdigit() and u.isascii(): return [(s, K(int(u)))]
            if u is not None and not u: it.throw(s, fr, n, None) if False else None
        return None

    # -- prompts
    def pick(self, it, s, n, av):
        opts, msg = {}, ""
        for a, v in av:
            t = a.t.strip()
            g = self.global_of(it, s, v)
            if t.k == "rec" and t.n == "std::map":
                if g in self.gl.choices: opts.update(self.gl.choices[g])
                else: self.unknownpick.append(n)
            elif t.k == "rec" and t.n == "std::pair":
                lo = it.load(s, v[1] + ("first",), it_char(n)) if isinstance(v, tuple) and v[0] == "l" else None
                hi = it.load(s, v[1] + ("second",), it_char(n)) if isinstance(v, tuple) and v[0] == "l" else None
                if isinstance(lo, I) and isinstance(hi, I) and lo.const() is not None and hi.const() is not None:
                    for c in range(lo.const(), hi.const() + 1): opts.setdefault(c, None)
                else: self.unknownpick.append(n)
            elif t.k == "rec" and t.n == "std::basic_string":
                lits = [x for x in a.walk() if x.k == "StringLiteral" and isinstance(x.s, str)]
                if lits: msg = text(lits[0].s)
        res = []
        for c, label in list(opts.items()) + [(QUIT, "quit")]:
            ns = s.copy()
            ns.ts = (s.ts or ()) + ((msg, chr(c), label),)
            res.append((ns, K(c)))
        return res

    def describe(self, it, s, av):
        d = {}
        for a, v in av:
            t = a.t.strip()
            if t.k == "rec" and t.n == "std::vector": d["list"] = v[1] if isinstance(v, tuple) and v[0] == "l" else None
            elif t.k == "enum": d[t.n.split("::")[-1]] = self.const(it, s, v, a)
            elif t.range is not None and t.k != "bool": d.setdefault("ints", []).append(self.const(it, s, v, a))
        return d


class T8:
    range = (-128, 127); k = "int"; n = "char"; w = 8; sg = True; const = True
    def strip(self): return self


def it_char(n): return T8()


class Interp17(Interp):
    def load(self, s, loc, t, n=None):
        # the quit option: a data member that is an optional character
        if loc and loc[-1] == "*" and loc[0] not in ("v", "tmp", "ext") and t is not None and t.strip().range == (-128, 127) and loc not in s.env: return K(QUIT)
        return super().load(s, loc, t, n)

    def opthas(self, s, loc):
        if loc[0] not in ("v", "tmp", "ext") and loc + ("#has",) not in s.env and len(loc) > 2: return ("b", ("c", True))
        return super().opthas(s, loc)


def enum(p, name):
    for q, e in p.enums.items():
        if q.split("::")[-1] == name: return e
    return None


def values(p, name):
    """enumerator by value"""
    e = enum(p, name)
    if e is None: return {}
    r = {}
    for x in (e.get("enums") or e.get("vals") or e.get("e") or []):
        if isinstance(x, dict): r[x.get("v")] = x.get("n") or x.get("name")
        else: r[x[1]] = x[0]
    return r


def field(p, rec, typ):
    """data member of a class that has the given enumeration as its type"""
    for q, r in p.recs.items():
        if q.split("::")[-1] == rec:
            for x in r["fields"]:
                t = x["t"].strip() if isinstance(x, dict) else x[1].strip()
                if t.k == "enum" and t.n.split("::")[-1] == typ: return x["n"] if isinstance(x, dict) else x[0]
    return None


def fnamed(p, q): return [f for f in p.fns.values() if f.q.split("kanji_tools::")[-1] == q and f.cfg is not None]


def optional(s, loc, c):
    s.env[loc + ("#has",)] = ("b", ("c", c is not None))
    if c is not None: s.env[loc + ("*",)] = K(ord(c))


def seeded(gl):
    s = State()
    for var, (a, b) in gl.ranges.items():
        s.env[("g", var, "first")] = K(a)
        s.env[("g", var, "second")] = K(b)
    return s


def judge(ctx, p, n, kind, picks, d, q, l, seen):
    """one construction of a quiz reached with quiz type q and list option l"""
    by = {}
    for msg, c, label in picks or ():
        by.setdefault(msg, (c, label))
    chosen = dict(q=q, l=l, style=None, count=None)
    for msg, (c, label) in by.items():
        if label is not None and c in TYPES and TYPES[c].lower() in label.lower() and chosen["q"] is None: chosen["q"] = c
        elif label is not None and label in ("kanji to reading", "reading to kanji"): chosen["style"] = label
        elif "choices" in msg: chosen["count"] = c
        elif label in ("review", "test", "from beginning", "from end", "random", "quit"): pass
        elif chosen["l"] is None: chosen["l"] = c
    q, l = chosen["q"], chosen["l"]
    if q is None or l is None: return "no choice"
    opt = f"-{q}{l}"
    if kind == "ListQuiz":
        if q not in FIELD: 
            ctx.bad("list", n, f"quiz type '{q}' (groups) starts a quiz on a list of kanji", key=f"type {q}")
            return None
        want = expected(q, l)
        got = d.get("list")
        if got is None: return "list not tracked"
        if got[0] == "elt":
            got = (got[1], values(p, got[1]).get(got[2])) if got[2] is not None else None
            if got is None: return "index not known"
        elif got[-1][:1] == ("k",) and got[-2] == "[]": got = ("freq", got[-1][1])
        else: return "list not tracked"
        if got != want: ctx.bad("list", n, f"option {opt} leads to list {got[0]} {got[1]} instead of {want[0]} {want[1]}", key=f"list {opt}")
        else: seen.add(("list", opt))
        info = enum(p, "Info")
        f = d.get("Info")
        if info is not None and f is not None:
            vals = dict((a, b) for a, b in info["vals"])
            if f != vals["All"] ^ vals[FIELD[q]]:
                hidden = [a for a, b in vals.items() if a != "All" and not f & b]
                ctx.bad("fields", n, f"a quiz for option {opt} doesn't show {hidden} instead of {FIELD[q]}", key=f"fields {q}")
            else: seen.add(("fields", opt))
        st = d.get("QuizStyle")
        if chosen["style"] and st is not None:
            name = values(p, "QuizStyle").get(st)
            if name is not None and name.lower() != chosen["style"].replace(" ", "").lower():
                ctx.bad("style", n, f"style '{chosen['style']}' starts a quiz with style {name}", key=f"style {name}")
            else: seen.add(("style", chosen["style"]))
        cc = [x for x in d.get("ints", [])]
        if chosen["count"] is not None and chosen["count"].isdigit() and cc and all(x is not None for x in cc[-1:]):
            if int(chosen["count"]) not in cc: ctx.bad("style", n, f"{chosen['count']} choices were asked for, the quiz gets {cc}", key="count")
            else: seen.add(("count", chosen["count"]))
        return None
    if q not in "mp":
        ctx.bad("list", n, f"quiz type '{q}' (a list of kanji) starts a quiz on groups", key=f"type {q}")
        return None
    m = d.get("MemberType")
    if m is None: return "kind not tracked"
    name = values(p, "MemberType").get(m)
    if l not in MEMBERS or name != MEMBERS[l]:
        ctx.bad("style", n, f"option {opt} starts a group quiz with members '{name}' instead of '{MEMBERS.get(l)}'", key=f"members {opt}")
    else: seen.add(("members", opt))
    g = d.get("list")
    if g is not None:
        w = str(g[-1]).lower()
        if ("pattern" in w and q == "m") or ("meaning" in w and q == "p"):
            ctx.bad("list", n, f"quiz type '{q}' ({TYPES[q]}) starts a quiz on {g[-1]}", key=f"groups {q}")
        else: seen.add(("groups", opt))
    return None


def quizzes(ctx, p, gl, und):
    f = max(fnamed(p, "QuizLauncher::start"), key=lambda x: len(x.params), default=None)
    if f is None: und.append("QuizLauncher::start not found"); return
    seen, runs, sinks = set(), 0, 0
    todo = [(None, None)] + [(q, l) for q in TYPES for l in [None] + list(LISTS[q])]
    for q, l in todo:
        cl = Flow17(p, gl)
        it = Interp17(p, cl, maxdepth=8, widen=1 << 20, maxstates=60000, maxtime=40)
        s = seeded(gl)
        opts = [x for x in f.params if x["t"].strip().k == "rec" and x["t"].strip().n == "std::optional"]
        if len(opts) != 2: und.append("parameters of QuizLauncher::start"); return
        optional(s, ("v", "0", opts[0]["var"]), q)
        optional(s, ("v", "0", opts[1]["var"]), l)
        # the prompts for mode and order are followed on their own
        for e, want in (("ProgramMode", "Quiz"), ("QuestionOrder", "Random")):
            for v, x in values(p, e).items():
                if x == want: s.env[("this0", field(p, "QuizLauncher", e))] = K(v)
        try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit as e: und.append(f"start {q}{l}: {str(e)[:50]}"); outs = []
        runs += 1
        for c, n, ts, d in cl.sinks:
            sinks += 1
            r = judge(ctx, p, n, c, ts, d, q, l, seen)
            if r and f"-{q}{l}: {r}" not in und: und.append(f"-{q}{l}: {r}")
        for o in outs:
            if o.thrown is not None and o.node is not None and q is not None and l is not None and not cl.sinks:
                ctx.bad("list", o.node, f"option -{q}{l} ends with an exception instead of a quiz", key=f"throws -{q}{l}")
        if q is not None and l is not None and not cl.sinks and not any(o.thrown is not None for o in outs) and outs:
            ctx.bad("list", f, f"option -{q}{l} doesn't lead to any quiz", key=f"none -{q}{l}")
    for q in TYPES:
        for l in LISTS[q]:
            if ("list", f"-{q}{l}") in seen or ("groups", f"-{q}{l}") in seen: ctx.ok("list", f, f"-{q}{l}: right list")
            if ("fields", f"-{q}{l}") in seen: ctx.ok("fields", f, f"-{q}{l}: right fields")
    for k in sorted(x for x in seen if x[0] in ("style", "count", "members")): ctx.ok("style", f, f"{k[0]} {k[1]}")
    ctx.info["options_followed"] = runs
    ctx.info["quiz_constructions_reached"] = sinks


def labels(ctx, gl):
    """the descriptions say what the choices do"""
    fams = [({"r": "review", "t": "test"}, "mode"), ({"b": "from beginning", "e": "from end", "r": "random"}, "order"), (TYPES, "type"),
            ({"a": "10", "b": "準１級", "c": "準２級"}, "kyu"), ({str(i): f"N{i}" for i in range(1, 6)}, "level"),
            ({"k": "kanji to reading", "r": "reading to kanji"}, "style"), ({"1": "Jōyō", "2": "1+JLPT", "3": "2+Freq.", "4": "all"}, "members"),
            ({"s": "Secondary School"}, "grade"), ({"0": "top 250 Kanji"}, "frequency")]
    for var, prs in sorted(gl.choices.items()):
        if "QuizLauncher" not in gl.where[var]: continue
        got = {chr(c): t for c, t in prs.items()}
        for want, what in fams:
            if {v.lower() for v in want.values()} & {v.lower() for v in got.values()}:
                inv = {v.lower(): k for k, v in want.items()}
                for c, t in got.items():
                    if t.lower() not in inv: continue
                    ctx.check(inv[t.lower()] == c, "label", gl.where[var], f"'{c}' is described as '{t}'",
                              f"choice '{c}' is described as '{t}', which is what '{inv[t.lower()]}' does", f"label {what} {c}")
                break


def parse(ctx, p, gl, und):
    fs = fnamed(p, "QuizLauncher::processArg")
    if not fs: und.append("QuizLauncher::processArg not found"); return
    f = fs[0]
    ps = f.params
    strs = [x for x in ps if x["t"].deref().strip().k == "rec" and x["t"].deref().strip().n == "std::basic_string"]
    opts = [x for x in ps if x["t"].deref().strip().k == "rec" and x["t"].deref().strip().n == "std::optional"]
    if len(strs) != 1 or len(opts) != 1: und.append("parameters of processArg"); return
    pm, qo = values(p, "ProgramMode"), values(p, "QuestionOrder")
    def run(arg):
        cl = Flow17(p, gl)
        it = Interp17(p, cl, maxdepth=8, widen=1 << 20, maxstates=20000, maxtime=20)
        s = seeded(gl)
        a = ("ext", "arg")
        s.alias[("0", strs[0]["var"])] = a
        s.env[a + ("#text",)] = ("text", arg)
        s.env[a + ("#size",)] = K(len(arg))
        s.alias[("0", opts[0]["var"])] = ("ext", "type")
        s.env[("ext", "type", "#has")] = ("b", ("c", False))
        for fl, e in ((field(p, "QuizLauncher", "ProgramMode"), "ProgramMode"), (field(p, "QuizLauncher", "QuestionOrder"), "QuestionOrder")):
            na = [v for v, n in values(p, e).items() if n == "NotAssigned"]
            if na: s.env[("this0", fl)] = K(na[0])
        for x in ps:
            if x["t"].k == "ref" and x is not strs[0] and x is not opts[0]: s.alias[("0", x["var"])] = ("ext", "n"); s.env[("ext", "n")] = K(0)
        return it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,))), it
    total = 0
    for q in TYPES:
        good, bad, unk = [], [], []
        for arg in [f"-{q}"] + [f"-{q}{chr(c)}" for c in range(33, 127)] + [f"-{q}{LISTS[q][0]}x", f"-{q}{LISTS[q][0]}{LISTS[q][0]}"]:
            try: outs, it = run(arg)
            except Limit: unk.append(arg); continue
            total += 1
            norm = [o for o in outs if o.thrown is None]
            thr = [o for o in outs if o.thrown is not None]
            valid = len(arg) == 2 or len(arg) == 3 and arg[2] in LISTS[q]
            if valid and not norm: ctx.bad("accept", f, f"option {arg} isn't accepted", key=f"rejects {arg}")
            elif not valid and norm and not thr: ctx.bad("accept", f, f"option {arg} is accepted, it isn't one of the lists -{q}[{LISTS[q]}]", key=f"accepts {arg}")
            elif norm and thr: unk.append(arg)
            elif norm:
                res = set()
                for o in norm:
                    v = o.val
                    h = o.state.truth(it.tocond(o.state, it.opthas(o.state, v[1]))) if isinstance(v, tuple) and v and v[0] == "l" else None
                    if h is None: res.add("?"); continue
                    x = it.load(o.state, v[1] + ("*",), T8()) if h else None
                    res.add(chr(x.const()) if h and isinstance(x, I) and x.const() is not None else "?" if h else None)
                    ty = o.state.env.get(("ext", "type", "*"))
                    if isinstance(ty, I) and ty.const() is not None and chr(ty.const()) != q:
                        ctx.bad("accept", f, f"option {arg} sets quiz type '{chr(ty.const())}'", key=f"type of {arg}")
                want = arg[2] if len(arg) == 3 else None
                if "?" in res: unk.append(arg)
                elif res != {want}: ctx.bad("accept", f, f"option {arg} selects list {sorted(map(str, res))} instead of '{want}'", key=f"value of {arg}")
                else: good.append(arg)
            else: bad.append(arg)
        if not unk: ctx.ok("accept", f, f"-{q}: {len(good)} forms accepted, {len(bad)} rejected")
        else: und.append(f"processArg: {len(unk)} forms of -{q}")
    for mode, name in (("r", "Review"), ("t", "Quiz")):
        for suf, order, val in (("", "NotAssigned", 0), ("0", "Random", 0), ("7", "FromBeginning", 7), ("40", "FromBeginning", 40), ("+12", "FromBeginning", 12),
                                ("-5", "FromEnd", 5), ("65535", "FromBeginning", 65535), ("65536", None, None), ("x", None, None), ("4x", None, None), ("-y", None, None)):
            arg = f"-{mode}{suf}"
            try: outs, it = run(arg)
            except Limit: und.append(arg); continue
            total += 1
            norm = [o for o in outs if o.thrown is None]
            if order is None:
                if norm and len(norm) == len(outs): ctx.bad("mode", f, f"option {arg} is accepted", key=f"accepts {arg}")
                elif norm: und.append(arg)
                else: ctx.ok("mode", f, f"{arg} rejected")
                continue
            if not norm: ctx.bad("mode", f, f"option {arg} isn't accepted", key=f"rejects {arg}"); continue
            if len(norm) != len(outs): und.append(arg); continue
            ok = True
            for o in norm:
                for fl, tab, want in ((field(p, "QuizLauncher", "ProgramMode"), pm, name), (field(p, "QuizLauncher", "QuestionOrder"), qo, order)):
                    v = o.state.env.get(("this0", fl))
                    if not isinstance(v, I) or v.const() is None: und.append(f"{arg} {fl}"); ok = False
                    elif tab.get(v.const()) != want:
                        ok = False
                        ctx.bad("mode", f, f"option {arg} sets {tab.get(v.const())} instead of {want}", key=f"{arg} {fl}")
                v = o.state.env.get(("ext", "n"))
                if not isinstance(v, I) or v.const() is None: und.append(f"{arg} start"); ok = False
                elif v.const() != val:
                    ok = False
                    ctx.bad("mode", f, f"option {arg} starts at {v.const()} instead of {val}", key=f"{arg} start")
            if ok: ctx.ok("mode", f, f"{arg}: {name}, {order}, {val}")
    ctx.info["option_strings_parsed"] = total


def prompts(ctx, p, gl, und):
    """mode and order chosen at the prompts"""
    f = max(fnamed(p, "QuizLauncher::start"), key=lambda x: len(x.params), default=None)
    if f is None: return
    pm, qo = values(p, "ProgramMode"), values(p, "QuestionOrder")
    seen = set()
    class C(Flow17):
        def call(self, it, s, fr, n, recv, args):
            if (n.fq or "").endswith("QuizLauncher::chooseQuizType") or (n.k == "CXXConstructExpr" and n.t.strip().n.split("::")[-1] in ("ListQuiz", "GroupQuiz")):
                self.ends.append((s, n))
            return super().call(it, s, fr, n, recv, args)
    cl = C(p, gl)
    cl.ends = []
    it = Interp17(p, cl, maxdepth=8, widen=1 << 20, maxstates=60000, maxtime=40)
    s = seeded(gl)
    for fl, e in ((field(p, "QuizLauncher", "ProgramMode"), "ProgramMode"), (field(p, "QuizLauncher", "QuestionOrder"), "QuestionOrder")):
        na = [v for v, n in values(p, e).items() if n == "NotAssigned"]
        if na: s.env[("this0", fl)] = K(na[0])
    opts = [x for x in f.params if x["t"].strip().k == "rec" and x["t"].strip().n == "std::optional"]
    if len(opts) != 2: return
    optional(s, ("v", "0", opts[0]["var"]), "m")
    optional(s, ("v", "0", opts[1]["var"]), "1")
    try: it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
    except Limit as e: und.append(f"prompts: {str(e)[:50]}"); return
    for c, n, ts, d in cl.sinks: pass
    for st, n in cl.ends:
        for msg, c, label in st.ts or ():
            if label in ("review", "test"): fl, tab, want = field(p, "QuizLauncher", "ProgramMode"), pm, "Review" if label == "review" else "Quiz"
            elif label in ("from beginning", "from end", "random"): fl, tab, want = field(p, "QuizLauncher", "QuestionOrder"), qo, ORDERS[label[5] if label != "random" else "r"]
            else: continue
            v = st.env.get(("this0", fl))
            if not isinstance(v, I) or v.const() is None: und.append(f"prompt {label}"); continue
            if tab.get(v.const()) != want: ctx.bad("mode", n, f"'{label}' chosen at the prompt sets {tab.get(v.const())} instead of {want}", key=f"prompt {label}")
            else: seen.add((label, want))
    for label, want in sorted(seen): ctx.ok("mode", f, f"'{label}' at the prompt: {want}")


def members(ctx, p, gl, und):
    fs = fnamed(p, "GroupQuiz::includeMember")
    if not fs: und.append("GroupQuiz::includeMember not found"); return
    f = fs[0]
    kinds = values(p, "MemberType")
    done = 0
    for m, name in kinds.items():
        for bits in range(16):
            reading, jouyou, level, freq = (bool(bits >> i & 1) for i in range(4))
            def is_(it, s, fr, n, recv, av):
                k = cl.const(it, s, av[0][1], av[0][0]) if av else None
                w = values(p, "KanjiTypes").get(k)
                return ("b", ("c", jouyou)) if w == "Jouyou" else None
            cl = Flow17(p, gl, {"hasReading": ("b", ("c", reading)), "is": is_, "hasLevel": ("b", ("c", level)), "hasFrequency": ("b", ("c", freq)),
                                "frequency": K(1 if freq else 0)})
            it = Interp17(p, cl, maxdepth=4, widen=100, maxstates=2000, maxtime=10)
            s = seeded(gl)
            name_ = field(p, "GroupQuiz", "MemberType")
            s.env[("this0", name_)] = K(m)
            try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
            except Limit: und.append("includeMember"); return
            want = reading and (jouyou or name != "Jouyou" and (level or name != "JLPT" and (freq or name == "All")))
            res = set()
            for o in outs:
                if o.thrown is None: res.add(o.state.truth(it.tocond(o.state, o.val)))
            if None in res or not res: und.append(f"includeMember {name} {bits}"); continue
            done += 1
            if res != {want}:
                ctx.bad("members", f, f"with members '{name}' a kanji (reading {reading}, jōyō {jouyou}, level {level}, frequency {freq}) is {'not ' if want else ''}included",
                        key=f"members {name} {bits}")
    if done: ctx.ok("members", f, f"{done} combinations of kind and kanji")


def ranks(ctx, p, gl, und):
    mx = 2501
    for name in ("KanjiData::addToFrequencies", "KanjiData::findByFrequency"):
        fs = fnamed(p, name)
        if not fs: und.append(f"{name} not found"); continue
        f = fs[0]
        okb = 0
        for b in range(10):
            lo, hi = 250 * b + 1, 250 * (b + 1) + (1 if b == 9 else 0)
            for l, h in ((lo, min(hi, 250 * (b + 1))),) + (((2501, 2501),) if b == 9 else ()):
                hits = []
                class C(Flow17):
                    def access(self, it, s, fr, n, base, idx): hits.append((n, s.copy(), base, idx))
                def rank(it, s, fr, n, recv, av):
                    s.rng["rank"] = (l, h)
                    return I(l, h, "rank", 0)
                cl = C(p, gl, {"frequency": rank})
                it = Interp17(p, cl, maxdepth=4, widen=100, maxstates=4000, maxtime=10)
                s = seeded(gl)
                if name.endswith("findByFrequency"):
                    s.rng["rank"] = (l, h)
                    s.env[("v", "0", f.params[0]["var"])] = I(l, h, "rank", 0)
                try: it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
                except Limit: und.append(f"{name} {b}"); continue
                outer = [(n, st, i) for n, st, base, i in hits if base[1].strip().n == "std::array"]
                inner = [(n, st, i) for n, st, base, i in hits if base[1].strip().n == "std::vector"]
                good = bool(outer)
                for n, st, i in outer:
                    a, z = st.bounds(i) if isinstance(i, I) else (None, None)
                    if a is None or a != z:
                        und.append(f"{name}: ranks {l} to {h} aren't in one list"); good = False
                        if a is not None and (z < b or a > b): ctx.bad("rank", n, f"ranks {l} to {h} lead to list {a}", key=f"{name} {l}")
                        elif a is not None and z - a < 100: ctx.bad("rank", n, f"ranks {l} to {h} lead to lists {a} to {z} instead of {b}", key=f"{name} {l}")
                    elif a != b:
                        good = False
                        ctx.bad("rank", n, f"ranks {l} to {h} lead to list {a} instead of {b}", key=f"{name} {l}")
                for n, st, i in inner:
                    if not isinstance(i, I): continue
                    if i.sym == "rank" and i.off == -1 - 250 * b or st.bounds(i) == (l - 1 - 250 * b, h - 1 - 250 * b) and l == h: continue
                    if i.sym == "rank" or i.const() is not None:
                        good = False
                        ctx.bad("rank", n, f"rank r from {l} to {h} is looked up at position r{i.off:+d} of its list instead of r{-1 - 250 * b:+d}", key=f"{name} pos {l}")
                    else: und.append(f"{name}: position for ranks {l} to {h}"); good = False
                if good: okb += 1
                elif not outer: und.append(f"{name}: no list accessed for ranks {l} to {h}")
        if okb: ctx.ok("rank", f, f"{okb} intervals of ranks")


def check(ctx):
    p = ctx.p
    gl = Globals(p)
    und = []
    for part in (quizzes, parse, prompts, members, ranks):
        n = len(und)
        part(ctx, p, gl, und)
    labels(ctx, gl)
    ctx.info["undecided"] = und[:60]
    ctx.info["tables_of_choices"] = len(gl.choices)
