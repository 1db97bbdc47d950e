"""C20: an answer means what's shown next to it and is scored once."""
from sa.absint import Client, Frame, I, Interp, K, Limit, State, idxkey
from sa.exc import short
from sa.facts import Node
from rules.c17 import QUIT, T8, fnamed

EXPLAIN = ("Abstract interpretation of the functions that show the choices of a question, read an answer and score it. For a group question the code of each entry (every "
           "position a group can have) is derived as a constant and decoding it has to lead to the same position; the codes, and the options offered together with them, "
           "have to differ. For a list question the answer is symbolic: on each path the relation between it and the position of the correct choice is known when it's counted "
           "as correct or as a mistake.")
RULES = {"codes": "the codes of the entries of a group are different printable characters, and different from the options",
         "decode": "the answer that's given with the code of an entry is compared with the reading of that entry",
         "shown": "the choices of a list question are numbered by their positions from one",
         "score": "an answer is counted as correct exactly if it's the correct choice, all others as mistakes; options aren't counted",
         "once": "an answer is counted at most once",
         "differ": "no other choice has the reading of the correct one or of another choice",
         "correct": "the choice that's returned as the correct one is the question, and isn't overwritten",
         "taken": "an answer that's been given isn't offered again, one that's been replaced is",
         "prev": "going back isn't offered at the first question",
         "options": "the options of a quiz are different characters"}
ASSUME = ["a group has at most Group::MaxGroupSize members (its constructor throws otherwise)", "the quit option is '/'"]


def vec(t, el=None):
    t = t.strip() if t is not None else None
    if t is not None and t.k == "ref": t = t.deref().strip()
    return t is not None and t.k == "rec" and t.n in ("std::vector", "std::array", "std::deque") and (el is None or t.a and hasattr(t.a[0], "k") and el(t.a[0].strip()))


def chart(t): return t.range == (-128, 127)


class Quiz20(Client):
    """calls of small own functions are followed; calls through which a score is counted are events"""
    def __init__(self, p):
        self.p = p
        self.acc = []         # (vector, index, state)
        self.keys = []        # (key of an assignment in a map of choices, state)
        self.prints = []
        self.answer = None
        self.elem = None
        self.loopstop = None

    def inline(self, f, n):
        if f.cfg is None or f.kind in ("ctor", "dtor") or f.virt or not f.file.startswith("libs/"): return False
        if f.lam is not None: return True
        if f.file.startswith("libs/quiz"): return not any(x in f.q for x in ("QuizLauncher::print", "::start")) and len(f.cfg.blocks) < 40
        return f.cls is None and len(f.cfg.blocks) <= 3 and "kt_utils" in f.file

    def event(self, s, e):
        s.ts = (s.ts or ()) + (e,)

    def step(self, it, s, fr, n):
        if n.k == "UnaryOperator" and n.d.get("op", n.oper) in ("++", "++pre", "pre++") or n.k == "UnaryOperator" and "++" in str(n.d.get("op", "")):
            t = n.c[0]
            if t.k == "MemberExpr" and t.m and "orrect" in t.m and "count" not in t.m.lower(): self.event(s, "correct")

    def access(self, it, s, fr, n, base, idx):
        self.acc.append((base[0], idx, s.copy(), base[1], n))

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""
        sh = short(fq)
        av = [(a, v) for a, v in zip(n.c[1:], args) if a is not None]
        if not n.own and n.k == "CXXMemberCallExpr" and sh in ("push_back", "emplace_back") and n.c[0].k == "MemberExpr" and n.c[0].m and "istake" in n.c[0].m:
            self.event(s, "mistake")
            return None
        if n.own and sh == "toChar" and av:
            v = it.rv(s, av[0][1], av[0][0].t, av[0][0])
            if isinstance(v, I):
                lo, hi = s.bounds(v)
                if 0 <= lo and hi <= 127: return [(s, v)]
        if fq.endswith("Choice::get") and n.own: return self.get(it, s, fr, n, av)
        if n.k == "CXXOperatorCallExpr" and n.oper == "[]" and not n.own and n.c[0] is not None and n.c[0].t.strip().k == "rec" and n.c[0].t.strip().n == "std::map" and av and chart(av[0][0].t.strip()):
            self.keys.append((it.rv(s, av[0][1], av[0][0].t, av[0][0]), s.copy(), n))
        if n.k == "CXXOperatorCallExpr" and n.oper == "<<" and av and av[-1][0].t.strip().range is not None and av[-1][0].t.strip().k != "bool":
            self.prints.append((it.rv(s, av[-1][1], av[-1][0].t, av[-1][0]), s.copy(), n))
        if n.k == "CXXOperatorCallExpr" and n.oper == "*" and not n.own and self.elem is not None and n.t is not None and chart(n.t.strip()):
            return [(s, self.elem)]
        return self.more(it, s, fr, n, recv, av, sh)

    def get(self, it, s, fr, n, av): return None
    def more(self, it, s, fr, n, recv, av, sh): return None


def option_chars(p):
    res = {}
    for f in p.fns.values():
        if not f.file.startswith("libs/quiz") or f.body is None: continue
        for n in f.nodes():
            if n.k in ("DeclRefExpr", "MemberExpr") and n.v is not None and n.t is not None and n.t.strip().range == (-128, 127) and n.var and n.var.split("@")[0].endswith("Option"):
                res[n.var.split("@")[0].split("::")[-1]] = (n.v, n)
    return res


def maxgroup(p):
    for f in p.fns.values():
        if f.body is None or not f.file.startswith("libs/quiz"): continue
        for n in f.nodes():
            if n.k in ("DeclRefExpr", "MemberExpr") and n.v is not None and n.var and "MaxGroupSize" in n.var: return n.v
    return None


def codes(ctx, p, und):
    opts = option_chars(p)
    size = maxgroup(p)
    if size is None: und.append("size of groups not known"); size = 52
    fs, cs = fnamed(p, "GroupQuiz::showGroup"), fnamed(p, "GroupQuiz::checkAnswers")
    if not fs or not cs: und.append("showGroup or checkAnswers not found"); return
    f, g = fs[0], cs[0]
    lists = [x for x in f.params if vec(x["t"])]
    pairs = {}

    class Stop(Exception): pass

    class C(Quiz20):
        def inline(self, h, n): return super().inline(h, n) and h.lam is None and ("kt_utils" in h.file or "isQuizMode" in h.q)
        def access(self, it, s, fr, n, base, idx):
            if idx.const() is not None and vec(base[1]) and not vec(base[1], chart): s.memo["idx"] = idx.const(); s.ts = (idx.const(),) + tuple(s.ts or ())[1:]
        def more(self, it, s, fr, n, recv, av, sh):
            if n.own and sh == "isQuizMode": return [(s, ("b", ("c", True)))]
            return None
        def call(self, it, s, fr, n, recv, args):
            k = len(self.keys)
            r = super().call(it, s, fr, n, recv, args)
            if len(self.keys) > k:
                v, st, n = self.keys.pop()
                i = (st.ts or (None,))[0]
                c = v.const() if isinstance(v, I) else None
                if i is not None and i >= size: raise Stop
                if i is not None: pairs.setdefault(i, set()).add(c)
                else: und.append("showGroup: position not known")
            return r
    cl = C(p)
    it = Interp(p, cl, maxdepth=5, widen=400, maxstates=60000, maxtime=60)
    s = State()
    # the first display of a question is the one that offers the choices
    for x in f.params:
        if x["t"].strip().k == "bool": s.env[("v", "0", x["var"])] = ("b", ("c", False))
    try: it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
    except Stop: pass
    except Limit as e: und.append(f"showGroup: {str(e)[:60]}")
    if any(None in v or len(v) != 1 for v in pairs.values()) or sorted(pairs) != list(range(len(pairs))) or not pairs:
        und.append(f"showGroup: codes known for {len(pairs)} positions only"); 
        pairs = {k: v for k, v in pairs.items() if len(v) == 1 and None not in v}
    if not pairs: return
    enc = {i: next(iter(v)) for i, v in pairs.items()}
    used = {}
    for i, c in sorted(enc.items()):
        at = f
        clash = [k for k, (v, _) in opts.items() if v == c]
        if c in used: ctx.bad("codes", at, f"entries {used[c] + 1} and {i + 1} of a group have the same code '{chr(c)}'", key=f"code {i}")
        elif not 33 <= c <= 126: ctx.bad("codes", at, f"the code {c} of entry {i + 1} of a group isn't printable", key=f"code {i}")
        elif clash: ctx.bad("codes", at, f"the code '{chr(c)}' of entry {i + 1} of a group is also the option {clash[0]}", key=f"code {i}")
        else: ctx.ok("codes", at, f"entry {i + 1}: '{chr(c)}'")
        used.setdefault(c, i)
    ctx.info["codes"] = "".join(chr(c) for _, c in sorted(enc.items()) if 32 < c < 127)
    # decoding
    dec = [x for x in g.params if vec(x["t"])]
    for i, c in sorted(enc.items()):
        cl = Quiz20(p)
        cl.elem = K(c)
        it = Interp20(p, cl, maxdepth=3, widen=3, maxstates=3000, maxtime=10)
        try: it.run(State(), Frame(g, "0", 0, ("this0",), stack=(g.id,)))
        except Limit as e: und.append(f"checkAnswers {i}: {str(e)[:50]}"); continue
        got = {}
        for base, idx, st, t, n in cl.acc:
            if vec(t, chart) or not base: continue
            got.setdefault(base, []).append((idx, n))
        fixed = {b: {x.const() for x, _ in l} for b, l in got.items()}
        # one of the lists is looked up by the position in the question (which varies), the other by the answer
        cand = [(b, v) for b, v in fixed.items() if b[-1:] and any(x["var"] in b for x in dec)]
        rd = [(b, v) for b, v in cand if any(x["var"] in b and "reading" in x["n"].lower() for x in dec)]
        if not rd and len(cand) == 2: rd = cand[1:]
        if not rd or None in rd[0][1] and len(rd[0][1]) == 1: und.append(f"checkAnswers: answer '{chr(c)}' not followed"); continue
        v = {x for x in rd[0][1] if x is not None}
        n = got[rd[0][0]][0][1]
        ctx.check(v == {i}, "decode", n, f"'{chr(c)}' is entry {i + 1}", f"answer '{chr(c)}', the code of entry {i + 1}, is compared with entry {sorted(x + 1 for x in v)}", f"decode {i}")


class Interp20(Interp):
    def load(self, s, loc, t, n=None):
        return super().load(s, loc, t, n)


def options(ctx, p):
    opts = option_chars(p)
    opts.setdefault("QuitOption", (QUIT, None))
    by = {}
    for k, (v, n) in sorted(opts.items()):
        if v in by: ctx.bad("options", n or opts[by[v]][1], f"the options {k} and {by[v]} are both '{chr(v)}'", key=f"option {k}")
        else: ctx.ok("options", n or "libs/quiz/include/kt_quiz/QuizLauncher.h:18", f"{k}: '{chr(v)}'")
        if chr(v).isalnum(): ctx.bad("options", n, f"the option {k} '{chr(v)}' can be an answer", key=f"alnum {k}")
        by[v] = k


def scoring(ctx, p, und):
    """ListQuiz: the relation between the answer and the correct choice when it's counted"""
    opts = {v: k for k, (v, n) in option_chars(p).items()}
    fs = fnamed(p, "ListQuiz::getAnswer")
    if not fs: und.append("ListQuiz::getAnswer not found"); return
    f = fs[0]
    corr = [x for x in f.params if x["t"].strip().range is not None and x["t"].strip().k != "bool" and x["t"].k != "ref"]
    if len(corr) != 1: und.append("parameters of ListQuiz::getAnswer"); return
    class C(Quiz20):
        def get(self, it, s, fr, n, av):
            rng = any(a.t.strip().k == "rec" and a.t.strip().n == "std::pair" for a, v in av)
            res = []
            for v in list(opts) + ([QUIT] if QUIT not in opts else []):
                if opts.get(v) in ("RefreshOption", "EditOption"): continue
                ns = s.copy()
                ns.ts = (s.ts or ()) + (("pick", v),)
                res.append((ns, K(v)))
            for v in range(ord("1"), ord("9") + 1) if rng else ():
                ns = s.copy()
                ns.ts = (s.ts or ()) + (("pick", v),)
                res.append((ns, K(v)))
            return res
        def more(self, it, s, fr, n, recv, av, sh):
            if n.own and sh == "isQuizMode": return [(s, ("b", ("c", self.quiz)))]
            if n.own and sh == "isQuit":
                v = it.rv(s, av[0][1], av[0][0].t, av[0][0])
                return [(s, ("b", ("cmp", "==", v, K(QUIT))))] if isinstance(v, I) else None
            return None
    for quiz, corrects in ((True, range(9)), (False, (0,))):
        n = 0
        for k in corrects:
            cl = C(p)
            cl.quiz = quiz
            it = Interp(p, cl, maxdepth=6, widen=20, maxstates=6000, maxtime=20)
            s = State()
            s.env[("v", "0", corr[0]["var"])] = K(k)
            try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
            except Limit as e: und.append(f"ListQuiz::getAnswer: {str(e)[:60]}"); continue
            by = {}
            for o in outs:
                if o.thrown is not None: continue
                ts = o.state.ts or ()
                picks = [x[1] for x in ts if isinstance(x, tuple) and x[0] == "pick"]
                if picks: by.setdefault(picks[-1], set()).add(tuple(x for x in ts if isinstance(x, str)))
            for pk, evs in sorted(by.items()):
                n += 1
                many = [e for e in evs if len(e) > 1]
                if many: ctx.bad("once", f, f"an answer is counted {len(many[0])} times ({', '.join(many[0])})", key=f"once {pk}"); continue
                if not quiz: continue
                want = (("correct",) if pk == ord("1") + k else ("mistake",)) if ord("1") <= pk <= ord("9") else ()
                if evs == {want}: ctx.ok("score", f, f"answer '{chr(pk)}' with correct choice {k + 1}: {want[0] if want else 'not counted'}")
                elif want not in evs:
                    e = next(iter(evs))
                    ctx.bad("score", f, f"answer '{chr(pk)}' is {'counted as ' + e[0] if e else 'not counted'} when {k + 1} is the correct choice", key=f"score {want} {e}")
                else: und.append(f"score of '{chr(pk)}' depends on something else")
        if not n: und.append("ListQuiz::getAnswer: no answer followed")


def groupscore(ctx, p, und):
    """GroupQuiz: one result for each group"""
    cs = fnamed(p, "GroupQuiz::checkAnswers")
    if not cs: return
    g = cs[0]
    N = 2
    class C(Quiz20):
        ranges = True
        def inline(self, h, n): return super().inline(h, n) and not (h.const and h.ret.deref().strip().n == "std::basic_ostream")
        """two answers are given; whether readings and meanings are the same is decided at each comparison"""
        def more(self, it, s, fr, n, recv, av, sh):
            if not n.own and sh == "size" and n.c[0] is not None and chars(n.c[0].t): return [(s, K(N))]
            if n.k == "CXXOperatorCallExpr" and n.oper in ("!=", "==") and not n.own and n.c[1] is not None:
                t = n.c[1].t.deref().strip()
                if t.k == "rec" and "iterator" in t.n:
                    i = sum(1 for x in (s.ts or ()) if x == ("next",))
                    more = i < N
                    if more: self.event(s, ("next",))
                    return [(s, ("b", ("c", more == (n.oper == "!="))))]
                if t.k == "rec" and t.n == "std::basic_string":
                    what = {short(x.fq) for a, _ in av for x in a.walk() if x.k == "CXXMemberCallExpr" and x.own}
                    if len(what) != 1: return None
                    res = []
                    for same in (True, False):
                        ns = s.copy()
                        self.event(ns, (next(iter(what)), same))
                        res.append((ns, ("b", ("c", same == (n.oper == "==")))))
                    return res
            if n.own and sh == "showMeanings":
                if getattr(self, "meanings", None) is not None: return [(s, ("b", ("c", self.meanings)))]
            return None
    def chars(t):
        t = t.deref().strip() if t is not None else None
        return t is not None and t.k == "rec" and t.n == "std::vector" and t.a and hasattr(t.a[0], "k") and chart(t.a[0].strip())
    for meanings in (True, False):
        cl = C(p)
        cl.meanings = meanings
        cl.elem = K(ord("a"))
        it = Interp(p, cl, maxdepth=5, widen=80, maxstates=20000, maxtime=30)
        try: outs = it.run(State(), Frame(g, "0", 0, ("this0",), stack=(g.id,)))
        except Limit as e: und.append(f"checkAnswers: {str(e)[:60]}"); return
        n = 0
        by = {}
        for o in outs:
            if o.thrown is not None: continue
            ts = o.state.ts or ()
            ev = [x for x in ts if isinstance(x, str)]
            n += 1
            if len(ev) != 1: ctx.bad("once", g, f"the answers for a group are counted {len(ev)} times", key=f"group {len(ev)}"); continue
            cmps, steps = [x for x in ts if isinstance(x, tuple) and len(x) == 2], [x for x in ts if x == ("next",)]
            if len(steps) != N or not cmps: und.append("checkAnswers: answers not followed"); continue
            wrong = any(not same for w, same in cmps)
            by.setdefault((wrong, tuple(cmps)), set()).add(ev[0])
            names = {w for w, _ in cmps}
            if not wrong and ("meaning" in names) != meanings:
                ctx.bad("score", g, f"meanings are {'' if 'meaning' in names else 'not '}compared though they're {'shown' if meanings else 'not shown'}", key=f"meanings {meanings}")
        for wrong in sorted({w for w, _ in by}):
            want = "mistake" if wrong else "correct"
            what = "an answer that differs" if wrong else "only answers that match"
            evs = [e for (w, _), e in by.items() if w == wrong]
            if all(e == {want} for e in evs): ctx.ok("score", g, f"group with {what}: {want}")
            elif any(want not in e for e in evs): ctx.bad("score", g, f"a group with {what} is counted as {sorted(next(e for e in evs if want not in e))[0]}", key=f"group score {wrong}")
            else: und.append(f"checkAnswers: result for a group with {what}")
        if n: ctx.ok("once", g, f"{n} paths, one result each")


def prev(ctx, p, und):
    opts = option_chars(p)
    if "PrevOption" not in opts: und.append("PrevOption not found"); return
    pv = opts["PrevOption"][0]
    for f in p.fns.values():
        if f.cfg is None or not f.file.startswith("libs/quiz/src") or f.lam is not None: continue
        if not any(n.k in ("DeclRefExpr", "MemberExpr") and n.v == pv and n.t is not None and n.t.strip().range == (-128, 127) and n.var for n in f.nodes()): continue
        cl = Quiz20(p)
        cl.inline = lambda h, n: False
        it = Interp(p, cl, maxdepth=2, widen=4, maxstates=3000, maxtime=20)
        try: it.run(State(), Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit: und.append(f"{f.q}: option to go back"); continue
        for v, st, n in cl.keys:
            if not isinstance(v, I) or v.const() != pv: continue
            fld = [x for x in st.env if x[:1] == ("this0",) and "urrentQuestion" in str(x[-1])]
            cur = st.env.get(("this0", "_currentQuestion")) or (st.env.get(fld[0]) if fld else None)
            if not isinstance(cur, I):
                ctx.bad("prev", n, "going back is offered without looking at the current question", key=f"prev {f.q}")
                continue
            lo, hi = st.bounds(cur)
            z = st.truth(("cmp", "!=", cur, K(0)))
            ctx.check(lo >= 1 or z is True, "prev", n, f"{f.q}: not at the first question", "going back is offered at the first question", f"prev {f.q}")


def shown(ctx, p, und):
    """ListQuiz: the number printed before a choice is its position plus one"""
    fs = fnamed(p, "ListQuiz::printChoices")
    if not fs: und.append("ListQuiz::printChoices not found"); return
    f = fs[0]
    got = {}
    class C(Quiz20):
        def inline(self, h, n): return super().inline(h, n) and "kt_utils" in h.file
        def more(self, it, s, fr, n, recv, av, sh):
            if n.own and sh == "isQuizMode": return [(s, ("b", ("c", True)))]
            if n.k == "CXXOperatorCallExpr" and n.oper == "<<" and self.prints:
                v, st, m = self.prints[-1]
                if m is n and isinstance(v, I) and v.const() is not None: s.ts = (v.const(),)
            return None
        def access(self, it, s, fr, n, base, idx):
            # the vector of answers: a data member
            if base[0] and base[0][0] == "this0" and idx.const() is not None and s.ts: got.setdefault(idx.const(), set()).add(s.ts[0])
            elif base[0] and base[0][0] == "this0" and idx.const() is not None: s.memo["first"] = idx.const()
    cl = C(p)
    it = Interp(p, cl, maxdepth=4, widen=14, maxstates=8000, maxtime=20)
    try: it.run(State(), Frame(f, "0", 0, ("this0",), stack=(f.id,)))
    except Limit as e: und.append(f"printChoices: {str(e)[:60]}")
    if not got: und.append("printChoices: numbers not followed"); return
    for i in sorted(got):
        if i > 8: continue
        ctx.check(got[i] == {i + 1}, "shown", f, f"choice {i} is shown as {i + 1}", f"the choice at position {i} is shown with number {sorted(got[i])}", f"shown {i}")


def differ(ctx, p, und):
    """ListQuiz: a choice is added only after its reading could be added to the set of readings"""
    fs = fnamed(p, "ListQuiz::populateAnswers")
    if not fs: und.append("ListQuiz::populateAnswers not found"); return
    f = fs[0]
    kan = [x for x in f.params if x["t"].deref().strip().k == "rec" and "Kanji" in x["t"].deref().strip().n]
    res, odd = [], []
    class C(Quiz20):
        def inline(self, h, n): return h.lam is not None or super().inline(h, n) and len(h.cfg.blocks) <= 3 and "Quiz::" in h.q
        def head(self, it, s, fr, bid):
            # what was drawn before isn't looked at any more
            s.ts = tuple(sorted({x for x in (s.ts or ()) if x[0] == "own" or x[0] == "have" and kan and kan[0]["var"] in x[1]}, key=repr))
        def more(self, it, s, fr, n, recv, av, sh):
            if n.own and sh == "reading" and isinstance(recv, tuple) and recv: 
                loc = recv[1] if recv[0] in ("l", "p") else ("?",)
                return [(s, ("l", ("rd",) + tuple(loc)))]
            if not n.own and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                t = n.t.strip()
                if t.k == "rec" and t.n in ("std::set", "std::unordered_set") and n.c[1:]:
                    for x in n.walk():
                        if x.k == "CXXMemberCallExpr" and short(x.fq or "") == "reading":
                            v = it.val(s, fr, x)
                            if isinstance(v, tuple) and v[0] == "l": self.event(s, ("have", v[1]))
                if t.k == "rec" and t.n == "std::basic_string" and av and isinstance(av[0][1], tuple) and av[0][1][:1] == ("l",) and av[0][1][1][:1] == ("rd",): return [(s, av[0][1])]
            if not n.own and sh in ("insert", "emplace") and n.c[0] is not None and "set" in n.c[0].t.strip().n and av:
                v = av[0][1]
                if isinstance(v, tuple) and v[0] == "l" and v[1][:1] == ("rd",):
                    out = []
                    for okk in (True, False):
                        if ("absent", v[1]) in (s.ts or ()) and not okk or ("have", v[1]) in (s.ts or ()) and okk: continue
                        ns = s.copy()
                        loc = ("tmp", fr.id, n.i)
                        it.kill(ns, loc)
                        ns.env[loc + ("second",)] = ("b", ("c", okk))
                        ns.ts = tuple(x for x in ns.ts or () if x != ("absent", v[1])) + (("have", v[1]),)
                        if okk: self.event(ns, ("new", v[1]))
                        out.append((ns, ("l", loc)))
                    return out
            if not n.own and sh in ("contains", "count") and n.c[0] is not None and "set" in n.c[0].t.strip().n and av:
                v = av[0][1]
                if isinstance(v, tuple) and v[0] == "l" and v[1][:1] == ("rd",):
                    out = []
                    for there in (True, False):
                        ns = s.copy()
                        self.event(ns, ("have" if there else "absent", v[1]))
                        out.append((ns, ("b", ("c", there)) if sh == "contains" else K(int(there))))
                    return out
            if not n.own and n.c[0] is not None and n.c[0].t is not None and "set" in str(n.c[0].t.strip().n) and sh not in ("end", "begin", "size"): odd.append(sh)
            if n.k == "CXXOperatorCallExpr" and n.oper == "()" and n.t is not None and n.t.strip().range is not None:
                return [(s, it.fresh(s, n, n.t, "draw"))]
            return None
        def step(self, it, s, fr, n):
            if n.k == "BinaryOperator" and n.d.get("op", n.oper) == "=" and n.c[0].k == "CXXOperatorCallExpr" and n.c[0].oper == "[]" and n.c[0].c[0].k == "MemberExpr" and vec(n.c[0].c[0].t):
                v = it.rval(s, fr, n.c[1])
                i = it.rval(s, fr, n.c[0].c[1])
                res.append((n, v, i, s.copy()))
                if isinstance(v, I) and v.sym is not None and "urrentQuestion" in str(v.sym): s.ts = tuple(x for x in s.ts or () if x[0] != "own") + (("own", idxkey(i)),)
    cl = C(p)
    it = Interp(p, cl, maxdepth=4, widen=12, maxstates=20000, maxtime=40)
    try: outs = it.run(State(), Frame(f, "0", 0, ("this0",), stack=(f.id,)))
    except Limit as e: und.append(f"populateAnswers: {str(e)[:60]}"); return
    if len(res) < 2: und.append("populateAnswers: assignments of choices not followed"); return
    if odd: und.append(f"populateAnswers: {odd[0]} of a set"); return
    seen = {}
    for n, v, i, st in res:
        key = idxkey(v) if isinstance(v, I) else None
        if isinstance(v, I) and v.sym is not None and "draw" in str(v.sym):
            new = any(x[0] == "new" and key in x[1] for x in st.ts or ())
            own = any(x[0] == "have" and kan and kan[0]["var"] in x[1] for x in st.ts or ())
            seen.setdefault(n, []).append((new, own))
    if not seen: und.append("populateAnswers: drawn choices not followed"); return
    for n, l in seen.items():
        ctx.check(all(a for a, _ in l), "differ", n, f"{f.q}: only a reading that isn't there yet", "a choice is added although another one may have the same reading", "differ others")
        ctx.check(all(b for _, b in l), "differ", n, f"{f.q}: the reading of the correct choice counts", "a choice may have the same reading as the correct one", "differ own")
    good = 0
    for o in outs:
        if o.thrown is not None or not isinstance(o.val, I): continue
        own = [x[1] for x in o.state.ts or () if x[0] == "own"]
        if not own or own[-1] == "any" or idxkey(o.val) == "any": continue
        if own[-1] == idxkey(o.val): good += 1
        elif own[-1][0] == idxkey(o.val)[0] and not any(str(x[1]).startswith("w") for x in (own[-1], idxkey(o.val))): ctx.bad("correct", f, "the choice that's returned as the correct one isn't the question", key="correct")
    if good: ctx.ok("correct", f, f"{f.q}: the choice that's returned is the question")
    else: und.append("populateAnswers: correct choice")
    rets = {n.c[0].var for n in f.nodes() if n.k == "ReturnStmt" and n.c and n.c[0] is not None and n.c[0].k in ("DeclRefExpr",) and n.c[0].t is not None and n.c[0].t.const}
    for n, v, i, st in res:
        if len(rets) == 1 and isinstance(v, I) and v.sym is not None and "urrentQuestion" in str(v.sym):
            w = st.env.get(("v", "0", next(iter(rets))))
            if isinstance(w, I) and isinstance(i, I) and "any" not in (idxkey(w), idxkey(i)):
                ctx.check(idxkey(w) == idxkey(i), "correct", n, "the question is put where the correct choice is", "the question isn't put at the position that's returned as the correct one", "correct place")
        own = [x[1] for x in st.ts or () if x[0] == "own"]
        if own and isinstance(i, I) and own[-1] == idxkey(i): ctx.bad("correct", n, "the correct choice is overwritten by another one", key="overwritten")


def taken(ctx, p, und):
    """GroupQuiz: an answer that's been given isn't offered for the next entry"""
    fs, es = fnamed(p, "GroupQuiz::getAnswer"), fnamed(p, "GroupQuiz::editAnswer")
    opts = {v: k for k, (v, n) in option_chars(p).items()}
    CODE, OLD = ord("q"), ord("c")
    def chars(t):
        t = t.deref().strip() if t is not None else None
        return t is not None and t.k == "rec" and t.n == "std::vector" and t.a and hasattr(t.a[0], "k") and chart(t.a[0].strip())
    for f, edit in [(x, False) for x in fs[:1]] + [(x, True) for x in es[:1]]:
        ch = [x["var"] for x in f.params if x["t"].k == "ref" and "map" in str(x["t"].deref().strip().n)]
        if len(ch) != 1: und.append(f"{f.q}: parameters"); continue
        class C(Quiz20):
            def inline(self, h, n): return False
            def more(self, it, s, fr, n, recv, av, sh):
                if not n.own and n.c[0] is not None and n.c[0].t is not None:
                    c0 = n.c[0]
                    if chars(n.c[0].t) and sh in ("push_back", "emplace_back", "pop_back", "insert", "emplace"):
                        v = it.rv(s, av[0][1], av[0][0].t, av[0][0]) if av else None
                        self.event(s, ("given" if sh.endswith("back") and sh != "pop_back" else "?", v.const() if isinstance(v, I) else None))
                    if "map" in str(n.c[0].t.deref().strip().n) and c0.k == "DeclRefExpr" and c0.var == ch[0]:
                        v = it.rv(s, av[0][1], av[0][0].t, av[0][0]) if av and av[0][0].t.deref().strip().range is not None else None
                        if sh in ("erase", "operator[]", "emplace", "try_emplace", "insert", "insert_or_assign", "extract", "clear"):
                            self.event(s, ("out" if sh in ("erase", "extract") else "?" if sh in ("clear", "insert") else "in", v.const() if isinstance(v, I) else None))
                if chars(n.c[0].t if n.c[0] is not None else None) and (n.k == "CXXOperatorCallExpr" and n.oper == "[]" or sh == "at") and av:
                    loc = ("given", idxkey(it.rv(s, av[0][1], av[0][0].t, av[0][0])))
                    if loc not in s.env: s.env[loc] = K(OLD + sum(1 for x in s.env if x[0] == "given" and len(x) == 2))
                    return [(s, ("l", loc))]
                if n.own and sh == "isQuit": return [(s, ("b", ("c", False)))]
                if n.own and (sh == "get") and n.t is not None and chart(n.t.strip()): return [(s, K(CODE))]
                return None
        cl = C(p)
        it = Interp(p, cl, maxdepth=3, widen=6, maxstates=4000, maxtime=20)
        s = State()
        try: outs = it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit as e: und.append(f"{f.q}: {str(e)[:50]}"); continue
        n = 0
        for o in outs:
            if o.thrown is not None: continue
            ts = [x for x in o.state.ts or () if isinstance(x, tuple)]
            given = [v for w, v in ts if w == "given"]
            olds = []
            if edit:
                cur = sorted([x for x in o.state.env if x[0] == "given" and len(x) == 2], key=repr)
                vals = {x: o.state.env[x].const() if isinstance(o.state.env[x], I) else None for x in cur}
                if not cur or any(x[1] == "any" or v is None for x, v in vals.items()): und.append(f"{f.q}: answer isn't followed"); continue
                new = [x for x, v in vals.items() if v == CODE]
                if len(new) != 1: continue
                given = [CODE]
                # the codes that the others had are still there
                rest = {v for v in vals.values() if v != CODE}
                olds = [v for v in range(OLD, OLD + len(cur)) if v not in rest]
            if not given: continue
            if any(w == "?" or v is None for w, v in ts): und.append(f"{f.q}: choices aren't followed"); continue
            offered = {}    # codes that are in the choices at the end
            for w, v in ts:
                if w in ("in", "out"): offered[v] = w == "in"
            n += 1
            if offered.get(given[-1], True): ctx.bad("taken", f, "an answer that's been given is still offered for the next entry", key=f"taken {f.q}")
            if edit and not all(offered.get(v) for v in olds): ctx.bad("taken", f, "an answer that's been replaced isn't offered any more", key="replaced")
            if edit and any(offered.get(v) for v in rest): ctx.bad("taken", f, "the answer for another entry is offered again", key="other")
        if n: ctx.ok("taken", f, f"{f.q}: {n} paths")
        else: und.append(f"{f.q}: no answer followed")


def check(ctx):
    p = ctx.p
    und = []
    codes(ctx, p, und)
    options(ctx, p)
    scoring(ctx, p, und)
    groupscore(ctx, p, und)
    prev(ctx, p, und)
    shown(ctx, p, und)
    differ(ctx, p, und)
    taken(ctx, p, und)
    ctx.info["undecided"] = und[:60]
