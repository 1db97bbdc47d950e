"""C28: the options of kanaConvert do what its usage text says."""
import time

from sa.absint import Frame, I, K, Limit, State
from sa.exc import short
from rules.c17 import Flow17, Interp17, T8, enum, field, fnamed, pairs, text, values

EXPLAIN = ("Conditional constant propagation (abstract interpretation, everything else unknown) through the functions of KanaConvert that parse an option, a value of -f or an "
           "interactive command, for every one-letter option and for longer forms and from several states: the target, source, flags and booleans that result, and which of "
           "them are unchanged, are compared with the usage text. The names that are shown for flags and offered as choices are compared with the enumerators, and the call "
           "that converts is followed for both states of the source.")
RULES = {"option": "-h -k -r set the target, -H -K -R the source, and nothing else",
         "reject": "an option that isn't documented is rejected and changes nothing",
         "flag": "-f h, k, n or r adds its flag and keeps the others",
         "mode": "-i, -m, -n and -p each set their own mode, only one of them can be given",
         "command": "c clears the flags, f adds the chosen flag, other lines are converted",
         "label": "flags are shown and offered by their names",
         "source": "what is converted is converted from the chosen source, or from any if there is none"}
ASSUME = ["a code path not decided by constants is left to the list of undecided cases in the evidence"]

TARGET = {"h": "Hiragana", "k": "Katakana", "r": "Romaji"}
SOURCE = {x.upper(): t for x, t in TARGET.items()}
FLAG = {"h": "Hepburn", "k": "Kunrei", "n": "NoProlongMark", "r": "RemoveSpaces"}
QUIET = ("usage", "printOptions", "printKanaChart", "convert", "start", "getInput")


class Flow28(Flow17):
    def __init__(self, p, gl, pick=None):
        super().__init__(p, gl)
        self.pickc = pick

    def inline(self, f, n):
        if f.cfg is None or f.kind in ("ctor", "dtor") or f.virt: return False
        if not f.file.startswith("libs/"): return False
        if f.cls and f.cls.split("::")[-1] == "KanaConvert" and short(f.q) in QUIET: return False
        if f.lam is not None: return True
        own = f.cls and f.cls.split("::")[-1] in ("KanaConvert", "Converter")
        return bool(own or f.static or f.cls is None)

    def call(self, it, s, fr, n, recv, args):
        fq = n.fq or ""
        if fq.endswith("Choice::get") and n.own:
            self.asked = True
            return [(s, K(ord(self.pickc)))] if self.pickc else None
        av = [(a, v) for a, v in zip(n.c[1:], args) if a is not None]
        if short(fq) in ("operator+=", "append") and not n.own and isinstance(recv, tuple) and recv[:1] == ("l",):
            old = self.chars(s, recv)
            add = self.chars(s, av[0][1]) if av else None
            if add is None and av and isinstance(av[0][1], I) and av[0][1].const() is not None: add = chr(av[0][1].const())
            if old is None and isinstance(it.size(s, recv[1], n.t), I) and it.size(s, recv[1], n.t).const() == 0: old = ""
            s.env[recv[1] + ("#text",)] = ("text", old + add) if old is not None and add is not None else ("?",)
            if old is not None and add is not None: s.env[recv[1] + ("#size",)] = K(len(old + add))
            return [(s, recv)]
        if n.own: return None
        if n.k in ("CXXOperatorCallExpr", "CXXRewrittenBinaryOperator") and n.oper in ("==", "!=") and not n.own:
            k = [self.chars(s, v) for v in ([recv] if recv is not None else []) + list(args) if v is not None]
            if len(k) == 2 and None not in k: return [(s, ("b", ("c", (k[0] == k[1]) == (n.oper == "=="))))]
        return self.strings(it, s, fr, n, short(fq), recv, av)


def judge(ctx, und, what, outs, one):
    """one(o): None (as wanted), '?' or (rule, node, text, key); wrong only if no outcome can be as wanted"""
    r = [one(o) for o in outs]
    if not r or any(x == "?" for x in r): und.append(what); return 0
    if None in r:
        if any(r): und.append(what)
        return not any(r)
    rule, n, t, key = r[0]
    ctx.bad(rule, n, t, key=key)
    return 0


END = [0]


class NoGl:
    choices, ranges, where = {}, {}, {}


def bits(p):
    e = enum(p, "ConvertFlags")
    return {a: b for a, b in e["vals"]} if e else {}


class Model:
    """where the state of a KanaConvert is kept"""
    def __init__(self, p):
        self.p = p
        self.ok = False
        rec = {q.split("::")[-1]: r for q, r in p.recs.items() if q.split("::")[-1] in ("KanaConvert", "Converter")}
        if len(rec) < 2: return
        flds = [(x["n"], x["t"].strip()) for x in rec["KanaConvert"]["fields"]]
        conv = [n for n, t in flds if t.k == "rec" and t.n.split("::")[-1] == "Converter"]
        src = [n for n, t in flds if t.k == "rec" and t.n == "std::optional"]
        self.bools = [n for n, t in flds if t.k == "bool"]
        tgt, fl = field(p, "Converter", "CharType"), field(p, "Converter", "ConvertFlags")
        if len(conv) != 1 or len(src) != 1 or not tgt or not fl: return
        self.target, self.flags, self.source = ("this0", conv[0], tgt), ("this0", conv[0], fl), ("this0", src[0])
        self.inter = next((b for b in self.bools if "nteractive" in b), None)
        self.nonl = next((b for b in self.bools if "ew" in b and "ine" in b), None)
        self.types, self.ok = {b: a for a, b in values(p, "CharType").items()}, True

    def start(self, target="Hiragana", flags=0, source=None, on=None):
        s = State()
        s.env[self.target] = K(self.types[target])
        s.env[self.flags] = K(flags)
        s.env[self.source + ("#has",)] = ("b", ("c", source is not None))
        if source is not None: s.env[self.source + ("*",)] = K(self.types[source])
        for b in self.bools: s.env[("this0", b)] = ("b", ("c", b == on))
        return s

    def read(self, it, s):
        """(target, flags, source, booleans), a part is '?' when it isn't known"""
        n = {v: k for k, v in self.types.items()}
        t, f = s.env.get(self.target), s.env.get(self.flags)
        h = s.truth(it.tocond(s, it.opthas(s, self.source)))
        v = s.env.get(self.source + ("*",))
        k = lambda x: x.const() if isinstance(x, I) and x.const() is not None else "?"
        return (n.get(k(t), "?"), k(f), None if h is False else "?" if h is None else n.get(k(v), "?"),
                tuple(sorted((b, self.boolean(it, s, ("this0", b))) for b in self.bools)))

    def boolean(self, it, s, loc):
        v = s.env.get(loc)
        if v is None: return "?"
        try: r = s.truth(it.tocond(s, v))
        except Exception: return "?"
        return "?" if r is None else r


def run(p, f, s, bind, pick=None):
    cl = Flow28(p, NoGl, pick)
    cl.asked = False
    it = Interp17(p, cl, maxdepth=8, widen=1 << 20, maxstates=20000, maxtime=4)
    if time.time() > END[0]: raise Limit("time")
    bind(s)
    return it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,))), it, cl


def strarg(f, arg):
    x = [x for x in f.params if x["t"].deref().strip().k == "rec" and x["t"].deref().strip().n == "std::basic_string"]
    if len(x) != 1: return None
    def bind(s):
        a = ("ext", "arg")
        s.alias[("0", x[0]["var"])] = a
        s.env[a + ("#text",)] = ("text", arg)
        s.env[a + ("#size",)] = K(len(arg))
    return bind


def truth(it, o):
    try: return o.state.truth(it.tocond(o.state, o.val))
    except Exception: return None


FORMS = [f"-{chr(c)}" for c in range(33, 127)] + ["-hk", "-Hx", "-rr", "--h", "-hH"]


def expect(m, arg, before):
    """what a target or source option makes of a state"""
    t, f, s, b = before
    if len(arg) == 2 and arg[1] in TARGET: return (TARGET[arg[1]], f, s, b)
    if len(arg) == 2 and arg[1] in SOURCE: return (t, f, SOURCE[arg[1]], b)
    return None


def describe(d): return f"target {d[0]}, flags {d[1]}, source {d[2] or 'any'}"


def options(ctx, p, m, und):
    f = next(iter(fnamed(p, "KanaConvert::charTypeArgs")), None)
    if f is None: und.append("charTypeArgs not found"); return 0
    done = 0
    for target, flags, source in (("Hiragana", 0, None), ("Romaji", 5, "Katakana"), ("Katakana", 10, "Hiragana")):
        good = 0
        for arg in FORMS:
            b = strarg(f, arg)
            if b is None: und.append("parameters of charTypeArgs"); return done
            try: outs, it, cl = run(p, f, m.start(target, flags, source), b)
            except Limit: und.append(arg); continue
            before = m.read(it, m.start(target, flags, source))
            want = expect(m, arg, before)
            done += 1
            def one(o):
                if o.thrown is not None: return ("option", f, f"option {arg} fails", f"fails {arg}") if want is not None else None
                r, after = truth(it, o), m.read(it, o.state)
                if r is None or "?" in after: return "?"
                if want is None and r: return "reject", f, f"option {arg} is accepted, the usage text doesn't list it", f"accepts {arg}"
                if want is None and after != before: return "reject", f, f"option {arg} isn't accepted, but leads to {describe(after)}", f"changes {arg}"
                if want is not None and not r: return "option", f, f"option {arg} isn't accepted", f"rejects {arg}"
                if want is not None and after != want: return "option", f, f"option {arg} leads from {describe(before)} to {describe(after)} instead of {describe(want)}", f"leads {arg}"
            good += judge(ctx, und, f"charTypeArgs {arg}", outs, one)
        if good: ctx.ok("option", f, f"{good} forms from target {target}, flags {flags}, source {source}")
    return done


def flags(ctx, p, m, und):
    f = next(iter(fnamed(p, "KanaConvert::flagArgs")), None)
    fb = bits(p)
    if f is None or any(x not in fb for x in FLAG.values()): und.append("flagArgs not found"); return 0
    if len(f.params) != 1 or f.params[0]["t"].strip().range is None: und.append("parameters of flagArgs"); return 0
    done = 0
    for old in (0, fb["Hepburn"], fb["Kunrei"] | fb["RemoveSpaces"], fb["NoProlongMark"], 15):
        good = 0
        for c in [chr(x) for x in range(33, 127)]:
            def b(s): s.env[("v", "0", f.params[0]["var"])] = K(ord(c))
            try: outs, it, cl = run(p, f, m.start("Katakana", old, "Romaji"), b)
            except Limit: und.append(f"flagArgs {c}"); continue
            before = m.read(it, m.start("Katakana", old, "Romaji"))
            done += 1
            def one(o):
                if o.thrown is not None: return "?"
                r, after = truth(it, o), m.read(it, o.state)
                if r is None or "?" in after: return "?"
                want = (before[0], old | fb[FLAG[c]]) + before[2:] if c in FLAG else before
                if r != (c in FLAG): return "flag", f, f"-f {c} is {'accepted, the usage text does not list it' if r else 'rejected'}", f"-f {c}"
                if after != want: return "flag", f, f"-f {c} leads from {describe(before)} to {describe(after)} instead of {describe(want)}", f"-f {c} leads"
            good += judge(ctx, und, f"flagArgs {c}", outs, one)
        if good: ctx.ok("flag", f, f"{good} values from flags {old}")
    return done


def modes(ctx, p, m, und):
    f = next(iter(fnamed(p, "KanaConvert::processArg")), None)
    if f is None or m.inter is None or m.nonl is None: und.append("processArg not found"); return 0
    refs = [x for x in f.params if x["t"].k == "ref" and x["t"].deref().strip().k == "bool"]
    kana = [x for x in refs if "kana" in x["n"].lower()] if refs and "n" in refs[0] else []
    if len(refs) != 2: und.append("parameters of processArg"); return 0
    place = {"-i": ("this0", m.inter), "-n": ("this0", m.nonl)}
    loc = [("ext", "r0"), ("ext", "r1")]
    md = markdown(p, f, refs)
    if md is not None: place["-m"], place["-p"] = loc[md], loc[1 - md]
    every = [("this0", m.inter), ("this0", m.nonl)] + loc
    done = 0
    def go(arg, on):
        sb = strarg(f, arg)
        def b(s):
            sb(s)
            for x, l in zip(refs, loc): s.alias[("0", x["var"])] = l; s.env[l] = ("b", ("c", False))
            if on is not None: s.env[on] = ("b", ("c", True))
        if sb is None: raise Limit("parameters of processArg")
        return run(p, f, m.start("Katakana", 3, None), b)
    for arg in ("-i", "-m", "-n", "-p"):
        for on in [None] + every:
            try: outs, it, cl = go(arg, on)
            except Limit: und.append(f"processArg {arg}"); continue
            done += 1
            norm = [o for o in outs if o.thrown is None]
            thr = [o for o in outs if o.thrown is not None]
            if on is not None:
                if norm and not thr: ctx.bad("mode", f, f"{arg} is accepted after another of -i, -m, -n and -p", key=f"{arg} twice")
                elif norm: und.append(f"processArg {arg} twice")
                continue
            if thr and not norm:
                if elsewhere(p, f, arg): und.append(f"processArg {arg}")
                else: ctx.bad("mode", f, f"option {arg} isn't accepted", key=f"rejects {arg}")
                continue
            def one(o):
                r = truth(it, o)
                got = [l for l in every if m.boolean(it, o.state, l) is True]
                if any(m.boolean(it, o.state, l) == "?" for l in every) or r is None: return "?"
                if not r: return "mode", f, f"option {arg} is taken for a string to convert", f"string {arg}"
                if arg in place and got != [place[arg]] or arg not in place and (len(got) != 1 or got[0] in place.values()):
                    return "mode", f, f"option {arg} sets {names(got)}", f"sets {arg}"
            names = lambda g: ", ".join(f"parameter {int(x[-1][1:]) + 1}" if x[0] == "ext" else x[-1] for x in g) or "nothing"
            if judge(ctx, und, f"processArg {arg}", norm, one) and not thr: ctx.ok("mode", f, f"{arg} sets its own mode")
    for arg in [x for x in FORMS if x not in ("-i", "-m", "-n", "-p", "--", "-f", "-?")] + ["a", "ka", "あ", "i", "h", "k-"]:
        try: outs, it, cl = go(arg, None)
        except Limit: und.append(f"processArg {arg}"); continue
        done += 1
        before = m.read(it, m.start("Katakana", 3, None))
        want = expect(m, arg, before)
        norm, thr = [o for o in outs if o.thrown is None], [o for o in outs if o.thrown is not None]
        if arg[0] == "-" and want is None:
            if norm and not thr: ctx.bad("reject", f, f"argument {arg} is accepted, the usage text doesn't list it", key=f"argument {arg}")
            elif norm: und.append(f"processArg {arg}")
            continue
        if thr and not norm: ctx.bad("option", f, f"argument {arg} is rejected", key=f"argument {arg}"); continue
        def one(o):
            r, after = truth(it, o), m.read(it, o.state)
            if r is None or "?" in after: return "?"
            if r != (arg[0] == "-"): return "option", f, f"argument {arg} is {'taken for an option' if r else 'converted instead of being an option'}", f"kind {arg}"
            if after != (want or before): return "option", f, f"argument {arg} leads to {describe(after)}", f"argument leads {arg}"
        judge(ctx, und, f"processArg {arg}", norm, one)
    return done


def elsewhere(p, f, arg):
    """is an option handled in a function that isn't called from here?"""
    reach, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.id in reach: continue
        reach.add(g.id)
        todo += [h for n in g.nodes() for h in (p.targets(n) or ()) if hasattr(h, "id")]
    for g in p.fns.values():
        if g.id in reach or g.cls is None or g.cls.split("::")[-1] != "KanaConvert" or short(g.q) in QUIET: continue
        if any(n.k == "StringLiteral" and n.s == arg for n in g.nodes()): return True
    return not any(n.k == "StringLiteral" and n.s == arg for i in reach for n in p.fns[i].nodes())


def markdown(p, f, refs):
    """which of the two references is the one that the chart is printed in markdown for"""
    for g in fnamed(p, "KanaConvert::KanaConvert"):
        chart, two = None, None
        for n in g.nodes():
            if n.fq and short(n.fq) == "printKanaChart":
                v = [x.var for x in n.walk() if x.k == "DeclRefExpr" and x.t is not None and x.t.strip().k == "bool"]
                if len(set(v)) == 1: chart = v[0]
            if n.f == f.id or n.fq and short(n.fq) == "processArg":
                v = [x.var for a in n.c[1:] if a is not None for x in a.walk() if x.k == "DeclRefExpr" and x.t is not None and x.t.strip().k == "bool"]
                if len(v) == 2 and v[0] != v[1]: two = v
        if chart is not None and two and chart in two: return two.index(chart)
    return None


def commands(ctx, p, m, und):
    f = next(iter(fnamed(p, "KanaConvert::processLine")), None)
    fb = bits(p)
    if f is None or not fb: und.append("processLine not found"); return 0
    done = 0
    old = fb.get("Hepburn", 1) | fb.get("RemoveSpaces", 8)
    cases = [("c", None), ("h", None), ("k", None), ("r", None), ("n", None), ("ka", None), ("あ", None), ("cc", None), ("", None)] + [(x, None) for x in FORMS] + \
            [("f", c) for c in FLAG]
    for line, pick in cases:
        b = strarg(f, line)
        if b is None: und.append("parameters of processLine"); return done
        try: outs, it, cl = run(p, f, m.start("Katakana", old, "Romaji"), b, pick)
        except Limit: und.append(f"processLine {line}"); continue
        done += 1
        before = m.read(it, m.start("Katakana", old, "Romaji"))
        want = expect(m, line, before) if line[:1] == "-" else before
        conv = line not in ("", "c", "f", "h") and line[:1] != "-"
        if line == "c": want = (before[0], 0) + before[2:]
        if line == "f": want = (before[0], old | fb[FLAG[pick]]) + before[2:]
        nm = f"line '{line}'" + (f" and flag '{pick}'" if pick else "")
        def one(o):
            if o.thrown is not None: return "?"
            r, after = truth(it, o), m.read(it, o.state)
            if r is None or "?" in after: return "?"
            if r != conv: return "command", f, f"{nm} is {'converted' if r else 'not converted'}", f"line {line}"
            if after != (want or before):
                return "command", f, f"{nm} leads from {describe(before)} to {describe(after)} instead of {describe(want or before)}", f"line leads {line} {pick or ''}"
        if judge(ctx, und, nm, outs, one): ctx.ok("command", f, f"{nm}: {describe(want or before)}")
    return done


def labels(ctx, p, m, und):
    """names of flags"""
    fb = bits(p)
    f = next(iter(fnamed(p, "Converter::flagString")), None)
    fl = field(p, "Converter", "ConvertFlags")
    done = 0
    if f is None: und.append("flagString not found")
    else:
        for v in range(16):
            s = State()
            s.env[("this0", fl)] = K(v)
            try: outs, it, cl = run(p, f, s, lambda s: None)
            except Limit: und.append(f"flagString {v}"); continue
            want = "|".join(n for n, b in sorted(fb.items(), key=lambda x: x[1]) if b and b & v and n in FLAG.values()) or "None"
            got = {result(cl, o) for o in outs if o.thrown is None}
            if None in got or not got: und.append(f"flagString {v}"); continue
            done += 1
            if {frozenset(x.split("|")) for x in got} != {frozenset(want.split("|"))}:
                ctx.bad("label", f, f"flags {want} are shown as {sorted(got)[0]}", key=f"shown {want}")
            else: ctx.ok("label", f, f"{want} shown as {sorted(got)[0]}")
    for g in list(p.fns.values()):
        if g.cls is None or g.cls.split("::")[-1] != "KanaConvert": continue
        for n in g.nodes():
            if n.k != "DeclStmt": continue
            for d in n.d["d"]:
                i = d.get("sinit") or d.get("init")
                if i is None or d.get("t") is None or d["t"].strip().k != "rec" or d["t"].strip().n != "std::map": continue
                got = {chr(c): t for c, t in pairs(i).items()}
                if not set(got.values()) & set(FLAG.values()): continue
                done += 1
                if got != FLAG:
                    for c in sorted(set(got) | set(FLAG)):
                        if got.get(c) != FLAG.get(c):
                            ctx.bad("label", n, f"choice '{c}' is described as {got.get(c, 'nothing')}, -f {c} sets {FLAG.get(c, 'nothing')}", key=f"choice {c}")
                else: ctx.ok("label", n, "choices for flags")
    return done


def initial(ctx, p, m, und):
    """what holds without any option"""
    done = 0
    for f in fnamed(p, "KanaConvert::KanaConvert"):
        for i in f.inits or ():
            e = i.get("e")
            if e is None or not i.get("m"): continue
            if ("this0", i["m"]) == m.target[:2]:
                es = [x for x in e.walk() if x.t is not None and x.t.strip().k == "enum" and isinstance(x.v, int)]
                t = [x.v for x in es if x.t.strip().n.split("::")[-1] == "CharType"]
                g = [x.v for x in es if x.t.strip().n.split("::")[-1] == "ConvertFlags"]
                if not t: und.append("initial target")
                else: ctx.check(m.types["Hiragana"] in t, "option", f, "the target is Hiragana without an option", "the target isn't Hiragana without an option", "initial target"); done += 1
                if g: ctx.check(0 in g, "flag", f, "no flag is set without an option", "flags are set without an option", "initial flags"); done += 1
            elif ("this0", i["m"]) == m.source:
                t = [x.v for x in e.walk() if x.t is not None and x.t.strip().k == "enum" and isinstance(x.v, int)]
                ctx.check(not t, "source", f, "there is no source without an option", "a source is chosen without an option", "initial source"); done += 1
            elif i["m"] in m.bools:
                ctx.check(not any(x.k == "CXXBoolLiteralExpr" and x.v for x in e.walk()), "mode", f, f"{i['m']} isn't set without an option", f"{i['m']} is set without an option", f"initial {i['m']}"); done += 1
    return done


def result(cl, o):
    v = o.val
    if isinstance(v, tuple) and v and v[0] == "l" and o.state.env.get(v[1] + ("#text",)) == ("?",): return None
    r = cl.chars(o.state, v)
    return r


def source(ctx, p, m, und):
    f = next((x for x in fnamed(p, "KanaConvert::convert")), None)
    if f is None: und.append("KanaConvert::convert not found"); return 0
    done = 0
    for src in (None, "Hiragana", "Katakana", "Romaji"):
        seen = []
        class C(Flow28):
            def call(self, it, s, fr, n, recv, args):
                if n.own and (n.fq or "").endswith("Converter::convert"):
                    a = [(x, self.const(it, s, v, x)) for x, v in zip(n.c[1:], args) if x is not None and x.t.strip().k == "enum" and x.t.strip().n.split("::")[-1] == "CharType"]
                    kinds = [y["t"].strip().n.split("::")[-1] if y["t"].strip().k == "enum" else "" for y in p.fns[n.f].params] if n.f in p.fns else []
                    seen.append((n, a[0][1] if a else None, len(a), kinds[:1] == ["CharType"]))
                    return None
                return super().call(it, s, fr, n, recv, args)
            def inline(self, f, n): return False if f.q.endswith("Converter::convert") else super().inline(f, n)
        cl = C(p, NoGl)
        it = Interp17(p, cl, maxdepth=8, widen=1 << 20, maxstates=20000, maxtime=4)
        s = m.start("Katakana", 1, src)
        try: it.run(s, Frame(f, "0", 0, ("this0",), stack=(f.id,)))
        except Limit: und.append("convert"); continue
        if not seen: und.append("convert: no call followed"); continue
        done += 1
        for n, v, k, srcfirst in seen:
            if k > 1 or k and not srcfirst: und.append("convert: target given"); continue
            if src is None and k: ctx.bad("source", n, "without a source option only one kind of characters is converted", key="no source")
            elif src is not None and not k: ctx.bad("source", n, f"source {src} is ignored", key=f"ignored {src}")
            elif k and v is None: und.append("convert: source not tracked")
            elif k and v != m.types[src]: ctx.bad("source", n, f"source {src} was chosen, another one is converted", key=f"source {src}")
            else: ctx.ok("source", n, f"source {src or 'any'}")
    return done


def check(ctx):
    p = ctx.p
    m = Model(p)
    END[0] = time.time() + 100
    und, done = [], 0
    if not m.ok: und.append("members of KanaConvert")
    else:
        for part in (options, flags, modes, commands, labels, source, initial): done += part(ctx, p, m, und)
    ctx.info["runs"] = done
    ctx.info["undecided"] = sorted(set(und))[:80]
