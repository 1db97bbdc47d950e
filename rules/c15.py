"""C15: the kana tables say the same thing in hiragana, katakana and rōmaji."""
import unicodedata

from sa.facts import show

EXPLAIN = ("Every construction of a Kana object (and of the classes derived from it) with literal arguments is read from the syntax tree - the tables from which all the "
           "conversion maps are built - and compared with what Unicode says about the letters (names of the code points, canonical decomposition of voiced letters) and "
           "with the standard romanisations.")
RULES = {"script": "hiragana and katakana of an entry are the same letters in the two scripts",
         "spelling": "every rōmaji spelling of an entry (main one, variants, Hepburn and Kunrei) is one that stands for these letters",
         "style": "the Hepburn and Kunrei forms of an entry are those of the two systems",
         "unique": "no hiragana, katakana or rōmaji (variants included) belongs to two entries",
         "accent": "accented versions of an entry are its letters with (semi-)voiced sound mark",
         "complete": "every hiragana letter and every standard digraph has an entry",
         "mark": "iteration marks, prolonged sound mark, small tsu and n are the right letters"}
ASSUME = ["the maps are filled from these tables (Kana::populate)"]

SMALL = {"ぁ": "a", "ぃ": "i", "ぅ": "u", "ぇ": "e", "ぉ": "o", "ゃ": "a", "ゅ": "u", "ょ": "o", "ゎ": "a"}
VOICED, SEMI = "\u3099", "\u309a"
# consonants with which the romanisations write a first letter followed by a small vowel, and by a small y letter
STEMS = {"あ": {}, "い": {"v": "y"}, "う": {"v": "w"}, "き": {"v": "ky", "y": "ky"}, "く": {"v": "q kw qw", "y": "qy", "w": "q kw qw"},
         "ぎ": {"v": "gy", "y": "gy"}, "ぐ": {"v": "gw", "y": "gy", "w": "gw"},
         "し": {"v": "sh sy", "y": "sh sy"}, "じ": {"v": "j jy zy", "y": "j jy zy"}, "す": {"v": "sw"}, "ず": {"v": "zw"},
         "ち": {"v": "ch ty cy", "y": "ch ty cy"}, "ぢ": {"v": "dy", "y": "dy j zy jy"}, "つ": {"v": "ts"}, "て": {"v": "th", "y": "th"},
         "で": {"v": "dh", "y": "dh"}, "と": {"v": "tw"}, "ど": {"v": "dw"}, "に": {"v": "ny", "y": "ny"}, "ひ": {"v": "hy", "y": "hy"},
         "び": {"v": "by", "y": "by"}, "ぴ": {"v": "py", "y": "py"}, "ふ": {"v": "f fw fy hw", "y": "f fy"}, "み": {"v": "my", "y": "my"},
         "り": {"v": "ry", "y": "ry"}, "ゔ": {"v": "v vy", "y": "vy"}}
# vowels with which the y of a spelling can't be followed (fyi stands for ふぃ, but fya for ふゃ)
NOT = {("ふ", "v", "fy"): "auo", ("ゔ", "v", "vy"): "auo"}
HEPBURN = {"si": "shi", "ti": "chi", "tu": "tsu", "hu": "fu", "zi": "ji", "di": "ji", "du": "zu"}
KUNREI = {"di": "zi", "du": "zu"}
HY = {"sy": "sh", "zy": "j", "ty": "ch", "dy": "j"}
KY = {"dy": "zy"}


def text(s):
    try: return s.encode("latin-1").decode("utf-8")
    except (UnicodeError, AttributeError): return s


def strip(n):
    while n is not None and n.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr",
                                    "ParenExpr", "ConstantExpr") and len([c for c in n.c if c is not None]) == 1:
        n = [c for c in n.c if c is not None][0]
    return n


def records(p, base):
    """names of the class and of the classes derived from it"""
    res = {base}
    while True:
        more = {q for q, r in p.recs.items() if q not in res and any(bname(b) in res for b in r.get("bases", ()))}
        if not more: return res
        res |= more


def bname(b):
    if isinstance(b, dict): b = b.get("q") or b.get("t") or ""
    b = getattr(b, "n", b)
    return str(b).replace("class ", "").replace("struct ", "").strip()


class Entry:
    def __init__(self, n):
        self.n = n; self.lits = []; self.variants = []; self.flag = False; self.nested = []

    def __str__(self): return "/".join(self.lits[:3])


def entry(n, kana, variants):
    e = Entry(n)
    todo = list(n.c)
    for c in n.c:
        x = strip(c)
        if x is None: continue
        if x.k == "StringLiteral": e.lits.append(text(x.s))
        elif x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            t = x.t.strip().n if x.t is not None else None
            if t in kana: e.nested.append(entry(x, kana, variants))
            elif t in variants:
                for y in x.walk():
                    if y.k == "StringLiteral": e.variants.append(text(y.s))
                    if y.k == "CXXBoolLiteralExpr" and truth(y): e.flag = True
    return e


def truth(y):
    v = y.v if hasattr(y, "v") else None
    return v in (1, True, "1", "true") or show(y) in ("true", "1", "True")


def nihon(h):
    """what a single letter is called, None if it's no hiragana letter"""
    n = unicodedata.name(h, "")
    if not n.startswith("HIRAGANA LETTER "): return None
    n = n[len("HIRAGANA LETTER "):].lower()
    return "l" + n[6:] if n.startswith("small ") else n


def stem(h):
    s = nihon(h)
    return s[:-1] if s else None


def spellings(h):
    """(allowed, needed, Hepburn, Kunrei) of hiragana h"""
    if len(h) == 1:
        n = nihon(h)
        if h in "ゐゑ": return {"w" + "y" + n[-1], n[-1]}, None, n[-1], n[-1]
        if h == "を": return {"wo", "o"}, "wo", "o", "o"
        if h == "ん": return {"n"}, "n", "n", "n"
        ok = {n, HEPBURN.get(n, n), KUNREI.get(n, n)}
        if n.startswith("l"): ok |= {"x" + n[1:], "ly" + n[1:], "xy" + n[1:]} if n == "le" else {"x" + n[1:]}
        if h == "う": ok.add("wu")
        if h == "じ": ok |= {"zi"}
        return ok, n, HEPBURN.get(n, n), KUNREI.get(n, n)
    v = SMALL.get(h[1])
    kind = "y" if h[1] in "ゃゅょ" else "w" if h[1] == "ゎ" else "v"
    st = STEMS.get(h[0], {}).get(kind)
    if v is None or st is None: return None
    ok = {s + v for s in st.split() if v not in NOT.get((h[0], kind, s), "")}
    hep = kun = None
    if kind == "y" and h[0] in "きしちにひみりぎじぢびぴ":
        b = nihon(h[0])[:-1] + "y"
        hep = HY.get(b, b) + v; kun = KY.get(b, b) + v
    return ok, None, hep, kun


def letters(s, script):
    r = []
    for c in s:
        n = unicodedata.name(c, "")
        if not n.startswith(script + " LETTER "): return None
        r.append(n[len(script) + 8:])
    return r


def check(ctx):
    p = ctx.p
    kana = records(p, "kanji_tools::Kana")
    variants = {q for q in p.recs if q.endswith("::RomajiVariants")}
    found, seen = [], set()

    def collect(root, nested=False):
        """outermost constructions"""
        todo = [root]
        while todo:
            n = todo.pop()
            if n is None or isinstance(n, (str, int)): continue
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.t is not None and n.t.strip().n in kana:
                e = entry(n, kana, variants)
                if e.lits or e.nested:
                    k = (tuple(e.lits), n.l)
                    if (n.of.file if n.of is not None else "", k) not in seen:
                        seen.add((n.of.file if n.of is not None else "", k)); found.append(e)
                    continue
            todo.extend(n.c)
    files = {}
    for g in p.gvars.values():
        if g.get("init") is not None:
            before = len(found)
            collect(g["init"])
            for e in found[before:]: files[id(e)] = g["file"]
    for f in p.fns.values():
        if f.cfg is None or not f.file.startswith("libs/kana"): continue
        for n in f.nodes():
            if n.k == "DeclStmt":
                before = len(found)
                collect(n)
                for e in found[before:]: files[id(e)] = f.file
    flat = []
    def add(e, file, plain=None):
        e.file = file; e.plain = plain
        if len(e.lits) >= 3: flat.append(e)
        for x in e.nested: add(x, file, e)
    for e in found: add(e, files[id(e)])

    def say(rule, e, ok, why):
        if ok: ctx.ok(rule, f"{e.file}:{e.n.l}", f"{e}")
        else: ctx.bad(rule, f"{e.file}:{e.n.l}", f"entry {e}: {why}", key=f"{rule} {e}")

    h3 = {}
    for what, get in (("hiragana", lambda e: [e.lits[1]]), ("katakana", lambda e: [e.lits[2]]), ("rōmaji", lambda e: [e.lits[0]] + e.variants)):
        m = {}
        for e in flat:
            for s in get(e):
                o = m.setdefault(s, e)
                say("unique", e, o is e and get(e).count(s) == 1, f"{what} '{s}' also belongs to {o}")
    for e in flat:
        r, h, k = e.lits[:3]
        a, b = letters(h, "HIRAGANA"), letters(k, "KATAKANA")
        say("script", e, a is not None and a == b, f"'{h}' and '{k}' aren't the same letters")
        sp = spellings(h) if a is not None and 1 <= len(h) <= 2 else None
        if sp is None:
            say("spelling", e, a is None, f"'{h}' isn't one letter or a letter with a small letter")
            continue
        ok, need, hep, kun = sp
        for s in [r] + e.variants: say("spelling", e, s in ok, f"'{s}' doesn't stand for '{h}'")
        if need is not None: say("spelling", e, need in [r] + e.variants, f"'{need}' isn't accepted for '{h}'")
        h1, k1 = (e.lits[3], e.lits[4]) if len(e.lits) >= 5 else (None, None)
        if hep is not None: say("style", e, (h1 or r) == hep, f"Hepburn form is '{h1 or r}' instead of '{hep}'")
        kf = e.variants[0] if e.flag and e.variants else k1 or r
        if kun is not None: say("style", e, kf == kun, f"Kunrei form is '{kf}' instead of '{kun}'")
        if hep is None and h1 is not None: say("style", e, h1 in ok, f"Hepburn form '{h1}' doesn't stand for '{h}'")
        if kun is None and kf != r: say("style", e, kf in ok, f"Kunrei form '{kf}' doesn't stand for '{h}'")
        if e.nested:
            forms = [x.lits[1] for x in e.nested if len(x.lits) >= 3]
            want = [unicodedata.normalize("NFC", h[0] + m) + h[1:] for m in ((SEMI, VOICED) if len(forms) == 2 else (VOICED,))]
            say("accent", e, forms == want, f"accented versions are {' '.join(forms)} instead of {' '.join(want)}")
        elif e.plain is None and len(h) == 1:
            v = unicodedata.normalize("NFC", h + VOICED)
            say("accent", e, len(v) > 1, f"it has no accented version although '{v}' exists")
    have = {e.lits[1] for e in flat}
    every = [chr(c) for c in range(0x3041, 0x3097)] + [a + b for a in "きしちにひみりぎじぢびぴ" for b in "ゃゅょ"]
    if flat:
        for h in every: ctx.check(h in have, "complete", flat[0].file, h, f"there's no entry for '{h}'", key=f"complete {h}")
    # marks
    marks = 0
    for g in p.gvars.values():
        if g.get("init") is None: continue
        x = strip(g["init"])
        ls = [text(n.s) for n in x.walk() if n.k == "StringLiteral"]
        t = str(g["t"]).replace("const ", "").strip()
        if t.endswith("IterationMark") and len(ls) == 2:
            fl = [truth(n) for n in x.walk() if n.k == "CXXBoolLiteralExpr"]
            names = [unicodedata.name(s, "") if len(s) == 1 else "" for s in ls]
            v = "VOICED " if fl and fl[-1] else ""
            marks += 1
            ctx.check(names == [f"HIRAGANA {v}ITERATION MARK", f"KATAKANA {v}ITERATION MARK"], "mark", f"{g['file']}:{g['l']}", g["q"],
                      f"iteration mark {g['q']} is {' '.join(ls)}", key=f"mark {g['q']}")
        if len(ls) == 1 and g["q"].endswith("::ProlongMark"):
            marks += 1
            ctx.check(ls[0] == "ー", "mark", f"{g['file']}:{g['l']}", g["q"], f"prolonged sound mark is '{ls[0]}'", key="mark prolong")
    ctx.info["entries"] = len(flat)
    ctx.info["spellings"] = sum(1 + len(e.variants) for e in flat)
    ctx.info["marks"] = marks
