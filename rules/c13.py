"""C13: characters are classified by the official Unicode blocks."""
import os, re, subprocess, tempfile, unicodedata

from sa import facts
from sa.facts import REPO, show

EXPLAIN = ("A compile-time witness: a translation unit generated for the current headers static_asserts that each block table together with "
           "inRange (evaluated by the compiler's front end, nothing is run) accepts exactly the code points of the official Unicode blocks (East Asian Width for the table of wide "
           "characters), decided at both sides of every bound of a block of the tables and of Unicode, where alone the answer can change, that the tables are in order and don't overlap, and that the ranges used in regular expressions are those of the blocks. A query over the type-resolved program "
           "then checks that each classification function uses exactly the tables of its kind.")
RULES = {"table": "inRange(c, table) is true exactly for the code points of the table's blocks, for every c",
         "order": "blocks of a table are in ascending order and don't overlap, also not those of other tables",
         "regex": "a range for regular expressions consists of start, '-' and end of its blocks",
         "uses": "each classification function looks at the tables of its kind, all of them and no others"}
ASSUME = ["inWCharRange decides by inRange on the decoded characters"]

B = {
    "HiraganaBlocks": [(0x3040, 0x309f)],
    "KatakanaBlocks": [(0x30a0, 0x30ff), (0x31f0, 0x31ff)],
    "CommonKanjiBlocks": [(0x3400, 0x4dbf), (0x4e00, 0x9fff), (0xf900, 0xfaff), (0x20000, 0x2a6df)],
    "RareKanjiBlocks": [(0x2e80, 0x2eff), (0x2a700, 0x2ebef), (0x2f800, 0x2fa1f), (0x30000, 0x3134f)],
    "PunctuationBlocks": [(0x2000, 0x206f), (0x3000, 0x303f), (0xfff0, 0xffff)],
    "SymbolBlocks": [(0x2100, 0x214f), (0x2190, 0x21ff), (0x2200, 0x22ff), (0x2500, 0x257f), (0x25a0, 0x25ff), (0x2600, 0x26ff), (0x2ff0, 0x2fff),
                     (0x3190, 0x319f), (0x31c0, 0x31ef)],
    "LetterBlocks": [(0x80, 0xff), (0x100, 0x17f), (0x180, 0x24f), (0x2150, 0x218f), (0x2460, 0x24ff), (0x2c60, 0x2c7f), (0xff00, 0xffef)],
    "NonSpacingBlocks": [(0xfe00, 0xfe0f)],
}
NONSPACING = [(0x3099, 0x309a), (0xfe00, 0xfe0f)]
USES = {
    "Kana": ["HiraganaBlocks", "KatakanaBlocks"], "Hiragana": ["HiraganaBlocks"], "Katakana": ["KatakanaBlocks"],
    "Kanji": ["CommonKanjiBlocks", "RareKanjiBlocks"], "CommonKanji": ["CommonKanjiBlocks"], "RareKanji": ["RareKanjiBlocks"],
    "MBSymbol": ["SymbolBlocks"], "MBLetter": ["LetterBlocks"], "MBPunctuation": ["PunctuationBlocks"],
    "RecognizedUtf8": ["HiraganaBlocks", "KatakanaBlocks", "CommonKanjiBlocks", "RareKanjiBlocks", "PunctuationBlocks", "SymbolBlocks", "LetterBlocks"],
}
RANGES = {"KanjiRange": ["CommonKanjiBlocks", "RareKanjiBlocks", "NonSpacingBlocks"], "WideLetterRange": [(0xff00, 0xffef)], "HiraganaRange": ["HiraganaBlocks"],
          "KatakanaRange": ["KatakanaBlocks"], "KanaRange": ["HiraganaBlocks", "KatakanaBlocks"]}
# assigned after the version of Unicode from which the table was generated
NEWER = [(0x2ffc, 0x2fff), (0x31e4, 0x31ef), (0x1b132, 0x1b132), (0x1b155, 0x1b155), (0x1f6dc, 0x1f6dc), (0x1fa75, 0x1fa77), (0x1fa87, 0x1fa8f), (0x1faad, 0x1fabf),
         (0x1fabb, 0x1fabf), (0x1fac6, 0x1facf), (0x1fada, 0x1fadf), (0x1fae8, 0x1faef), (0x1faf7, 0x1faff)]


def merge(rs):
    r = []
    for a, b in sorted(rs):
        if r and a <= r[-1][1] + 1: r[-1] = (r[-1][0], max(b, r[-1][1]))
        else: r.append((a, b))
    return r


def wide():
    """(ranges of wide characters, ranges that aren't judged)"""
    w, skip = [], list(NEWER)
    for c in range(0x110000):
        ch = chr(c)
        if unicodedata.category(ch) == "Cn" and not (0x20000 <= c <= 0x3fffd): skip.append((c, c)) 
        elif unicodedata.east_asian_width(ch) in "WF" or 0x20000 <= c <= 0x2fffd or 0x30000 <= c <= 0x3fffd: w.append((c, c))
    return merge(w), merge(skip)


def cpp(rs): return "{" + ", ".join("{0x%x, 0x%x}" % r for r in rs) + "}"


class Witness:
    def __init__(self, headers):
        self.lines = [f"#include <{h}>" for h in headers] + ["using namespace kanji_tools;", "struct R { unsigned a, b; };", """
constexpr bool in(unsigned c, const R* r, unsigned n) {
  for (unsigned i{}; i < n; ++i) if (c >= r[i].a && c <= r[i].b) return true;
  return false;
}"""]
        self.what = {}

    def add(self, rule, what, pre, cond):
        if pre: self.lines.append(pre)
        key = f"W{len(self.what)}"
        self.what[key] = (rule, what)
        self.lines.append(f'static_assert({cond}, "{key}");')

    def build(self):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "witness.cpp")
            open(f, "w").write("\n".join(self.lines) + "\n")
            r = compile_(f)
        failed, other = {}, []
        err = r.stderr.splitlines()
        for i, line in enumerate(err):
            if ": error:" not in line and ": fatal error:" not in line: continue
            m = re.search(r"static assertion failed.*\b(W\d+)\b", line)
            if m: failed[m.group(1)] = next((x.split("note:", 1)[1].strip() for x in err[i + 1:i + 12] if "note:" in x), "")
            else: other.append(line)
        return failed, other, err


def compile_(f):
    return subprocess.run([facts.LLVM + "/bin/clang++"] + facts.flags() + ["-fsyntax-only", "-fconstexpr-steps=4000000000", "-ferror-limit=0", f],
                          capture_output=True, text=True, timeout=700)


def table(w, name, ranges, expr, blocks, what):
    """expr(c) is true exactly for the code points in ranges: its value can only change where a block starts or ends"""
    w.add("table", what, f"""
constexpr R {name}_r[]{cpp(ranges)};
consteval unsigned {name}_wrong() {{
  const auto bad{{[](unsigned c) {{ return c <= 0x10ffff && ({expr}) != in(c, {name}_r, {len(ranges)}); }}}};
  for (auto& r : All)
    for (unsigned c : std::initializer_list<unsigned>{{r.a - 1, r.a, r.a + (r.b - r.a) / 2, r.b, r.b + 1}}) if (bad(c)) return c;
  for (auto& b : {blocks})
    for (unsigned c : std::initializer_list<unsigned>{{b.start() - 1, b.start(), b.start() + (b.end() - b.start()) / 2, b.end(), b.end() + 1}}) if (bad(c)) return c;
  for (unsigned c{{}}; c <= 0x10ffff; c += 1021) if (bad(c)) return c;
  return 0xffffffff;
}}""", f"{name}_wrong() == 0xffffffff")


def check(ctx):
    p = ctx.p
    gs = {}
    for g in p.gvars.values():
        if "UnicodeBlock" in str(g["t"]) and "array" in str(g["t"]): gs[g["q"].split("::")[-1]] = g
    w = Witness(["kt_kana/DisplaySize.h", "kt_utils/BlockRange.h", "kt_utils/UnicodeBlock.h"])
    w.lines.append("constexpr R All[]" + cpp(sorted({r for rs in B.values() for r in rs} | set(NONSPACING))) + ";")
    for n, rs in B.items():
        if n not in gs: continue
        table(w, n, merge(rs), f"inRange(c, {n})", n, n)
        w.add("order", n, f"""
consteval bool {n}_ordered() {{
  for (size_t i{{}}; i < {n}.size(); ++i)
    if ({n}[i].start() > {n}[i].end() || i && {n}[i].start() <= {n}[i - 1].end()) return false;
  return true;
}}""", f"{n}_ordered()")
    if any(f.q.endswith("::isNonSpacing") for f in p.fns.values()): table(w, "NonSpacing", NONSPACING, "isNonSpacing(c)", "NonSpacingBlocks", "isNonSpacing")
    if "WideBlocks" in gs:
        r, skip = wide()
        pts = sorted({x for a, b in r + skip for x in (a - 1, a, b, b + 1) if 0 <= x <= 0x10ffff})
        w.add("order", "WideBlocks", """
consteval bool Wide_ordered() {
  for (size_t i{1}; i < WideBlocks.size(); ++i)
    if (WideBlocks[i].start() <= WideBlocks[i - 1].end()) return false;
  return true;
}""", "Wide_ordered()")
        w.add("table", "WideBlocks", f"""
constexpr R Wide_r[]{cpp(r)};
constexpr R Wide_s[]{cpp(skip)};
consteval unsigned Wide_wrong() {{
  constexpr auto n{{sizeof(Wide_r) / sizeof(R)}}, m{{sizeof(Wide_s) / sizeof(R)}};
  size_t i{{}}, j{{}}, k{{}};
  for (unsigned c : std::initializer_list<unsigned>{{{', '.join(hex(x) for x in pts)}}}) {{ // where any of them may change
    while (i < n && c > Wide_r[i].b) ++i;
    while (j < m && c > Wide_s[j].b) ++j;
    while (k < WideBlocks.size() && c > WideBlocks[k].end()) ++k;
    if (j < m && c >= Wide_s[j].a) continue;
    if ((i < n && c >= Wide_r[i].a) != (k < WideBlocks.size() && WideBlocks[k](c))) return c;
  }}
  for (auto& b : WideBlocks) {{
    // the block is inside of the ranges and of what isn't judged
    unsigned c{{b.start()}};
    for (size_t i{{}}, j{{}}; c <= b.end();) {{
      while (i < n && c > Wide_r[i].b) ++i;
      while (j < m && c > Wide_s[j].b) ++j;
      if (i < n && c >= Wide_r[i].a) c = Wide_r[i].b + 1;
      else if (j < m && c >= Wide_s[j].a) c = Wide_s[j].b + 1;
      else return c;
    }}
  }}
  return 0xffffffff;
}}""", "Wide_wrong() == 0xffffffff")
        w.add("table", "inRange on WideBlocks", """
consteval unsigned Wide_in() {
  for (auto& b : WideBlocks)
    if (!inRange(b.start(), WideBlocks) || !inRange(b.end(), WideBlocks)) return b.start();
  return 0xffffffff;
}""", "Wide_in() == 0xffffffff")
    names = [n for n in B if n in gs]
    if names:
        w.add("order", "tables", "consteval bool disjoint() {\n  for (auto& r : All)\n    for (auto c : {r.a, r.b}) if (" +
              " + ".join(f"(inRange(c, {n}) ? 1 : 0)" for n in names) + " > 1) return false;\n  return true;\n}", "disjoint()")
    rg = {g["q"].split("::")[-1]: g for g in p.gvars.values() if "BlockRange" in str(g["t"])}
    for n, parts in RANGES.items():
        if n not in rg: continue
        rs = merge([x for y in parts for x in (B[y] if isinstance(y, str) else [y])])
        w.add("regex", n, f"""
constexpr R {n}_r[]{cpp(rs)};
consteval bool {n}_ok() {{
  constexpr auto n{{{n}.size()}};
  if (n % 3 || {n}()[n]) return false;
  for (size_t i{{}}; i < n; i += 3)
    if ({n}()[i + 1] != L'-' || {n}()[i] > {n}()[i + 2]) return false;
  for (size_t j{{}}; j < {len(rs)}; ++j) // both ends of each block and what's next to them
    for (auto c : {{{n}_r[j].a - 1, {n}_r[j].a, ({n}_r[j].a + {n}_r[j].b) / 2, {n}_r[j].b, {n}_r[j].b + 1}}) {{
      bool x{{}};
      for (size_t i{{}}; i < n; i += 3) x = x || c >= static_cast<unsigned>({n}()[i]) && c <= static_cast<unsigned>({n}()[i + 2]);
      if (x != in(c, {n}_r, {len(rs)})) return false;
    }}
  for (size_t i{{}}; i < n; i += 3)
    for (auto k : {{0, 2}}) if (!in(static_cast<unsigned>({n}()[i + k]), {n}_r, {len(rs)})) return false;
  return true;
}}""", f"{n}_ok()")
    failed, other, err = w.build()
    und = []
    for key, (rule, what) in w.what.items():
        g = gs.get(what) or rg.get(what)
        at = f"{g['file']}:{g['l']}" if g else "libs/utils/include/kt_utils/UnicodeBlock.h"
        if key in failed:
            why = failed[key]
            m = re.search(r"evaluates to '(\d+) == 4294967295'", why)
            ctx.bad(rule, at, f"{what}: " + (f"wrong for U+{int(m.group(1)):04X}" if m else RULES[rule].split(",")[0] + " - not so"), key=f"{rule} {what}")
        elif any(x for x in other): und.append(what)
        else: ctx.ok(rule, at, what)
    # which tables the functions use
    byname = {}
    for f in p.fns.values():
        m = re.match(r"is(All)?(\w+)$", f.name or "")
        if m and m.group(2) in USES and f.cfg is not None and f.file.startswith("libs/utils"): byname[f.id] = (f, m.group(2))
    tabs = set(B) & set(gs)

    def used(f, seen):
        r = set()
        for n in f.nodes():
            if n.k == "DeclRefExpr" and n.g and n.var in p.gvars:
                x = p.gvars[n.var]["q"].split("::")[-1]
                if x in tabs: r.add(x)
            if n.k == "CallExpr":
                for t in p.targets(n):
                    if t.cfg is not None and t.id not in seen and not t.q.split("::")[-1].startswith(("isNonSpacing", "fromUtf8")):
                        seen.add(t.id); r |= used(t, seen)
        return r
    for f, kind in byname.values():
        u = used(f, {f.id}) 
        want = set(USES[kind]) & tabs
        ctx.check(u == want, "uses", f, f"{f.q}: {', '.join(sorted(u))}",
                  f"uses {', '.join(sorted(u - want)) or 'no table'} too" if u - want else f"doesn't use {', '.join(sorted(want - u))}", key=f"uses {f.q}")
    ctx.info["witnesses"] = len(w.what)
    ctx.info["undecided"] = und
    ctx.info["compiler_errors"] = other[:5]
    ctx.info["classification_functions"] = len(byname)
