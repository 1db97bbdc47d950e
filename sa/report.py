"""Common driver of the checks: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
from .facts import Broken, HERE, Node, REPO, show


class Ctx:
    def __init__(self, pid, prog):
        self.id = pid; self.p = prog
        self.obl = []        # (rule, where, text)
        self.bad_ = []       # dict
        self.info = {}
        self.rules = []

    def where(self, at):
        if at is None: return "?"
        if isinstance(at, str): return at
        if isinstance(at, Node):
            f = at.of
            return f"{f.file if f else '?'}:{at.l}"
        if hasattr(at, "loc"): return at.loc
        if isinstance(at, dict): return f"{at.get('file')}:{at.get('l')}"
        return str(at)

    def ok(self, rule, at, text=""):
        self.obl.append((rule, self.where(at), text if text or not isinstance(at, Node) else show(at)))

    def bad(self, rule, at, msg, key=None, path=()):
        """a violated obligation; key identifies it independently of line numbers"""
        w = self.where(at)
        fn = at.of.q if isinstance(at, Node) and at.of else getattr(at, "q", "")
        self.obl.append((rule, w, "VIOLATED " + msg))
        if any(b["where"] == w and b["rule"] == rule and b["message"] == msg for b in self.bad_): return
        self.bad_.append({"rule": rule, "where": w, "function": fn, "message": msg,
                          "key": key or f"{rule} {fn}", "path": list(path)})

    def check(self, cond, rule, at, text, msg=None, key=None, path=()):
        if cond: self.ok(rule, at, text)
        else: self.bad(rule, at, msg or text, key, path)
        return bool(cond)

    def need(self, cond, msg):
        if not cond: raise Broken("anchor: " + msg)

    def floor(self, rule, n, what):
        c = sum(1 for o in self.obl if o[0] == rule)
        if c < n and not any(b["rule"] == rule for b in self.bad_):
            raise Broken(f"{what}: only {c} instances of rule {rule}, expected at least {n}")


def known(pid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                key, _, what = line[len(f"finding: property={pid} "):].partition(" :: ")
                res.append((key.strip(), what.strip()))
    return res


def run(pid, mod, tier):
    t0 = time.time()
    from .facts import Program
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prog = Program(getattr(mod, "EXTRA", ()))
    ctx = Ctx(pid, prog)
    try: mod.check(ctx)
    except Broken as x:
        # an anchor that's missing doesn't hide what was found before
        if not ctx.bad_: raise
        ctx.info.setdefault("undecided", []).append(str(x))
    except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, RecursionError) as x:
        # code in a form that the rule doesn't model: the rest stays undecided, unless nothing was decided at all
        if os.environ.get("SA_DEBUG"): raise
        if not ctx.obl: raise Broken(f"the rule failed: {type(x).__name__} {x}")
        tb = x.__traceback__
        while tb.tb_next: tb = tb.tb_next
        u = f"the rule stopped: {type(x).__name__} {x} ({os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_lineno})"
        if not isinstance(ctx.info.get("undecided", []), list): ctx.info["stopped"] = u
        else: ctx.info.setdefault("undecided", []).append(u)
        print(f"UNDECIDED property={pid} {u}")
    kn = known(pid)
    new, old = [], []
    for b in ctx.bad_:
        m = [k for k in kn if k[0] == b["key"]]
        (old if m else new).append((b, m[0][1] if m else ""))
    byrule = {}
    for r, w, x in ctx.obl: byrule.setdefault(r, []).append((w, x))
    nv = len(ctx.bad_)
    cov = {
        "explanation": mod.EXPLAIN,
        "rules": getattr(mod, "RULES", {}),
        "obligations": len(ctx.obl), "discharged": len(ctx.obl) - nv,
        "units_parsed": len(prog.units), "functions_in_program": len(prog.fns),
        "obligations_by_rule": {r: len(v) for r, v in byrule.items()},
        "samples": [{"rule": r, "where": w, "what": x[:160]} for r, v in byrule.items() for w, x in v[:4]],
        **ctx.info,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for b, what in old:
        print(f"KNOWN-FINDING: property={pid} {what or b['message']}")
    if new:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as f: json.dump([b for b, _ in new], f, indent=1)
        for b, _ in new[:20]:
            print(f"{b['where']}: [{b['rule']}] {b['function']}: {b['message']}")
            for step in b["path"]: print(f"    {step}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} obligations={len(ctx.obl)} discharged={len(ctx.obl) - nv} "
          f"functions={len(prog.fns)} wall={time.time() - t0:.1f}s")
    return 0
