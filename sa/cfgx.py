"""Control-flow helpers on the exported CFGs: positions, dominators, reachability, loops, path queries."""
from .facts import Node

LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


class Flow:
    """per-function view; element positions are (block, index)"""

    def __init__(self, f):
        self.f = f
        self.g = f.cfg
        self.pos = {}
        for b in self.g.blocks.values():
            for i, e in enumerate(b.elems):
                if isinstance(e, Node): self.pos.setdefault(e.i, (b.id, i))
            if b.term is not None: self.pos.setdefault(("t", b.term.i), (b.id, len(b.elems)))
        self.live = self.reach(self.g.entry)
        self._dom = None
        self._pdom = None

    @staticmethod
    def of(f):
        if not hasattr(f, "_flow"): f._flow = Flow(f) if f.cfg else None
        return f._flow

    def at(self, n):
        """position of a node: its own element, else that of the nearest evaluated ancestor"""
        x = n
        while x is not None:
            p = self.pos.get(x.i)
            if p is not None: return p
            x = x.up
        # a node below no element: use any descendant
        for y in n.walk():
            p = self.pos.get(y.i)
            if p is not None: return p
        return None

    def reach(self, b, without=()):
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen or x in without: continue
            seen.add(x)
            todo.extend(s for s in self.g.blocks[x].succ if s is not None)
        return seen

    def dom(self):
        if self._dom is None:
            order = [b for b in self.live]
            full = set(order)
            d = {b: set(full) for b in order}
            d[self.g.entry] = {self.g.entry}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == self.g.entry: continue
                    ps = [d[p] for p in self.g.blocks[b].pred if p in full]
                    n = (set.intersection(*ps) if ps else set()) | {b}
                    if n != d[b]: d[b] = n; ch = True
            self._dom = d
        return self._dom

    def dominates(self, a, b):
        """position a is on every path from entry to position b (strictly before it)"""
        if a is None or b is None: return False
        if a[0] == b[0]: return a[1] < b[1]
        return a[0] in self.dom().get(b[0], ())

    def after(self, a):
        """positions' blocks reachable after a: (rest of own block included by caller)"""
        r = set()
        for s in self.g.blocks[a[0]].succ:
            if s is not None: r |= self.reach(s)
        return r

    def can_follow(self, a, b):
        """can position b be executed after position a"""
        if a is None or b is None: return True
        if a[0] == b[0] and b[1] > a[1]: return True
        return b[0] in self.after(a)

    def must_pass(self, start, hit, ends=None):
        """every path from position start to an end (default: exit) meets a block/element in `hit` (set of
        positions); returns None when so, else a witness block path"""
        by = {}
        for p in hit: by.setdefault(p[0], []).append(p[1])
        b0, i0 = start
        if any(i > i0 for i in by.get(b0, ())): return None
        ends = ends if ends is not None else {self.g.exit}
        todo = [(b0, (b0,))]
        seen = set()
        first = True
        while todo:
            b, path = todo.pop()
            if not first:
                if b in seen: continue
                seen.add(b)
                if b in by: continue
            first = False
            if b in ends and b != b0 or (b in ends and not self.g.blocks[b].succ): return path
            if b in ends: return path
            if self.g.blocks[b].noret: continue
            for s in self.g.blocks[b].succ:
                if s is not None: todo.append((s, path + (s,)))
        return None


def loop_of(n):
    """innermost loop statement around a node"""
    x = n.up
    while x is not None:
        if x.k in LOOPS: return x
        x = x.up
    return None


def loops_of(n):
    r = []
    x = n.up
    while x is not None:
        if x.k in LOOPS: r.append(x)
        x = x.up
    return r


def inside(n, anc):
    x = n
    while x is not None:
        if x is anc: return True
        x = x.up
    return False


def breaks(loop):
    """break/return/goto statements that leave this loop"""
    r = []

    def walk(n, depth):
        for x in n.subs():
            if x.k == "ReturnStmt" or x.k == "GotoStmt": r.append(x)
            elif x.k == "BreakStmt" and depth == 0: r.append(x)
            walk(x, depth + (1 if x.k in LOOPS or x.k == "SwitchStmt" else 0))
    body = loop.d.get("body")
    if body is not None:
        if body.k == "BreakStmt" or body.k == "ReturnStmt": r.append(body)
        walk(body, 1 if body.k in LOOPS or body.k == "SwitchStmt" else 0)
    return r
