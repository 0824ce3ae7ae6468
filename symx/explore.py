"""
Path exploration: the code under test is re-executed once per feasible sequence of branch
decisions on symbolic booleans (depth-first, solver-pruned).
"""

from symx.wall import now

from symx import expr as E


class PathLimit(Exception):
    pass


class _State:
    def __init__(self):
        self.on = False
        self.prefix = []
        self.taken = []
        self.pc = []
        self.known = {}
        self.assume = []
        self.alts = []
        self.stats = dict(paths=0, decisions=0, feasibility_queries=0)
        self.feas = None
        self.max_decisions = 400


ST = _State()


class Infeasible(BaseException):
    """the current path contradicts an assumption made after a branch"""


def decide(b):
    if b.kind == "const":
        return b.data
    if not ST.on:
        raise E.Unsupported("branch on a symbolic condition outside path exploration")
    neg = E.bnot(b)
    if b.id in ST.known:
        return ST.known[b.id]
    if neg.id in ST.known:
        return not ST.known[neg.id]
    i = len(ST.taken)
    if i > ST.max_decisions:
        raise PathLimit("too many branch decisions on one path")
    if i < len(ST.prefix):
        v, forced = ST.prefix[i]
    else:
        t = ST.feas(ST.assume + ST.pc, b)
        f = ST.feas(ST.assume + ST.pc, neg)
        ST.stats["decisions"] += 1
        if not t and not f:
            raise Infeasible
        if t and f:
            v, forced = True, False
            ST.alts.append(ST.taken + [(False, False)])
        else:
            v, forced = t, True
    ST.taken.append((v, forced))
    ST.known[b.id] = v
    ST.pc.append(b if v else neg)
    return v


def run_paths(fn, feas, max_paths=256, deadline=None):
    """yield (result, pc, assumptions) for each feasible path of fn()"""
    work = [[]]
    n = 0
    while work:
        if n >= max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        if deadline and now() > deadline:
            raise PathLimit("time limit during path exploration")
        ST.prefix = work.pop()
        ST.taken, ST.pc, ST.known, ST.assume, ST.alts = [], [], {}, [], []
        ST.feas = feas
        ST.on = True
        try:
            r = fn()
        except Infeasible:
            r = None
        finally:
            ST.on = False
        work.extend(ST.alts)
        if r is not None:
            n += 1
            ST.stats["paths"] += 1
            yield r, list(ST.pc), list(ST.assume)
