"""Path exploration: DFS over branch decisions by re-execution."""
import time

from . import sym as S
from . import smt
from .sym import Sym, SymBool, Unsupported, PathAbort


def S_HAS_AXIOMS(bs):
    """does any constraint mention an atom for which extra axioms are emitted?"""
    for b in bs:
        if not isinstance(b, bool) and not S.is_linear(b):
            return True
    return False


class Budget(Unsupported):
    pass


class Explorer:
    def __init__(self, max_paths=200, deadline=None, branch_timeout=3.0, max_decisions=4000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_timeout = branch_timeout
        self.max_decisions = max_decisions
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.unknown_branches = 0

    # -- one run
    def begin(self, trace):
        self.trace = trace          # list of [choice, remaining alternatives]
        self.pos = 0
        self.pc = []
        self.hints = []
        self.fresh = {}
        self.cache = {}

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort('assumption false')
        self.pc.append(b)

    def _sat(self, extra):
        lin = [b for b in self.pc if isinstance(b, bool) or S.is_linear(b)]
        if len(lin) < len(self.pc) and all(isinstance(b, bool) or S.is_linear(b) for b in extra):
            # the linear part alone often refutes
            v, _ = smt.solve(lin + extra, self.branch_timeout, axioms=False)
            if v == 'unsat':
                return v
        v, _ = smt.solve(self.pc + extra, self.branch_timeout, axioms=False)
        if v == 'sat' and not S_HAS_AXIOMS(self.pc + extra):
            return v
        if v == 'sat':
            # relaxed encoding: confirm with the axioms only when they could matter
            v2, _ = smt.solve(self.pc + extra, self.branch_timeout, axioms=True)
            return v2
        if v == 'unknown':
            v, _ = smt.solve(self.pc + extra, self.branch_timeout, axioms=True)
        return v

    def _tick(self):
        self.decisions += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget of the harness exhausted')
        if self.pos > self.max_decisions:
            raise Budget('too many decisions on one path')

    def decide(self, b):
        if isinstance(b, bool):
            return b
        c = self.cache.get(b.id)
        if c is not None:
            return c
        if self.pos < len(self.trace):
            choice = self.trace[self.pos][0]
            self.pos += 1
        else:
            self._tick()
            t = self._sat([b])
            if t == 'unsat':
                choice, alts = False, []
            else:
                f = self._sat([S.bnot(b)])
                if f == 'unsat':
                    choice, alts = True, []
                else:
                    if 'unknown' in (t, f):
                        self.unknown_branches += 1
                    choice, alts = True, [False]
                    self.forks += 1
            self.trace.append([choice, alts])
            self.pos += 1
        self.pc.append(b if choice else S.bnot(b))
        self.cache[b.id] = choice
        nb = S.bnot(b)
        if not isinstance(nb, bool):
            self.cache[nb.id] = not choice
        return choice

    def choose_int(self, x):
        k = ('int', x.id)
        if k in self.cache:
            return self.cache[k]
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
        else:
            self._tick()
            vals = []
            probe = S.Sym.var('!int!%d' % x.id, isint=True)
            tie = probe == x
            for _ in range(80):
                r, m = smt.solve(self.pc + [tie] + [probe != v for v in vals], 5.0, model=True, axioms=True)
                if r == 'unsat':
                    break
                if r == 'unknown' or m is None:
                    raise Budget('integer enumeration undecided')
                vals.append(int(m['!int!%d' % x.id]))
            else:
                raise Budget('too many values for a concretised integer')
            if not vals:
                raise PathAbort('infeasible')
            vals.sort()
            if len(vals) > 1:
                self.forks += 1
            v = vals[0]
            self.trace.append([v, vals[1:]])
            self.pos += 1
        e = x == v
        if not isinstance(e, bool):
            self.pc.append(e)
        self.cache[k] = v
        return v

    def run_all(self, fn):
        """Call fn() once per feasible path; fn may raise PathAbort."""
        trace = []
        while True:
            if self.paths >= self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget('time budget of the harness exhausted')
            self.begin(trace)
            S.CUR = self
            try:
                fn()
                self.paths += 1
            except PathAbort:
                pass
            finally:
                S.CUR = None
            # backtrack
            while trace and not trace[-1][1]:
                trace.pop()
            if not trace:
                return
            trace[-1][0] = trace[-1][1].pop(0)
