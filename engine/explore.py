"""Depth-first path exploration by re-execution."""
import time, random, math
from . import terms as T
from . import nf, solve
from .terms import B, S, Infeasible, Unsupported

class PathLimit(BaseException): pass

class Explorer(object):
    def __init__(self, seed=1, max_paths=4000, branch_timeout=3.0, deadline=None, div_fork=False):
        self.rng = random.Random(seed)
        self.max_paths, self.branch_timeout, self.deadline = max_paths, branch_timeout, deadline
        self.stack = []          # list of [value, remaining alternatives]
        self.paths = 0
        self.branches = 0
        self.undecided = 0
        self.assumed = {}
        self.div_fork_default = div_fork
        self.bounds = {}
    def begin(self):
        self.pos = 0
        self.pc = []             # list of B
        self.pckeys = set()
        self.vars = {}
        self.wit = None          # float witness for pc (or None)
        self.div_fork = self.div_fork_default
        self.trail = []
    # ----- variables
    def newvar(self, name, lo, hi, lo_open, hi_open):
        v = T.var(name)
        if name in self.vars: raise ValueError('duplicate input ' + name)
        self.vars[name] = (lo, hi)
        self.wit_stale = True
        if lo is not None:
            if T.snap(float(lo)) >= 0: nf.POSVARS.add(name)
            self._add((v > lo) if lo_open else (v >= lo))
        if hi is not None:
            self._add((v < hi) if hi_open else (v <= hi))
        if self.wit is not None:
            self.wit = dict(self.wit); self.wit[name] = self.sample1(lo, hi)
        elif not self.pc or True:
            w = dict((n, self.sample1(*b)) for n, b in self.vars.items())
            if self._holds(w): self.wit = w
        return v
    def sample1(self, lo, hi):
        r = self.rng
        if lo is None and hi is None: return round(r.uniform(-3, 3), 3)
        if lo is None: return float(hi) - r.uniform(0.1, 3)
        if hi is None: return float(lo) + r.uniform(0.1, 3)
        lo, hi = float(lo), float(hi)
        if lo > 0 and hi / lo > 1e3 and r.random() < 0.7:
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        return lo + (hi - lo) * r.uniform(0.02, 0.98)
    # ----- path condition
    def _key(self, b):
        if b.op in ('lt', 'le', 'eq'): return (b.op, b.args[0].id, b.args[1].id)
        return None
    def _add(self, b):
        b = T.B_of(b)
        if b.op == 'k':
            if not b.args[0]: raise Infeasible()
            return
        k = self._key(b)
        if k is not None:
            if k in self.pckeys: return
            self.pckeys.add(k)
        self.pc.append(b)
    def _holds(self, w, extra=()):
        memo = {}
        try:
            return all(T.beval(b, w, memo) for b in self.pc) and all(T.beval(b, w, memo) for b in extra)
        except (T.EvalError, KeyError):
            return False
    def _wit_says(self, b):
        if self.wit is None: return None
        try:
            return T.beval(b, self.wit)
        except (T.EvalError, KeyError):
            return None
    def known(self, b):
        k = self._key(b)
        if k in self.pckeys: return True
        n = ~b
        k = self._key(n)
        if k is not None and k in self.pckeys: return False
        if b.op == 'le' and ('lt', b.args[0].id, b.args[1].id) in self.pckeys: return True
        if b.op == 'not' and self._key(b.args[0]) in self.pckeys: return False
        if b.op == 'eq':
            for x, y in (b.args, b.args[::-1]):
                if ('lt', x.id, y.id) in self.pckeys: return False
        return None
    def feasible(self, b):
        """'sat'|'unsat'|'unknown' for pc and b; may refresh self.wit"""
        r = solve.check(self.pc + [b], list(self.vars), self.branch_timeout)
        return r
    def assume(self, b, why=None):
        b = T.B_of(b)
        if b.op == 'k':
            if not b.args[0]: raise Infeasible()
            return
        if self.known(b) is True: return
        ok = self._wit_says(b)
        self._add(b)
        if ok: return
        w = self.search(20)
        if w is not None:
            self.wit = w; return
        r = solve.check(self.pc, list(self.vars), self.branch_timeout)
        if r.status == 'unsat': raise Infeasible()
        self.wit = r.env if (r.env and self._holds(r.env)) else None
    def domain(self, b, why):
        if not isinstance(b, B):
            if b is False or (isinstance(b, bool) and not b):
                raise Unsupported(why)
            return
        if self.known(b) is True: return
        self.assumed[why] = self.assumed.get(why, 0) + 1
        self.assume(b)
    def search(self, n, extra=()):
        for i in range(n):
            w = dict((k, self.sample1(*b)) for k, b in self.vars.items())
            if self._holds(w, extra): return w
        return None
    # ----- decisions
    def _replay(self):
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
            self.pos += 1
            return True, v
        return False, None
    def decide(self, b):
        kn = self.known(b)
        if kn is not None: return kn
        ok, v = self._replay()
        if ok:
            c = b if v else ~b
            self._add(c)
            if self._wit_says(c) is not True: self.wit = None
            self.trail.append((T.showb(b), v))
            return v
        if self.deadline and time.time() > self.deadline: raise PathLimit('time')
        self.branches += 1
        nb = ~b
        if self.wit is None:
            self.wit = self.search(10)
        ws = self._wit_says(b)
        res = {}
        for val, c in ((True, b), (False, nb)):
            if ws is not None and ws is val:
                res[val] = ('sat', self.wit); continue
            r = self.feasible(c)
            if r.status == 'unknown': self.undecided += 1
            res[val] = (r.status, r.env)
        alts = [v for v in (True, False) if res[v][0] != 'unsat']
        if not alts: raise Infeasible()
        # if both branches agree it is forced: record in pc anyway (harmless), no alternatives
        v = alts[0]
        self.stack.append([v, alts[1:]])
        self.pos += 1
        c = b if v else nb
        self._add(c)
        w = res[v][1]
        self.wit = w if (w and self._holds(w)) else None
        self.trail.append((T.showb(b), v))
        return v
    def choose(self, n):
        ok, v = self._replay()
        if ok: return v
        self.branches += 1
        self.stack.append([0, list(range(1, n))])
        self.pos += 1
        return 0
    def enumerate_int(self, a):
        """truncate a symbolic real, forking over the integers it can take"""
        for _ in range(64):
            if self.wit is None:
                r = solve.check(self.pc, list(self.vars), self.branch_timeout)
                if r.status == 'unsat': raise Infeasible()
                self.wit = r.env
            try: x = T.feval(a, self.wit or {})
            except (T.EvalError, KeyError): raise Unsupported('int() of symbolic value')
            # candidate must be deterministic across re-executions: stored as a choice
            ok, n = self._replay()
            if not ok:
                n = int(x)
                self.stack.append([n, []]); self.pos += 1
            if n > 0: c = (a >= n) & (a < n + 1)
            elif n < 0: c = (a > n - 1) & (a <= n)
            else: c = (a > -1) & (a < 1)
            if self.decide(c): return n
        raise Unsupported('int() of symbolic value: too many values')
    # ----- driver
    def next_path(self):
        """advance to the next unexplored path; False when done"""
        while self.stack:
            top = self.stack[-1]
            if top[1]:
                top[0] = top[1].pop(0)
                return True
            self.stack.pop()
        return False
