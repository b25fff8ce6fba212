"""Path exploration by re-execution: the code under test runs natively on symbolic values and
asks this context for every branch that depends on them."""
import sys
import time

from . import terms as T
from . import solve


class EngineError(BaseException):
    """the engine cannot follow the code (not an outcome of the code)"""


class Unsupported(EngineError):
    pass


class BoundExceeded(EngineError):
    pass


class Infeasible(EngineError):
    pass


class MergeAbort(EngineError):
    pass


class PathLimit(EngineError):
    pass


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self, assume=T.TRUE, unroll=400, max_paths=4000, merge=True, deadline=None, max_values=64,
              pool=(), feas_timeout=10.0, quick=False):
        self.assume = assume
        self.pc = []
        self.implied = []
        self.trace = []      # decisions of this run: (kind, value)
        self.prefix = []
        self.work = []
        self.unroll = unroll
        self.max_values = max_values
        self.max_paths = max_paths
        self.merge = merge
        self.site_count = {}
        self.blacklist = set()
        self.journals = []   # stack of merge arms
        self.arm_pc = []
        self.deadline = deadline
        self.decisions = 0
        self.ps = solve.PathSolver(pool=pool, timeout=feas_timeout)
        self.ps.quick = quick
        self.active = False
        self.bounded = 0

    # ------------------------------------------------------------------ branching
    def conds(self):
        return [self.assume] + self.pc + self.arm_pc

    def _site(self):
        f = sys._getframe(2)
        while f is not None and "/vlib/" in f.f_code.co_filename:
            f = f.f_back
        return (f.f_code.co_filename, f.f_lineno, f.f_lasti) if f else None

    def branch(self, t):
        """truth of a width-1 term on this path"""
        if T.is_const(t):
            return bool(t.p)
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time")
        if self.journals:
            # inside a merge arm: only a forced outcome may be used
            base = self.conds()
            if not self.ps.feasible(base + [T.not_(t)]):
                return True
            if not self.ps.feasible(base + [t]):
                return False
            raise MergeAbort("branch inside merged arm")
        i = len(self.trace)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
            self.trace.append((val, forced))
            (self.implied if forced else self.pc).append(t if val else T.not_(t))
            self._count(self._site(), forced)
            return val
        base = self.conds()
        nt = T.not_(t)
        ft = self.ps.feasible(base + [t])
        ff = self.ps.feasible(base + [nt])
        if not ft and not ff:
            raise Infeasible()
        if ft and ff:
            self._count(self._site(), False)
            self.decisions += 1
            self.work.append(self.trace + [(False, False)])
            self.trace.append((True, False))
            self.pc.append(t)
            return True
        self.trace.append((ft, True))
        self.implied.append(t if ft else nt)
        return ft

    def _count(self, site, forced):
        if forced:
            return
        n = self.site_count.get(site, 0) + 1
        self.site_count[site] = n
        if n > self.unroll:
            self.bounded += 1
            raise BoundExceeded(f"more than {self.unroll} symbolic decisions at {site}")

    def concretise(self, t, signed=False):
        """pick a value of t (forks over its feasible values)"""
        if T.is_const(t):
            return T.sval(t) if signed else t.p
        if self.journals:
            raise MergeAbort("concretisation inside merged arm")
        for _ in range(self.max_values):
            i = len(self.trace)
            if i < len(self.prefix):
                ent = self.prefix[i]
                if ent[0] == "val":
                    v = ent[1]
                    take = ent[2]
                    self.trace.append(ent)
                    c = T.eq(t, T.const(v, t.w))
                    self.pc.append(c if take else T.not_(c))
                    if take:
                        return (v - (1 << t.w) if signed and v >> (t.w - 1) else v)
                    continue
            r, env = solve.check_sat(self.conds(), 10)
            if r != "sat":
                if r == "unsat":
                    raise Infeasible()
                raise Unsupported("cannot enumerate values")
            v = T.evaluate([t], env)[0]
            c = T.eq(t, T.const(v, t.w))
            self.decisions += 1
            if self.ps.feasible(self.conds() + [T.not_(c)]):
                self.work.append(self.trace + [("val", v, False)])
            self.trace.append(("val", v, True))
            self.pc.append(c)
            return (v - (1 << t.w) if signed and v >> (t.w - 1) else v)
        raise Unsupported(f"too many values for a concretised term {T.show(t, 2)}")

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        """[(pc term, outcome)] of every feasible path; outcome = ('ok', value) | ('exc', exception) |
        ('bound', error).  A merge that turns out impossible restarts the whole exploration with that
        site forking, so that recorded decisions always replay against the same sites."""
        for _ in range(400):
            try:
                return list(self._run(fn))
            except MergeAbort as e:
                site = getattr(e, "site", None)
                if site is None or site in self.blacklist:
                    raise Unsupported(f"merge cannot be given up at {site}: {e}")
                self.blacklist.add(site)
        raise Unsupported("too many merge restarts")

    def _run(self, fn):
        self.work = [[]]
        self.active = True
        n = 0
        try:
            while self.work:
                self.prefix = self.work.pop()
                self.pc, self.trace, self.site_count = [], [], {}
                self.implied = []  # outcomes of forced branches: they follow from the path condition
                self.journals, self.arm_pc = [], []
                self.fresh = 0
                try:
                    out = ("ok", fn())
                except Infeasible:
                    continue
                except BoundExceeded as e:
                    out = ("bound", e)
                except EngineError:
                    raise
                except RecursionError:
                    raise Unsupported("recursion")
                except Exception as e:  # noqa: BLE001 - outcome of the code under test
                    out = ("exc", e)
                    if __import__("os").environ.get("TB"):
                        __import__("traceback").print_exc()
                n += 1
                yield T.and_(*self.pc, *self.implied) if self.pc or self.implied else T.TRUE, out
                if n >= self.max_paths and self.work:
                    raise PathLimit(f"{n} paths")
        finally:
            self.active = False


CTX = Ctx()
