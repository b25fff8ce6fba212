"""Obligations: one piece of real code, symbolic inputs, and what must hold of every outcome."""
from . import terms as T

ALL = ("numpy", "numba")


class Ob:
    """One query family over one harness.

    src      harness source defining `h(inp, out)`; inp/out are uint64 arrays (inp[i] = input i,
             zero-extended); the same text is run by both engines, the real package and the replay
    ins      [(name, width)]
    nout     number of outputs
    spec     spec(v) -> list of nout terms (None = not constrained)
    post     post(v, out) -> list of (label, width-1 term) that must all be true
    assume   assume(v) -> width-1 term
    raises   raises(v) -> width-1 term: exactly there the code must raise
    """

    def __init__(self, name, src, ins, nout=1, spec=None, post=None, assume=None, raises=None, modes=ALL, bounds="",
                 tier="quick", timeout=60, wall=150, merge=True, unroll=400, max_paths=3000, samples=12, exc=None,
                 may_raise=None, hints=None, max_values=64, weight=1, stubs=None, tactic=None, sound_note=None,
                 extra_samples=None, pool=0, feas_timeout=10.0):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})

    def vars(self):
        return [T.var(n, w) for n, w in self.ins]

    def v(self):
        return {n: T.var(n, w) for n, w in self.ins}

    def assume_t(self):
        return self.assume(self.v()) if self.assume else T.TRUE

    def raises_t(self):
        return self.raises(self.v()) if self.raises else T.FALSE

    def goals(self, out):
        """[(label, a, b)]: outputs and what they must equal"""
        v = self.v()
        g = []
        if self.spec:
            s = self.spec(v)
            if len(s) != self.nout:
                raise AssertionError(f"{self.name}: spec has {len(s)} outputs, harness {self.nout}")
            for i, (o, e) in enumerate(zip(out, s)):
                if e is not None:
                    if e.w != 64:
                        e = T.zext(e, 64)
                    g.append((f"out[{i}]", o, e))
        if self.post:
            for lab, t in self.post(v, out):
                g.append((lab, t, T.TRUE))
        return g

    def judge(self, env, outcome):
        """list of complaints about a concrete outcome ('ok', [ints]) | ('exc', name)"""
        env = {n: int(env.get(n, 0)) & T.mask(w) for n, w in self.ins}
        a = T.evaluate([self.assume_t()], env)[0]
        if not a:
            return []
        must = T.evaluate([self.raises_t()], env)[0]
        if outcome[0] == "exc":
            if must:
                return []
            return [f"raised {outcome[1]}"]
        if must:
            return [f"returned {[hex(x) for x in outcome[1]]} where an exception is required"]
        bad = []
        outs = [T.const(x, 64) for x in outcome[1]]
        gs = self.goals(outs)
        vals = T.evaluate([t for _, a, b in gs for t in (a, b)], env)
        for i, (lab, a, b) in enumerate(gs):
            x, y = vals[2 * i], vals[2 * i + 1]
            if x != y:
                bad.append(f"{lab} = {x:#x}, must be {y:#x}" if b.w > 1 else f"{lab} does not hold "
                           f"(outputs {[hex(o) for o in outcome[1][:40]]})")
        return bad


class Check:
    """everything that decides one property"""

    def __init__(self, pid, obs, assumptions=(), outside="", custom=None):
        self.pid, self.obs, self.assumptions, self.outside, self.custom = pid, obs, list(assumptions), outside, custom
        names = [o.name for o in obs]
        assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
