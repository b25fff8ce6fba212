"""Deciding obligations: z3 queries with cut points, counting what was asked and how long it took."""
import random
import time

from . import terms as T


class Stats:
    def __init__(self):
        self.queries = 0
        self.structural = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.merged = 0
        self.witnessed = 0

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.__dict__.items()}

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()
DEADLINE = [None]  # absolute time after which queries get only the minimum timeout


def _logic(roots):
    fp = u = False
    for t in T.order(roots):
        if t.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "itof", "ftoi", "ftof", "dy", "flt", "fle", "feq"):
            fp = True
        elif t.op == "uf":
            u = True
    if fp and u:
        return None
    return "QF_FPBV" if fp else ("QF_UFBV" if u else "QF_BV")


def remaining():
    return None if DEADLINE[0] is None else DEADLINE[0] - time.time()


class _Ints:
    """terms as integer expressions: exact where no wrap-around is possible, an arbitrary integer of the term's range
    elsewhere, so that a contradiction over the integers is one over the words"""

    def __init__(self):
        self.z3 = T.z3mod()
        self.memo, self.smemo, self.bmemo = {}, {}, {}
        self.facts = []
        self.n = 0

    def fresh(self, lo, hi):
        self.n += 1
        x = self.z3.Int(f"i!{self.n}")
        self.facts += [x >= lo, x <= hi]
        return x, lo, hi

    def val(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._val(t)
        return r

    def _lin(self, t):
        c, ks = t.p
        m = 1 << t.w
        sg = lambda k: k - m if k >> (t.w - 1) else k  # noqa: E731
        e, lo, hi = self.z3.IntVal(sg(c)), sg(c), sg(c)
        for k, a in zip(ks, t.args):
            k = sg(k)
            x, l, h = self.val(a)
            e = e + k * x
            lo, hi = lo + (k * l if k >= 0 else k * h), hi + (k * h if k >= 0 else k * l)
        return e, lo, hi

    def _val(self, t):
        z3, op = self.z3, t.op
        if op == "const":
            return z3.IntVal(t.p), t.p, t.p
        ulo, uhi = T.urange(t)
        if op == "concat":
            e, lo, hi, sh = z3.IntVal(0), 0, 0, 0
            for a in reversed(t.args):
                x, l, h = self.val(a)
                e, lo, hi = e + (x * (1 << sh) if sh else x), lo + (l << sh), hi + (h << sh)
                sh += a.w
            return e, lo, hi
        if op == "extract" and t.p[1] == 0:
            x, l, h = self.val(t.args[0])
            if h < 1 << t.w:
                return x, l, h
        if op == "lin":
            e, lo, hi = self._lin(t)
            if lo >= 0 and hi < 1 << t.w:
                return e, lo, hi
        if op == "sext" and T._nonneg(t.args[0]):
            return self.val(t.args[0])
        if op == "ite":
            (x, l, h), (y, m, k) = self.val(t.args[1]), self.val(t.args[2])
            return z3.If(self.bool(t.args[0]), x, y), min(l, m), max(h, k)
        if op == "mul":
            a, b = t.args
            p = self.fresh(0, uhi)
            la, lb = T.lzero(a), T.lzero(b)
            if 2 * t.w - la - lb <= t.w:
                (x, l, h), (y, m, k) = self.val(a), self.val(b)
                self.facts += [p[0] <= h * y, p[0] <= k * x, p[0] >= l * y, p[0] >= m * x,
                               self.z3.Implies(y >= 1, p[0] >= x), self.z3.Implies(x >= 1, p[0] >= y)]
            return p
        return self.fresh(ulo, uhi)

    def sval(self, t):
        r = self.smemo.get(t.id)
        if r is None:
            h = 1 << (t.w - 1)
            if T.is_const(t):
                v = T.sval(t)
                r = self.z3.IntVal(v), v, v
            elif T._nonneg(t):
                r = self.val(t)
            elif t.op == "sext":
                r = self.sval(t.args[0])
            else:
                if t.op == "lin":
                    r = self._lin(t)
                if r is None or r[1] < -h or r[2] >= h:
                    r = self.fresh(-h, h - 1)
            self.smemo[t.id] = r
        return r

    def bool(self, t):
        r = self.bmemo.get(t.id)
        if r is None:
            r = self.bmemo[t.id] = self._bool(t)
        return r

    def _bool(self, t):
        z3, op, a = self.z3, t.op, t.args
        if op == "const":
            return z3.BoolVal(bool(t.p))
        if op == "and":
            return z3.And(*[self.bool(x) for x in a])
        if op == "or":
            return z3.Or(*[self.bool(x) for x in a])
        if op == "xor":
            r = z3.BoolVal(bool(t.p))
            for x in a:
                r = z3.Xor(r, self.bool(x))
            return r
        if op == "ite":
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if op == "eq":
            if a[0].w == 1:
                return self.bool(a[0]) == self.bool(a[1])
            return self.val(a[0])[0] == self.val(a[1])[0]
        if op == "ult":
            return self.val(a[0])[0] < self.val(a[1])[0]
        if op == "slt":
            return self.sval(a[0])[0] < self.sval(a[1])[0]
        return z3.Bool(f"b!{t.id}")


def _integers_unsat(c, timeout):
    """True when c is contradictory over the integers"""
    z3 = T.z3mod()
    m = _Ints()
    b = m.bool(c)
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", int(timeout * 1000))
    s.add(b, *m.facts)
    t0 = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return True
    return False


def _products_unsat(c, timeout):
    """True when c is contradictory whatever the products in it are, given their linear bounds"""
    muls = [t for t in T.order([c]) if t.op == "mul"]
    if not muls:
        return False
    if _integers_unsat(c, timeout):
        return True
    sub = {t.id: T.var(f"product!{t.id}", t.w) for t in muls}
    facts = []
    for t in muls:
        a, b = t.args
        la, lb = T.lzero(a), T.lzero(b)
        if a.w * 2 - la - lb > t.w:
            continue
        w = t.w + 1
        for x, y, n in ((a, b, a.w - la), (b, a, b.w - lb)):
            # x * y <= (2**n - 1) * y, and not 0 unless a factor is
            bound = T.mul(T.zext(y, w), T.const((1 << n) - 1, w))
            facts.append((sub[t.id], bound, y))
    roots = T.substitute([c] + [b for _, b, _ in facts] + [y for _, _, y in facts], sub)
    n = len(facts)
    conds = [roots[0]] + [T.ule(T.zext(p, p.w + 1), b) for (p, _, _), b in zip(facts, roots[1:1 + n])]
    return check_sat(conds, timeout, want_model=False, linear=False)[0] == "unsat"


def check_sat(conds, timeout=20.0, want_model=True, linear=True):
    """('sat', env) | ('unsat', None) | ('unknown', None) for the conjunction of width-1 terms"""
    c = T.and_(*conds) if conds else T.TRUE
    if T.is_const(c):
        if c.p:
            return "sat", {}
        STATS.structural += 1
        return "unsat", None
    if linear and _products_unsat(c, min(2.0, timeout)):
        return "unsat", None
    z3 = T.z3mod()
    lg = _logic([c])
    s = z3.SolverFor(lg) if lg else z3.Solver()
    rem = remaining()
    if rem is not None:
        timeout = max(0.5, min(timeout, rem))
    s.set("timeout", int(timeout * 1000))
    parts = list(c.args) if c.op == "and" else [c]
    for p in parts:
        s.add(T.to_z3_bool(p))
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    if r == "sat":
        STATS.sat += 1
        if not want_model:
            return "sat", None
        env = model_env(s.model(), [c])
        if T.evaluate([c], env)[0] != 1:
            raise RuntimeError("model does not satisfy the query under the concrete semantics: " + T.show(c, 3))
        return "sat", env
    if r == "unsat":
        STATS.unsat += 1
        return "unsat", None
    STATS.unknown += 1
    return "unknown", None


def model_env(m, roots):
    z3 = T.z3mod()
    env = {}
    for t in T.order(roots):
        if t.op == "var":
            v = m.eval(T.to_z3(t), model_completion=True)
            env[t.p] = v.as_long()
        elif t.op == "uf" and t.p not in env:
            name = t.p
            fn = z3.Function(name, *[z3.BitVecSort(x.w) for x in t.args], z3.BitVecSort(t.w))
            ws = [x.w for x in t.args]

            def f(*a, fn=fn, ws=ws, m=m):
                return m.eval(fn(*[z3.BitVecVal(x, w) for x, w in zip(a, ws)]), model_completion=True).as_long()

            env[name] = f
    return env


def rand_value(rng, w):
    k = rng.random()
    if k < 0.12:
        return rng.choice([0, 1, T.mask(w), 1 << (w - 1), T.mask(w) >> 1])
    if k < 0.22:
        return rng.getrandbits(w) & T.mask(max(1, min(w, rng.randrange(1, 9))))
    return rng.getrandbits(w)


def sample_envs(assume, variables, n, rng, tries=40):
    """environments satisfying `assume` (random where that works, solver models otherwise)"""
    out = []
    for _ in range(n * tries):
        if len(out) >= n:
            break
        env = {v.p: rand_value(rng, v.w) for v in variables}
        if assume is T.TRUE or T.evaluate([assume], env)[0]:
            out.append(env)
    if not out and assume is not T.TRUE:
        r, env = check_sat([assume], 10)
        if r == "sat":
            for v in variables:
                env.setdefault(v.p, rng.getrandbits(v.w))
            out.append(env)
    # spread further samples by re-randomising single variables of one that satisfies
    if out and len(out) < n:
        for _ in range(n * 6):
            if len(out) >= n:
                break
            env = dict(rng.choice(out))
            v = rng.choice(variables)
            env[v.p] = rand_value(rng, v.w)
            if T.evaluate([assume], env)[0]:
                out.append(env)
    return out


def _cut(a, b, blind=False):
    """replace the maximal nodes shared by both cones by fresh variables (with blind, also unshared products)"""
    ca = {t.id for t in T.order([a])}
    cb = {t.id for t in T.order([b])}
    shared = ca & cb
    sub = {}
    side = []
    seen = set()
    stack = [a, b]
    hidden = False
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.id in shared and t.args and t.op not in ("extract", "concat") and t.id not in (a.id, b.id):
            v = T.var(f"cut!{t.id}", t.w)
            sub[t.id] = v
            lo, hi = T.urange(t)
            if hi < T.mask(t.w):
                side.append(T.ule(v, T.const(hi, t.w)))
            if lo > 0:
                side.append(T.ule(T.const(lo, t.w), v))
            z, o = T.known(t)
            z &= T.mask(hi.bit_length())
            if z:
                side.append(T.eq(T.and_(v, T.const(z, t.w)), T.const(0, t.w)))
            if o:
                side.append(T.eq(T.and_(v, T.const(o, t.w)), T.const(o, t.w)))
            continue
        if blind and t.op == "lin" and t.w >= 16 and t.id not in (a.id, b.id) and any(
                min(k, (1 << t.w) - k) >> 12 for k in t.p[1]):
            sub[t.id] = T.var(f"cut!{t.id}", t.w)
            hidden = True
            continue
        stack.extend(t.args)
    if not sub or blind and not hidden:
        return None
    na, nb = T.substitute([a, b], sub)
    return na, nb, side


def _try_equal(a, b, assume, timeout, full=True):
    if a is b:
        STATS.structural += 1
        return "valid", None
    c = _cut(a, b, blind=True)
    if c is not None:
        na, nb, side = c
        if na is nb or check_sat(side + [T.ne(na, nb)], min(timeout, 2.0), want_model=False)[0] == "unsat":
            return "valid", None
    c = _cut(a, b)
    if c is not None:
        na, nb, side = c
        if na is nb:
            STATS.structural += 1
            return "valid", None
        r, _ = check_sat(side + [T.ne(na, nb)], timeout, want_model=False)
        if r == "unsat":
            return "valid", None
        if not full:
            return "unknown", None
    r, env = check_sat([assume, T.ne(a, b)], timeout)
    if r == "unsat":
        return "valid", None
    if r == "sat":
        return "cex", env
    return "unknown", None


def _sweep(pairs, assume, envs, budget, q_timeout=1.0):
    """merge internal nodes with equal signatures bottom-up; returns the rewritten pairs"""
    t_end = time.time() + budget
    roots = [x for p in pairs for x in p]
    nodes = T.order(roots)
    vals = [T.eval_all(nodes, e) for e in envs]
    rep = {}
    classes = {}
    for t in nodes:
        if t.args:
            na = [rep[x.id] for x in t.args]
            n = t if all(x is y for x, y in zip(na, t.args)) else T.rebuild(t, na)
        else:
            n = t
        if t.w >= 5 and t.args:
            sig = (t.w, tuple(v[t.id] for v in vals))
            lst = classes.setdefault(sig, [])
            if any(x is n for x in lst):
                pass
            elif lst and time.time() < t_end and len(set(sig[1])) > 1:
                for x in lst[:3]:
                    # nested parts of the same expression are unlikely candidates when trivially different
                    r, _ = _try_equal(n, x, assume, q_timeout, full=T.size([n, x]) < 400)
                    if r == "valid":
                        n = x
                        STATS.merged += 1
                        break
                else:
                    lst.append(n)
            else:
                lst.append(n)
        rep[t.id] = n
    return [(rep[a.id], rep[b.id]) for a, b in pairs]


_PUSH = {"lin", "extract", "zext", "sext", "concat", "urem", "udiv", "lshr", "shl", "ashr", "xor", "and", "or", "add", "mul",
         "eq", "ult", "slt"}


def push_ites(terms, limit=8):
    """the same terms with operations on if-then-elses of few leaves applied to the leaves"""
    memo, leaves = {}, {}

    def nleaves(t):
        if t.op != "ite":
            return 1
        n = leaves.get(t.id)
        if n is None:
            n = leaves[t.id] = min(nleaves(t.args[1]), limit + 1) + min(nleaves(t.args[2]), limit + 1)
        return n

    def apply(t, na, seen):
        key = tuple(a.id for a in na)
        r = seen.get(key)
        if r is None:
            c = next((a.args[0] for a in na if a.op == "ite"), None)
            if c is None:
                r = T.rebuild(t, na)
            else:
                r = T.ite(c, *[apply(t, [a.args[k] if a.op == "ite" and a.args[0] is c else a for a in na], seen) for k in (1, 2)])
            seen[key] = r
        return r

    for t in T.order(terms):
        if not t.args:
            memo[t.id] = t
            continue
        na = [memo[a.id] for a in t.args]
        if t.op in _PUSH and not (t.w == 1 and t.op in ("and", "or", "xor")):
            n, conds = 1, set()
            for a in na:
                if a.op == "ite":
                    k = nleaves(a)
                    n = max(n, k) if conds <= {a.args[0].id} else n * k
                    conds.add(a.args[0].id)
            if 1 < n <= limit:
                memo[t.id] = apply(t, na, {})
                continue
        memo[t.id] = t if all(x is y for x, y in zip(na, t.args)) else T.rebuild(t, na)
    return [memo[t.id] for t in terms]


def prove_eqs(pairs, assume=T.TRUE, timeout=60.0, rng=None, sweep=True, known=()):
    """[(status, env)] for each pair of equal-width terms under `assume`"""
    rng = rng or random.Random(1)
    res = [None] * len(pairs)
    todo = []
    for i, (a, b) in enumerate(pairs):
        if a is b:
            STATS.structural += 1
            res[i] = ("valid", None)
        else:
            todo.append(i)
    if not todo:
        return res
    pushed = {}
    if any(t.op == "ite" for t in T.order([x for i in todo for x in pairs[i]])):
        flat = push_ites([x for i in todo for x in pairs[i]])
        for k, i in enumerate(todo):
            if flat[2 * k] is flat[2 * k + 1]:
                STATS.structural += 1
                res[i] = ("valid", None)
            elif flat[2 * k] is not pairs[i][0] or flat[2 * k + 1] is not pairs[i][1]:
                pushed[i] = (flat[2 * k], flat[2 * k + 1])
        todo = [i for i in todo if res[i] is None]
        if not todo:
            return res
    roots = [x for i in todo for x in pairs[i]] + [assume]
    vs = T.free_vars(roots)
    has_uf = any(t.op == "uf" for t in T.order(roots))
    envs = list(known) if known else [] if has_uf else sample_envs(assume, vs, 12, rng)
    suspect = {}
    for e in envs:
        vals = T.evaluate([x for i in todo for x in pairs[i]], e)
        for k, i in enumerate(todo):
            if i not in suspect and vals[2 * k] != vals[2 * k + 1]:
                suspect[i] = e
    # differing pairs: let the solver exhibit the counterexample
    for i in list(suspect)[:3]:
        a, b = pairs[i]
        r, env = check_sat([assume, T.ne(a, b)], min(timeout, 8.0))
        if r == "sat":
            for v in vs:
                env.setdefault(v.p, suspect[i].get(v.p, 0))
            res[i] = ("cex", env)
        else:
            res[i] = ("cex", dict(suspect[i], __by="evaluation"))
    for i in suspect:
        if res[i] is None:
            res[i] = ("cex", dict(suspect[i], __by="evaluation"))
    todo = [i for i in todo if res[i] is None]
    # easy ones directly
    hard = []
    for i in todo:
        a, b = pairs[i]
        if known and skeleton_unsat([assume, T.ne(a, b)]):
            res[i] = ("valid", None)
            continue
        r = _try_equal(a, b, assume, min(timeout, 4.0), full=T.size([a, b]) < 1500)
        if r[0] == "unknown" and i in pushed:
            r = _try_equal(*pushed[i], assume, min(timeout, 4.0))
        if r[0] == "unknown":
            hard.append(i)
            if len(hard) > 6:
                hard.extend(todo[todo.index(i) + 1:])
                break
        else:
            res[i] = r
    if hard and sweep and envs:
        sw = _sweep([pairs[i] for i in hard], assume, envs, budget=timeout)
        still = []
        for i, (a, b) in zip(hard, sw):
            r = _try_equal(a, b, assume, min(timeout, 8.0))
            if r[0] == "unknown":
                still.append(i)
            else:
                res[i] = r
        hard = still
    t_end = time.time() + timeout
    for i in hard:
        a, b = pairs[i]
        left = t_end - time.time()
        res[i] = _try_equal(a, b, assume, max(1.0, left)) if left > 0 else ("unknown", None)
    return res


def prove(goal, assume=T.TRUE, timeout=60.0):
    """('valid'|'cex'|'unknown', env) for assume -> goal"""
    r, env = check_sat([assume, T.not_(goal)], timeout)
    return {"unsat": ("valid", None), "sat": ("cex", env), "unknown": ("unknown", None)}[r]


def skeleton_unsat(conds, timeout=2.0):
    """True when the conditions contradict each other by their boolean structure alone"""
    conds = push_ites([c for c in conds if not T.is_const(c)])
    sub, seen, stack = {}, set(), list(conds)
    while stack:
        t = stack.pop()
        if t.id in seen or T.is_const(t):
            continue
        seen.add(t.id)
        if t.w == 1 and (t.op in ("and", "or", "not", "ite") or t.op == "xor"):
            stack.extend(t.args)
        elif t.args:
            sub[t.id] = T.var(f"atom!{t.id}", t.w)
    c = T.and_(*T.substitute(conds, sub)) if conds else T.TRUE
    if T.is_const(c):
        return c is T.FALSE
    return check_sat([c], timeout, want_model=False)[0] == "unsat"


class PathSolver:
    """feasibility of path conditions: a witness among known inputs, else the solver (unknown counts as feasible,
    which can only add paths to check)"""

    def __init__(self, assume=T.TRUE, timeout=10.0, pool=()):
        self.cache = {}
        self.timeout = timeout
        self.assume = assume
        self.pool = list(pool)
        self.masks = {}
        self.open = set()
        self.quick = False

    def _mask(self, t):
        m, n = self.masks.get(t.id, (0, 0))
        if n < len(self.pool):
            names = [v.p for v in T.free_vars([t])]
            for i in range(n, len(self.pool)):
                e = self.pool[i]
                if any(k not in e for k in names):
                    e = {**{k: 0 for k in names}, **e}
                if T.evaluate([t], e)[0]:
                    m |= 1 << i
            self.masks[t.id] = (m, len(self.pool))
        return m

    def _witness(self, conds):
        m = -1
        for t in conds:
            m &= self._mask(t) if not T.is_const(t) else -t.p
            if not m:
                break
        return m

    def feasible(self, conds, quick=False):
        """quick: an answer of True may be a guess (for decisions that are sound either way)"""
        c = T.and_(*conds) if conds else T.TRUE
        if c is T.FALSE:
            return False
        if T.is_const(c):
            return True
        r = self.cache.get(c.id)
        if r is None:
            if self.pool:
                if self._witness(conds):
                    STATS.witnessed += 1
                    self.cache[c.id] = True
                    return True
                if self._contradicts(conds):
                    self.cache[c.id] = False
                    return False
                if T.and_(*conds[:-1]).id in self.open:
                    # the path itself was not decided: it stays a path
                    self.open.add(c.id)
                    self.cache[c.id] = True
                    return True
                if quick and self.quick:
                    return True
                if skeleton_unsat(conds):
                    self.cache[c.id] = False
                    return False
            s, env = check_sat([c], self.timeout, want_model=bool(self.pool))
            if env and self.pool:
                self.pool.append(env)
            if s == "unknown":
                self.open.add(c.id)
            r = s != "unsat"
            self.cache[c.id] = r
        return r

    def examples(self, c, n=12):
        """known inputs that satisfy c"""
        m = self._witness([c])
        if m < 0:
            return self.pool[:n]
        names = [v.p for v in T.free_vars([c])]
        return [{**{k: 0 for k in names}, **self.pool[i]} for i in range(len(self.pool)) if m >> i & 1][:n]

    @staticmethod
    def _contradicts(conds):
        """the newest condition fails given the others, or the assumption given the path, by rewriting alone"""
        rest = [t for t in conds[:-1] if not T.is_const(t)]
        if rest and simplify_under(T.and_(*rest), [conds[-1]])[0] is T.FALSE:
            return True
        rest = [t for t in conds[1:] if not T.is_const(t)]
        return bool(rest) and not T.is_const(conds[0]) and simplify_under(T.and_(*rest), [conds[0]])[0] is T.FALSE


def _var_bits(c, kb):
    """known bits of variables implied by a width-1 conjunct: kb[var name] = [var, zeros, ones]"""
    def note(v, z, o):
        e = kb.setdefault(v.p, [v, 0, 0])
        e[1] |= z
        e[2] |= o

    neg = False
    if c.op == "xor" and len(c.args) == 1 and c.w == 1 and c.p == 1:
        neg, c = True, c.args[0]
    if c.op == "var" and c.w == 1:
        note(c, int(neg), int(not neg))
    elif c.op == "extract" and c.w == 1 and c.args[0].op == "var":
        b = 1 << c.p[1]
        note(c.args[0], b if neg else 0, 0 if neg else b)
    elif c.op == "eq" and not neg:
        a, b = c.args
        if T.is_const(a):
            a, b = b, a
        if T.is_const(b):
            if a.op == "var":
                note(a, ~b.p & T.mask(a.w), b.p)
            elif a.op == "extract" and a.args[0].op == "var":
                lo = a.p[1]
                note(a.args[0], (~b.p & T.mask(a.w)) << lo, b.p << lo)
            elif a.op == "concat":
                lo = 0
                for part in reversed(a.args):
                    v = T.extract_const(b.p, lo + part.w - 1, lo)
                    _var_bits(T.eq(part, T.const(v, part.w)), kb) if not T.is_const(part) else None
                    lo += part.w
    elif c.op == "ult" and not neg and c.args[0].op == "var" and T.is_const(c.args[1]):
        n = (c.args[1].p - 1).bit_length() if c.args[1].p else 0
        v = c.args[0]
        note(v, T.mask(v.w) & ~T.mask(n) if n else T.mask(v.w), 0)
    elif c.op == "ult" and neg and c.args[1].op == "var" and T.is_const(c.args[0]):
        # not (k < v): v <= k
        n = c.args[0].p.bit_length()
        v = c.args[1]
        note(v, T.mask(v.w) & ~T.mask(n), 0)
    elif c.op == "ule" and not neg and c.args[0].op == "var" and T.is_const(c.args[1]):
        n = c.args[1].p.bit_length()
        v = c.args[0]
        note(v, T.mask(v.w) & ~T.mask(n), 0)


def _var_range(c, kb):
    """bounds of variables: kb[name] grows to [var, zeros, ones, lo, hi]"""
    neg = False
    if c.op == "xor" and len(c.args) == 1 and c.w == 1 and c.p == 1:
        neg, c = True, c.args[0]
    if c.op not in ("ult", "slt", "eq"):
        return
    a, b = c.args

    def strip(t):
        while True:
            if t.op == "concat" and T.is_const(t.args[0]) and t.args[0].p == 0 and len(t.args) == 2:
                t = t.args[1]
            else:
                return t

    if c.op == "eq":
        k, x = (a, b) if T.is_const(a) else (b, a)
        x = strip(x)
        if T.is_const(k) and k.p == 0 and x.op == "extract" and x.args[0].op == "var" and x.p[0] == x.args[0].w - 1:
            v = x.args[0]
            e = kb.setdefault(v.p, [v, 0, 0])
            if len(e) == 3:
                e += [0, T.mask(v.w)]
            if neg:
                e[3] = max(e[3], 1 << x.p[1])
            else:
                e[4] = min(e[4], (1 << x.p[1]) - 1)
            return
    sa, sb = strip(a), strip(b)
    if c.op == "slt" and (sa is a and not T.is_const(a) or sb is b and not T.is_const(b)):
        return  # sign not known
    if sa.op == "var" and T.is_const(b):
        v, k, left = sa, b, True
    elif sb.op == "var" and T.is_const(a):
        v, k, left = sb, a, False
    else:
        return
    kv = T.sval(k) if c.op == "slt" else k.p
    e = kb.setdefault(v.p, [v, 0, 0])
    if len(e) == 3:
        e += [0, T.mask(v.w)]
    if c.op == "eq":
        if neg:
            if kv == e[3]:
                e[3] += 1
            if kv == e[4]:
                e[4] -= 1
        else:
            e[3], e[4] = max(e[3], kv), min(e[4], kv)
    elif left and not neg:      # v < k
        e[4] = min(e[4], kv - 1)
    elif left:                  # v >= k
        e[3] = max(e[3], kv)
    elif not neg:               # k < v
        e[3] = max(e[3], kv + 1)
    else:                       # v <= k
        e[4] = min(e[4], kv)


def _narrow_divs(terms, nonzero):
    """divisions by a value known not to be zero, at the width the operands need"""
    memo = {}
    for t in T.order(terms):
        if t.args:
            na = [memo[a.id] for a in t.args]
            n = t if all(x is y for x, y in zip(na, t.args)) else T.rebuild(t, na)
            if n.op == "udiv":
                a, b = n.args
                k = min(T.lzero(a), T.lzero(b))
                if 0 < k < n.w:
                    nb = T.extract(b, n.w - k - 1, 0)
                    x = nb
                    if nb.op == "concat" and T.is_const(nb.args[0]) and nb.args[0].p == 0:
                        x = T.concat(*nb.args[1:])
                    if nb.id in nonzero or x.id in nonzero or T.urange(nb)[0] > 0:
                        n = T.zext(T.udiv(T.extract(a, n.w - k - 1, 0), nb), n.w)
            memo[t.id] = n
        else:
            memo[t.id] = t
    return [memo[t.id] for t in terms]


def simplify_under(cond, terms):
    """terms rewritten with what the conjuncts of cond say about single variables and conditions"""
    parts = list(cond.args) if cond.op == "and" and cond.w == 1 else [cond]
    sub = {}
    kb = {}
    for c in parts:
        if T.is_const(c):
            continue
        _var_bits(c, kb)
        if c.op == "xor" and len(c.args) == 1 and c.p == 1:
            if c.args[0].op != "var":
                sub[c.args[0].id] = T.FALSE
        elif c.op == "eq" and T.is_const(c.args[1]) and c.args[0].args:
            sub[c.args[0].id] = c.args[1]
        elif c.op == "eq" and T.is_const(c.args[0]) and c.args[1].args:
            sub[c.args[1].id] = c.args[0]
        elif c.args:
            sub[c.id] = T.TRUE
    if sub:
        terms = T.substitute(terms, sub)
    for c in parts + parts:
        _var_range(c, kb)
    nz = set()
    for c in parts:
        if c.op == "xor" and len(c.args) == 1 and c.p == 1 and c.args[0].op == "eq" and c.w == 1:
            a, b = c.args[0].args
            if T.is_const(a) and a.p == 0:
                nz.add(b.id)
    if nz:
        terms = _narrow_divs(terms, nz)
    vs = {}
    for name, (v, z, o, *r) in kb.items():
        if r:
            lo, hi = r
            if lo > hi:
                return terms
            same = lo ^ hi
            top = T.mask(v.w) & ~T.mask(same.bit_length()) if same else T.mask(v.w)
            z |= ~lo & top
            o |= lo & top
        if z & o:
            return terms  # contradictory; the caller's queries settle it
        if not (z | o):
            continue
        segs = []
        i = v.w - 1
        while i >= 0:
            known = (z | o) >> i & 1
            j = i
            while j >= 0 and ((z | o) >> j & 1) == known:
                j -= 1
            lo = j + 1
            segs.append(T.const((o >> lo), i - lo + 1) if known else T.extract(v, i, lo))
            i = j
        vs[v.id] = T.concat(*segs)
    if vs:
        terms = T.substitute(terms, vs)
    return terms


def pin_vars(cond, terms, limit=6, timeout=3.0):
    """terms with the variables of cond that it forces to one value replaced by that value"""
    vs = T.free_vars([cond])
    if not vs or len(vs) > limit or cond is T.TRUE:
        return terms
    r, env = check_sat([cond], timeout)
    if r != "sat":
        return terms
    sub = {}
    for v in vs:
        val = env.get(v.p)
        if val is None:
            continue
        k = T.const(int(val), v.w)
        if check_sat([cond, T.ne(v, k)], timeout, want_model=False)[0] == "unsat":
            sub[v.id] = k
    return T.substitute(terms, sub) if sub else terms
