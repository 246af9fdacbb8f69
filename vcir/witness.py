"""Concrete inputs for a failed obligation: assignments of the unit's inputs that satisfy the facts of the failing path.
They are only candidates; prove.confirm runs them on the code built from the repository."""
import random
import time

from . import terms as T
from .fpoly import Q
from .terms import ATOMS, Poly, Unsupported, iv, NOFACTS

MAXC = 24


def ok(F, c, env, inputs):
    """the assignment follows the failing path and violates the obligation (None: cannot be evaluated)"""
    try:
        val = T.Valuation(env)
        for f in F.l:
            if not val.cond(f):
                return False
        if isinstance(c, tuple):
            return bool(val.cond(c))
        return True
    except Exception:
        return None


def atoms(u):
    """{atom id: name} of the integer inputs"""
    out = {}
    for x, nm in u.inputs:
        if isinstance(x, Poly) and len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and c == 1:
                out[m[0]] = nm
    return out


def pool(i, rnd):
    from .diff import raw_pool
    a = ATOMS[i]
    lo, hi = a.lo or 0, a.hi
    if hi is None:
        hi = (1 << 256) - 1
    if hi - lo < 300:
        return list(range(lo, hi + 1))
    p = [lo, lo + 1, hi, hi - 1]
    if hi > 1 << 200:
        p += [v for v in raw_pool(min(hi + 1, 1 << 256), rnd, 60) if lo <= v <= hi]
    p += [rnd.randint(lo, hi) for _ in range(30)]
    return p


def z3_models(F, c, ats, fixed, timeout):
    """assignments of ats from a model of the facts and c with some atoms fixed"""
    try:
        G = F.copy()
        for i, v in fixed.items():
            if not T.add_fact(G, T.ceq(G, T.psub(Poly({(i,): 1}), v))):
                return None
        conds = [c] if isinstance(c, tuple) and T.int_only(c) else []
        conds = [subst_cond(x, fixed) for x in conds]
        if any(x == 0 for x in conds if not isinstance(x, tuple)):
            return None
        H = T.Facts()
        H.iv = dict(G.iv)
        H.cst = dict(G.cst)
        H.l = []
        for f in G.l:
            if T.int_only(f):
                g = subst_cond(f, fixed)
                if isinstance(g, tuple):
                    H.l.append(g)
                elif not g:
                    return None
        z = T.Z3Ctx(H, timeout, True)
        for i in ats:
            if i not in fixed:
                z.atom(i)
        for x in conds + H.l:
            if isinstance(x, tuple):
                z.s.add(z.cond(x))
        if str(z.s.check()) != 'sat':
            return None
        m = z.s.model()
        env = dict(fixed)
        for i in ats:
            if i not in env:
                v = m.eval(z.atom(i), model_completion=True)
                env[i] = v.as_long()
        return env
    except (Unsupported, AttributeError):
        return None


def subst_cond(c, env):
    if not env or not isinstance(c, tuple):
        return c
    if c[0] in ('and', 'or'):
        xs = [subst_cond(x, env) for x in c[1:]]
        return (T.cand if c[0] == 'and' else T.cor)(*xs)
    p = T.subst_const(c[1], env) if isinstance(c[1], Poly) else c[1]
    if not isinstance(p, Poly):
        return int(p >= 0) if c[0] == 'ge' else int((p == 0) == (c[0] == 'eq'))
    return T.cge(NOFACTS, p) if c[0] == 'ge' else T.ceq(NOFACTS, p) if c[0] == 'eq' else T.cneg(T.ceq(NOFACTS, p))


def find(u, F, c, budget=20):
    """[{name: value}], the most promising first"""
    ats = atoms(u)
    if not ats:
        return [] if u.inputs else [{}]
    rnd = random.Random(5)
    end = time.time() + budget
    good, maybe = [], []

    def consider(env):
        if env is None:
            return
        for i in ats:
            a = ATOMS[i]
            if (a.lo is not None and env[i] < a.lo) or (a.hi is not None and env[i] > a.hi):
                return
        r = ok(F, c, env, ats)
        d = {ats[i]: env[i] for i in ats}
        if r:
            if d not in good:
                good.append(d)
        elif r is None or len(maybe) < 6:
            if d not in maybe and len(maybe) < MAXC:
                maybe.append(d)
    consider(z3_models(F, c, ats, {}, 5000))
    pools = {i: pool(i, rnd) for i in ats}
    ids = sorted(ats)
    # known constants of the path
    fixed0 = {i: v for i, v in F.cst.items() if i in ats}
    if len(ids) > 1:
        for k in range(40):
            if len(good) >= 6 or time.time() > end:
                break
            i = ids[k % len(ids)]
            fx = dict(fixed0)
            for j in ids:
                if j != i and j not in fx:
                    fx[j] = rnd.choice(pools[j])
            consider(z3_models(F, c, ats, fx, 1500))
    t = min(end, time.time() + 5)
    while len(good) < 6 and time.time() < t:
        env = {j: fixed0.get(j, rnd.choice(pools[j])) for j in ids}
        if ok(F, c, env, ats):
            consider(env)
    return good[:8] + maybe[:MAXC - 8]


# ---------------------------------------------------------------- field inputs
def pgcd(a, b, p):
    while b:
        a, b = b, prem(a, b, p)
    return a


def ptrim(a):
    while a and not a[-1]:
        a.pop()
    return a


def prem(a, b, p):
    a = list(a)
    i = pow(b[-1], -1, p)
    while len(a) >= len(b):
        c = a[-1] * i % p
        if c:
            d = len(a) - len(b)
            for k, x in enumerate(b):
                a[d + k] = (a[d + k] - c * x) % p
        a.pop()
    return ptrim(a)


def pmulm(a, b, m, p):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return prem(ptrim([x % p for x in r]), m, p)


def ppow(a, e, m, p):
    r = [1]
    while e:
        if e & 1:
            r = pmulm(r, a, m, p)
        a = pmulm(a, a, m, p)
        e >>= 1
    return r


def proots(a, p, rnd):
    """roots in GF(p) of a polynomial given by coefficients, lowest first"""
    a = ptrim([x % p for x in a])
    if len(a) < 2:
        return []
    if len(a) == 2:
        return [-a[0] * pow(a[1], -1, p) % p]
    x = ppow([0, 1], p, a, p)
    x = x + [0] * (2 - len(x))
    x[1] = (x[1] - 1) % p
    g = pgcd(a, ptrim(x), p)
    out, work = [], [g]
    for _ in range(200):
        if not work:
            break
        g = work.pop()
        if len(g) < 2:
            continue
        if len(g) == 2:
            out.append(-g[0] * pow(g[1], -1, p) % p)
            continue
        h = ppow([rnd.randrange(p), 1], (p - 1) // 2, g, p)
        h = h + [0] * (1 - len(h))
        h[0] = (h[0] - 1) % p
        h = pgcd(g, ptrim(h), p)
        if not 1 < len(h) < len(g):
            work.append(g)
            continue
        q, r = [], list(g)
        i = pow(h[-1], -1, p)
        while len(r) >= len(h):
            c = r[-1] * i % p
            q.append(c)
            d = len(r) - len(h)
            for k, y in enumerate(h):
                r[d + k] = (r[d + k] - c * y) % p
            r.pop()
        work += [h, ptrim(q[::-1])]
    return out


def ffind(u, F, c, budget=15):
    """assignments of the field inputs of u that follow the failing path"""
    from . import fpoly as FP
    p = FP.Q
    rnd = random.Random(11)
    end = time.time() + budget
    ids = [i for i, _ in u.finputs]
    names = dict(u.finputs)
    groups = getattr(u, 'fgroups', None)

    def elem():
        k = rnd.randrange(8)
        if k == 0:
            return (0, 0)
        if k == 1:
            return (rnd.choice([1, p - 1, 2]), 0)
        if k == 2:
            return (rnd.choice([0, 1, p - 1]), rnd.choice([1, p - 1]))
        if k == 3:
            return (rnd.randrange(p), 0)
        return (rnd.randrange(p), rnd.randrange(p))

    def complete(v):
        env = {}
        for i in ids:
            env[i] = v[i]
            j = ATOMS[i].cj if ATOMS[i].kind == 'f' else i
            if j != i:
                env[j] = FP.cmul(FP.FQ, (1, 0), (v[i][0], -v[i][1] % p))
            elif ATOMS[i].data and not ATOMS[i].data[1]:
                env[i] = (v[i][0], 0)
                v[i] = env[i]
        return env
    eqs = [f for f in F.l if isinstance(f, tuple) and f[0] == 'feq' and f[1].f is FP.FQ]

    def value(P, env):
        return FP.feval(P, T.Valuation(env).pair)

    def solve(v):
        """repair the unsatisfied equations one after the other"""
        used = set()
        for _ in range(len(eqs) + 1):
            env = complete(v)
            todo = [e for e in eqs if value(e[1], env) != (0, 0)]
            if not todo:
                return True
            P = todo[0][1]
            occ = FP.fatoms(P)
            cand = [i for i in ids if i not in used and (i in occ or (ATOMS[i].cj in occ))]
            rnd.shuffle(cand)
            done = False
            for i in cand:
                real = ATOMS[i].cj == i
                for axis in ((0,) if real else (0, 1)):
                    # values of P along one coordinate, interpolated
                    deg = max(sum(1 for j in m if j in (i, ATOMS[i].cj)) for m in P.t)
                    pts = []
                    for x in range(deg + 1):
                        w = dict(v)
                        w[i] = (x, v[i][1]) if axis == 0 else (v[i][0], x)
                        pts.append(value(P, complete(w)))
                    co = [interp([q[k] for q in pts], p) for k in (0, 1)]
                    co = [q for q in co if q]
                    if not co:
                        continue
                    g = co[0] if len(co) == 1 else pgcd(co[0], co[1], p)
                    rs = proots(g, p, rnd)
                    if rs:
                        r = rnd.choice(rs)
                        v[i] = (r, v[i][1]) if axis == 0 else (v[i][0], r)
                        used.add(i)
                        done = True
                        break
                if done:
                    break
                # linear in the whole value
                if not real and all(sum(1 for j in m if j == i) <= 1 and ATOMS[i].cj not in m for m in P.t):
                    w = dict(v)
                    w[i] = (0, 0)
                    b = value(P, complete(w))
                    w[i] = (1, 0)
                    a = value(P, complete(w))
                    a = ((a[0] - b[0]) % p, (a[1] - b[1]) % p)
                    if a != (0, 0):
                        v[i] = FP.cmul(FP.FQ, ((-b[0]) % p, (-b[1]) % p), FP.cinv(FP.FQ, a))
                        used.add(i)
                        done = True
                        break
            if not done:
                return False
        return False
    out, maybe = [], []
    while time.time() < end and len(out) < 6:
        v = {i: elem() for i in ids}
        if rnd.randrange(4) == 0 and len(ids) > 1:      # equal and opposite values
            i, j = rnd.sample(ids, 2)
            v[i] = v[j] if rnd.randrange(2) else (-v[j][0] % p, -v[j][1] % p)
        try:
            if eqs and not solve(v):
                continue
            r = ok(F, c, complete(v), ids)
        except (KeyError, ValueError, ZeroDivisionError, Unsupported):
            continue
        d = {names[i]: v[i] for i in ids}
        if r:
            if d not in out:
                out.append(d)
        elif r is None and len(maybe) < 6:
            maybe.append(d)
    return out + maybe


def interp(ys, p):
    """coefficients of the polynomial through (0, y0), (1, y1), ..."""
    n = len(ys)
    out = [0] * n
    basis = [1]
    # Newton form
    d = list(ys)
    co = []
    for k in range(n):
        co.append(d[0] % p)
        d = [(d[j + 1] - d[j]) * pow(k + 1, -1, p) % p for j in range(len(d) - 1)]
    for k in range(n):
        for j, b in enumerate(basis):
            out[j] = (out[j] + co[k] * b) % p
        basis = [(x - k * y) % p for x, y in zip([0] + basis, basis + [0])]
    return ptrim(out)


def counterexample(u, F, c, budget=8):
    """an assignment of the inputs of a function under contract, evaluated: it follows the failing path and violates the
    condition; None when there is none among those tried"""
    end = time.time() + budget
    if u.inputs:
        ats = atoms(u)
        for env in find(u, F, c, budget / 2):
            e = {i: env[nm] for i, nm in ats.items()}
            if ok(F, c, e, ats):
                return {nm: str(v) for nm, v in env.items()}
    ids = list(u.finputs)
    for pt, _ in u.points:
        ids += [(i, ATOMS[i].name) for i in pt]
    if ids:
        class V:
            finputs = ids
        rest = max(1, end - time.time())
        for env in ffind(V, F, c, rest):
            by = {nm: i for i, nm in ids}
            full = {}
            for nm, v in env.items():
                full[by[nm]] = v
                j = ATOMS[by[nm]].cj
                if j != by[nm]:
                    full[j] = (v[0], -v[1] % Q)
            if ok(F, c, full, None):
                return {nm: '%d + %d i' % v for nm, v in env.items()}
    return None
