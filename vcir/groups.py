"""Contracts of the two curve groups over Jacobian coordinates.  (X, Y, Z) denotes the identity when Z = 0 and the affine
point (X/Z^2, Y/Z^3) otherwise; every coordinate is a free field element, so nothing depends on the representation."""
import random
import time

from . import diff, fpoly as FP, terms as T, witness
from .diff import Case, I, IO, O, eqb, eqr
from .exec import El, St, decide, to_cond
from .fields import FE, canonical_post, fp_input, get_el, put_el
from .fpoly import FQ, Q
from .spec import E1, E2
from .terms import ATOMS, Unsupported, add_fact, cneg
from .unit import paths

GR = 'rabe_bn::groups::'


class Grp:
    def __init__(self, name, sort, C, pre, params):
        self.name, self.sort, self.C, self.pre, self.ty = name, sort, C, pre, '%sG<%s%s>' % (GR, GR, params)
        self.size = C.size

    def const(self, v):
        return FP.const(FQ, v) if self.sort == 'Fq' else FP.const(FQ, *v)


GROUPS = [Grp('G1', 'Fq', E1, 'vp_g1_', 'G1Params'), Grp('G2', 'Fq2', E2, 'vp_g2_', 'G2Params')]
m, a_, s_ = FP.mul, FP.add, FP.sub


def coords(u, ex, st, g, nm):
    """a point with free coordinates: (pointer, (X, Y, Z))"""
    p = ex.new_obj(st, 3 * g.size, nm)
    out = []
    ids = []
    for k, c in enumerate('xyz'):
        v = FP.fvar(FQ, nm + c, g.sort == 'Fq2')
        (i,), = v.t
        ids.append(i)
        put_el(ex, st, p + k * g.size, g.sort, v)
        out.append(v)
    u.points.append((ids, g.C))
    return p, tuple(out)


def read(ex, s, g, p):
    return tuple(get_el(ex, s, p + k * g.size, g.sort) for k in range(3))


def fz(v):
    return ('feq', FP.monic(v)) if not v.isconst() else int(not v.t)


def branch(s, c):
    """[(state, truth of c)] for the values c can take"""
    r = decide(s.F, c)
    if r is not None:
        return [(s, r)]
    out = []
    for v, k in ((c, 1), (cneg(c), 0)):
        s2 = s.fork()
        if add_fact(s2.F, v):
            out.append((s2, k))
    return out


def assume(s, c):
    """a fact about every pair of valid points; False: the state describes none"""
    r = decide(s.F, c)
    return True if r == 1 else False if r == 0 else add_fact(s.F, c)


def cases(s, conds):
    """states split by the conditions"""
    out = [(s, ())]
    for c in conds:
        out = [(s3, t + (k,)) for s2, t in out for s3, k in branch(s2, c)]
    return out


def common(P, R):
    """u1, u2, s1, s2: coordinates over the common denominator Z1*Z2"""
    X1, Y1, Z1 = P
    X2, Y2, Z2 = R
    za, zb = m(Z1, Z1), m(Z2, Z2)
    return m(X1, zb), m(X2, za), m(Y1, m(zb, Z2)), m(Y2, m(za, Z1))


def chord(P, R):
    """sum of two points with different x"""
    u1, u2, s1, s2 = common(P, R)
    h, r = s_(u2, u1), s_(s2, s1)
    hh = m(h, h)
    v = m(u1, hh)
    x = s_(s_(m(r, r), m(hh, h)), a_(v, v))
    return x, s_(m(r, s_(v, x)), m(s1, m(hh, h))), m(m(P[2], R[2]), h)


def tangent(P):
    """double of a point (for y = 0 the third coordinate is zero: the identity)"""
    X, Y, Z = P
    e = FP.scale(m(X, X), (3, 0))
    yy = m(Y, Y)
    d = FP.scale(m(X, yy), (4, 0))
    x = s_(m(e, e), a_(d, d))
    return x, s_(m(e, s_(d, x)), FP.scale(m(yy, yy), (8, 0))), FP.scale(m(Y, Z), (2, 0))


def neg(P):
    return P[0], FP.neg(P[1]), P[2]


def denotes(u, ex, s, got, want, what):
    """got denotes the point want (Jacobian, its Z may vanish on the path; None: the identity)"""
    X, Y, Z = got
    if want is None:
        u.post(ex, s, fz(Z), what + ': the identity')
        return
    x, y, z = want
    for s2, k in branch(s, fz(z)):
        if k:
            u.post(ex, s2, fz(Z), what + ': the identity')
            continue
        u.post(ex, s2, _not(fz(Z)), what + ': not the identity')
        q = FP_div(Z, z)
        if q is not None:
            qq = m(q, q)
            u.feq(ex, s2, X, m(qq, x), what + ': x')
            u.feq(ex, s2, Y, m(m(qq, q), y), what + ': y')
            continue
        q = FP_div(z, Z)
        if q is not None:
            qq = m(q, q)
            u.feq(ex, s2, m(qq, X), x, what + ': x')
            u.feq(ex, s2, m(m(qq, q), Y), y, what + ': y')
            continue
        zz, ZZ = m(z, z), m(Z, Z)
        u.feq(ex, s2, m(X, zz), m(x, ZZ), what + ': x')
        u.feq(ex, s2, m(m(Y, zz), z), m(m(y, ZZ), Z), what + ': y')


def FP_div(a, b):
    from .exec import exact_div
    if b.isconst():
        return FP.scale(a, FP.cinv(FQ, b.const())) if b.t else None
    if not a.t:
        return None
    try:
        return exact_div(a, b)
    except (Unsupported, ValueError):
        return None


def _not(c):
    return cneg(c) if isinstance(c, tuple) else 1 - c


def bind(env, v, w):
    """substitute w for the atom of v (v = c*atom)"""
    (k, c), = v.t.items()
    w = FP.scale(w, FP.cinv(FQ, c))
    env[k[0]] = w
    if ATOMS[k[0]].cj != k[0]:
        env[ATOMS[k[0]].cj] = FP.conj(w)


def sum_post(u, ex, s, got, P, R, what):
    """got is the sum of the points with coordinates P and R"""
    for s1, z in cases(s, [fz(P[2]), fz(R[2])]):
        if z[0]:
            denotes(u, ex, s1, got, None if z[1] else R, what)
        elif z[1]:
            denotes(u, ex, s1, got, P, what)
        else:
            u1, u2, t1, t2 = common(P, R)
            # no point of either curve has order two (the orders are odd)
            if not (assume(s1, _not(fz(P[1]))) and assume(s1, _not(fz(R[1])))):
                continue
            for s2, k in branch(s1, fz(s_(u1, u2))):
                if not k:
                    denotes(u, ex, s2, got, chord(P, R), what + ' (different x)')
                    continue
                for s3, e in branch(s2, fz(s_(t1, t2))):
                    # points with the same x are equal or opposite, and not both
                    if not assume(s3, _not(fz(a_(t1, t2))) if e else fz(a_(t1, t2))):
                        continue
                    if e:
                        # the same point: R = (K^2 X, K^3 Y, K Z) for some K that is not zero
                        K = FP.fvar(FQ, 'k', ATOMS[next(iter(P[2].t))[0]].cj != next(iter(P[2].t))[0])
                        add_fact(s3.F, _not(fz(K)))
                        kk = m(K, K)
                        env = {}
                        for v, w in zip(R, (m(kk, P[0]), m(m(kk, K), P[1]), m(K, P[2]))):
                            bind(env, v, w)
                        for c in list(s3.F.l):
                            if c[0] == 'feq' and any(i in env for i in FP.fatoms(c[1])):
                                assume(s3, fz(FP.fsubst(c[1], env)))
                        denotes(u, ex, s3, tuple(FP.fsubst(x, env) for x in got), tangent(P), what + ' (equal points)')
                    else:
                        denotes(u, ex, s3, got, None, what + ' (opposite points)')


# ---------------------------------------------------------------- concrete points for failed obligations
def finder(u, mk):
    """native cases from points in representations that follow the failing path"""
    def find(F, c, budget=6):
        rnd = random.Random(3)
        end = time.time() + budget
        out, maybe = [], []
        eqs = [f[1] for f in F.l if isinstance(f, tuple) and f[0] == 'feq']
        pts = {id(C): diff.special_points(C, rnd) for _, C in u.points}

        def pair(C, v):
            return v if C is E2 else (v, 0)

        def env_of(sel):
            env = {}
            for (ids, C), (p, z, junk) in zip(u.points, sel):
                if p is None:
                    x, y = junk
                    v = (x, y, C.z)
                else:
                    z2 = C.fmul(z, z)
                    v = (C.fmul(p[0], z2), C.fmul(p[1], C.fmul(z2, z)), z)
                for i, w in zip(ids, v):
                    w = pair(C, w)
                    env[i] = w
                    j = ATOMS[i].cj
                    if j != i:
                        env[j] = (w[0], -w[1] % Q)
            return env

        def draw():
            sel = []
            for ids, C in u.points:
                k = rnd.randrange(10)
                if k == 0:
                    sel.append((None, None, (rnd.choice([C.z, C.o, diff.rand_f(C, rnd)]), rnd.choice([C.z, C.o, diff.rand_f(C, rnd)]))))
                    continue
                p = rnd.choice(pts[id(C)])
                if sel and sel[0][0] is not None and k < 6:
                    p = sel[0][0]
                    if k == 1:
                        p = C.neg(p)
                    elif k == 2:
                        p = C.add(p, p) or p
                    elif k == 3:
                        w = pow(2, (Q - 1) // 3, Q)
                        p = (C.fmul(w if C is E1 else (w, 0), p[0]), p[1])
                z = diff.zs(C, rnd)
                if sel and sel[0][1] is not None and rnd.random() < .5:
                    z = rnd.choice([sel[0][1], C.fsub(C.z, sel[0][1])])
                sel.append((p, z, None))
            return sel

        def repair(sel):
            """choose third coordinates (or points) so that an unsatisfied equation holds"""
            for e in eqs:
                if FP.feval(e, T.Valuation(env_of(sel)).pair) == (0, 0):
                    continue
                order = [k for k in range(len(sel)) if sel[k][0] is not None]
                rnd.shuffle(order)
                hit = False
                for k in order:
                    C = u.points[k][1]
                    deg = 3 * max(len(x) for x in e.t)
                    if deg > 40:
                        continue
                    for axis in ((0,) if C is E1 else (0, 1)):
                        pts_ = []
                        for x in range(deg + 1):
                            z = x if C is E1 else (x, sel[k][1][1]) if axis == 0 else (sel[k][1][0], x)
                            t = list(sel)
                            t[k] = (sel[k][0], z, None)
                            pts_.append(FP.feval(e, T.Valuation(env_of(t)).pair))
                        co = [witness.interp([q[j] for q in pts_], Q) for j in (0, 1)]
                        co = [q for q in co if q]
                        if not co:
                            continue
                        gcd = co[0] if len(co) == 1 else witness.pgcd(co[0], co[1], Q)
                        for r in witness.proots(gcd, Q, rnd):
                            z = r if C is E1 else (r, sel[k][1][1]) if axis == 0 else (sel[k][1][0], r)
                            if z not in (0, (0, 0)):
                                sel[k] = (sel[k][0], z, None)
                                hit = True
                                break
                        if hit:
                            break
                    if hit:
                        break
                if not hit:
                    return False
            return True
        n = 0
        while time.time() < end and len(out) < 4 and n < 400:
            n += 1
            sel = draw()
            try:
                r = witness.ok(F, c, env_of(sel), None)
                if not r and n > 40 and eqs and repair(sel):
                    r = witness.ok(F, c, env_of(sel), None)
            except (KeyError, ValueError, ZeroDivisionError):
                continue
            if r or (r is None and len(maybe) < 4):
                (out if r else maybe).append(mk(*[(p, C.img(p, z, junk)) for (_, C), (p, z, junk) in zip(u.points, sel)]))
        return out + maybe
    return find


# ---------------------------------------------------------------- roots
def r_add(g, minus=False):
    def body(u, ex, f):
        C = g.C
        u.points = []
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        pb, R = coords(u, ex, st, g, 'b')
        fn = g.pre + ('sub' if minus else 'add')
        u.find = finder(u, lambda a, b: Case(fn, 'v', [I(a[1]), I(b[1]), O(3 * g.size)],
                                             diff.chk_point(C, C.add(a[0], C.neg(b[0]) if minus else b[0]))))
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [pa, pb, o]):
            sum_post(u, ex, s, read(ex, s, g, o), P, neg(R) if minus else R, 'difference' if minus else 'sum')
            frame(u, ex, s, g, pa, P)
            frame(u, ex, s, g, pb, R)
    return body


def frame(u, ex, s, g, p, P):
    for a, b in zip(read(ex, s, g, p), P):
        u.feq(ex, s, a, b, 'inputs unchanged')


def r_neg(g):
    def body(u, ex, f):
        C = g.C
        u.points = []
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        u.find = finder(u, lambda a: Case(g.pre + 'neg', 'v', [I(a[1]), O(3 * g.size)], diff.chk_point(C, C.neg(a[0]))))
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [pa, o]):
            denotes(u, ex, s, read(ex, s, g, o), neg(P), 'negative')
            frame(u, ex, s, g, pa, P)
    return body


def u_add(g, minus=False):
    def body(u, ex, f):
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        pb, R = coords(u, ex, st, g, 'b')
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o, pa, pb]):
            sum_post(u, ex, s, read(ex, s, g, o), P, neg(R) if minus else R, 'difference' if minus else 'sum')
    return body


def u_neg(g):
    def body(u, ex, f):
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o, pa]):
            denotes(u, ex, s, read(ex, s, g, o), neg(P), 'negative')
    return body


def u_double(g):
    def body(u, ex, f):
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o, pa]):
            for s1, z in branch(s, fz(P[2])):
                denotes(u, ex, s1, read(ex, s1, g, o), None if z else tangent(P), 'double')
    return body


def u_zero(g):
    def body(u, ex, f):
        st = St()
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o]):
            denotes(u, ex, s, read(ex, s, g, o), None, 'identity')
    return body


def r_const(g, point, fn):
    def body(u, ex, f):
        u.find = lambda F, c: [Case(fn, 'v', [O(3 * g.size)], diff.chk_point(g.C, point))]
        st = St()
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o]):
            denotes(u, ex, s, read(ex, s, g, o), point and (g.const(point[0]), g.const(point[1]), g.const(g.C.o)), 'constant')
    return body


def truth(ex, s, r):
    """[(state, 0/1)]: the returned bit"""
    r = ex.simp(s, r)
    if isinstance(r, int):
        return [(s, r & 1)]
    return branch(s, to_cond(s.F, r))


def r_eq(g):
    def body(u, ex, f):
        u.points = []
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        pb, R = coords(u, ex, st, g, 'b')
        u.find = finder(u, lambda a, b: Case(g.pre + 'eq', 'b', [I(a[1]), I(b[1])], eqr(int(a[0] == b[0]))))
        u1, u2, t1, t2 = common(P, R)
        for s, r in paths(u, ex, st, f, [pa, pb]):
            for s1, z in cases(s, [fz(P[2]), fz(R[2])]):
                if z != (0, 0):
                    for s2, k in truth(ex, s1, r):
                        u.post(ex, s2, int(k == (z == (1, 1))), 'equal to the identity exactly when both are the identity')
                    continue
                for s2, e in cases(s1, [fz(s_(u1, u2)), fz(s_(t1, t2))]):
                    for s3, k in truth(ex, s2, r):
                        u.post(ex, s3, int(k == (e == (1, 1))), 'equal exactly when both affine coordinates are')
    return body


def r_iszero(g):
    def body(u, ex, f):
        u.points = []
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        u.find = finder(u, lambda a: Case(g.pre + 'is_zero', 'b', [I(a[1])], eqr(int(a[0] is None))))
        for s, r in paths(u, ex, st, f, [pa]):
            for s1, k in truth(ex, s, r):
                u.post(ex, s1, fz(P[2]) if k else _not(fz(P[2])), 'identity test')
    return body


def r_norm(g):
    def body(u, ex, f):
        C = g.C
        u.points = []
        st = St()
        pa, P = coords(u, ex, st, g, 'a')
        u.find = finder(u, lambda a: Case(g.pre + 'normalize', 'v', [IO(a[1])], eqb(C.img(a[0]), 'normalised point')))
        ident = []
        for s, r in paths(u, ex, st, f, [pa]):
            got = read(ex, s, g, pa)
            for s1, z in branch(s, fz(P[2])):
                denotes(u, ex, s1, got, None if z else P, 'the same point')
                if z:
                    ident.append(got)
                    u.post(ex, s1, int(all(v.isconst() for v in got) and got == ident[0]), 'one representation of the identity')
                else:
                    u.feq(ex, s1, got[2], FP.const(FQ, 1), 'third coordinate one, so that equal points are identical')
    return body


def verify_c07(V):
    for g in GROUPS:
        V.root(g.name + ' addition', g.pre + 'add', r_add(g))
        V.root(g.name + ' subtraction', g.pre + 'sub', r_add(g, True))
        V.root(g.name + ' negation', g.pre + 'neg', r_neg(g))
        V.root(g.name + ' identity', g.pre + 'zero', r_const(g, None, g.pre + 'zero'))
        V.root(g.name + ' generator', g.pre + 'one', r_const(g, g.C.gen, g.pre + 'one'))


def verify_c09(V):
    for g in GROUPS:
        V.root(g.name + ' equality', g.pre + 'eq', r_eq(g))
        V.root(g.name + ' identity test', g.pre + 'is_zero', r_iszero(g))
        V.root(g.name + ' normalisation', g.pre + 'normalize', r_norm(g))
