"""The pairing.  Coordinates of the points of the Miller loop and coefficients of the lines are atoms, so the field
contracts act on them as usual; a point atom carries the integer n of the point nQ, a line the pair (n, m) of the points it
passes through.  The Miller value is known as a product of such lines, that is as the function with the divisor they add up
to, modulo the verticals and constants the final exponentiation removes; the exponent is an integer modulo q^12 - 1."""
from . import diff, fields, fpoly as FP, groups, powers, spec, terms as T, tower, words
from .diff import Case, I, O, both, eqb
from .exec import El, St, decide
from .fields import FE, NotCanonical, get_el, put_el
from .fpoly import FQ, Q, R
from .groups import GROUPS, GR, branch, coords, fz, read, _not
from .spec import E1, E2, U
from .terms import Unsupported, add_fact, cneg
from .tower import F12, XI, tower_eq, tower_input
from .unit import paths

N12 = Q ** 12 - 1
EXP = N12 // R * spec.COFACTOR
CYC = Q ** 4 - Q ** 2 + 1
G1, G2 = GROUPS
B2 = FP.const(FQ, *E2.b)
m_, a_, s_ = FP.mul, FP.add, FP.sub

# what the Miller value is not determined up to: the subfield of q^6 elements (constants of GF(q^2), verticals) and w^3
assert N12 % R == 0 and (N12 // R) % (Q ** 6 - 1) == 0 and (N12 // R // (Q ** 6 - 1)) % 2 == 0 and spec.COFACTOR % R


def k3(v):
    return FP.scale(v, (3, 0))


# ---------------------------------------------------------------- divisors
def div_add(d, n, c):
    """c times [nQ] - [O]; [-nQ] counts as -[nQ]"""
    n %= R
    if n == 0:
        return
    if 2 * n > R:
        n, c = R - n, -c
    d[n] = d.get(n, 0) + c
    if not d[n]:
        del d[n]


def div_line(d, n, m, c=1):
    div_add(d, n, c)
    div_add(d, m, c)
    div_add(d, n + m, -c)


def ate_divisor():
    """of f_{6u+2,Q} and the two lines through the Frobenius images"""
    d = {}
    s = 6 * U + 2
    div_add(d, 1, s)
    div_add(d, s, -1)
    div_line(d, s, Q)
    div_line(d, s + Q, -Q * Q)
    return d


ATE = ate_divisor()


def frozen(d):
    return tuple(sorted(d.items()))


def value(v):
    """the divisor of a formal value, its exponent multiplied in"""
    d = {n: c * v[2] % N12 for n, c in (v[1] or ())}
    return {n: c for n, c in d.items() if c}


# ---------------------------------------------------------------- recognising points and lines
class Book:
    """the atoms of one execution"""

    def __init__(self):
        self.xq = FP.fvar(FQ, 'xQ', True)
        self.yq = FP.fvar(FQ, 'yQ', True)
        self.xp = FP.fvar(FQ, 'xP')
        self.yp = FP.fvar(FQ, 'yP')
        self.aff = {}            # images of Q under the twisted Frobenius: (x, y) -> n
        x, y = self.xq, self.yq
        cx, cy = FP.const(FQ, *TWX), FP.const(FQ, *TWY)
        for k in range(12):
            for sg in (1, -1):
                self.aff[(x, y if sg == 1 else FP.neg(y))] = sg * Q ** k % R
            x, y = m_(cx, FP.conj(x)), m_(cy, FP.conj(y))
        self.proj = {}
        self.lines = {}
        self.n = 0

    def norm(self, F, *vs):
        """the coordinates of an input known to have Z = 1 are its affine coordinates"""
        env = {}
        for nm, x, y in (('G1', self.xp, self.yp), ('G2', self.xq, self.yq)):
            P = self.inputs[nm]
            ids = [i for v in P for m in v.t for i in m]
            ids += [T.ATOMS[i].cj for i in ids if T.ATOMS[i].cj is not None]
            used = {i for v in vs for i in FP.fatoms(v)}
            if used & set(ids) and decide(F, ('feq', s_(P[2], FP.const(FQ, 1)))) == 1:
                for v, w in zip(P, (x, y, FP.const(FQ, 1))):
                    (m,), = v.t
                    env[m] = w
                    if T.ATOMS[m].cj not in (None, m):
                        env[T.ATOMS[m].cj] = FP.conj(w)
        return tuple(FP.fsubst(v, env) for v in vs) if env else vs

    def affine(self, F, x, y):
        return self.aff.get(self.norm(F, x, y))

    def projective(self, F, X, Y, Z):
        X, Y, Z = self.norm(F, X, Y, Z)
        if Z.isconst() and Z.const() == (1, 0):
            return self.affine(F, X, Y)
        return self.proj.get((X, Y, Z))

    def fresh(self, nm):
        self.n += 1
        return [FP.fvar(FQ, '%s%d.%d' % (nm, self.n, k), True) for k in range(3)]

    def point(self, n):
        v = self.fresh('r')
        self.proj[tuple(v)] = n % R
        return v

    def line(self, n, m):
        v = self.fresh('l')
        # as mul_by_024 takes it: evaluated at P
        self.lines[(v[0], m_(v[1], self.yp), m_(v[2], self.xp))] = (n % R, m % R)
        return v

    def at(self, F, *e):
        return self.lines.get(self.norm(F, *e))


TWX = FP.cpow(FQ, spec.XI, (Q - 1) // 3)
TWY = FP.cpow(FQ, spec.XI, (Q - 1) // 2)


def el(ex, st, p, n):
    return [get_el(ex, st, p + 64 * k, 'Fq2') for k in range(n)]


def put(ex, st, p, vs):
    for k, v in enumerate(vs):
        put_el(ex, st, p + 64 * k, 'Fq2', v)


def book(fun):
    """a contract that only says something about the points and lines of an execution of the pairing"""
    def c(ex, st, args, f):
        b = getattr(ex, 'book', None)
        if b is None:
            return NotImplemented
        try:
            return fun(b, ex, st, args)
        except NotCanonical:
            return NotImplemented
    return c


# ---------------------------------------------------------------- the two steps
def line_posts(u, ex, s, o, P, num, den, what):
    """the coefficients at o are those of the line through P with slope num/den, times some non-zero factor"""
    l0, lw, lv = el(ex, s, o, 3)
    X, Y, Z = P
    u.post(ex, s, _not(fz(lw)), what + ': not zero')
    u.feq(ex, s, m_(lv, den), FP.neg(m_(lw, num)), what + ': slope')
    u.feq(ex, s, m_(l0, m_(den, Z)), m_(XI, m_(s_(m_(num, X), m_(den, Y)), lw)), what + ': constant term')


def point_posts(u, ex, s, got, x, dx, y, dy, what):
    u.post(ex, s, _not(fz(got[2])), what + ': not the identity')
    u.feq(ex, s, m_(got[0], dx), m_(x, got[2]), what + ': x')
    u.feq(ex, s, m_(got[1], dy), m_(y, got[2]), what + ': y')


def u_doubling(u, ex, f):
    """homogeneous coordinates: (X, Y, Z) is the affine point (X/Z, Y/Z)"""
    st = St()
    pr, P = tower_input(u, ex, st, 'r', 3)
    X, Y, Z = P
    add_fact(st.F, _not(fz(Y)))
    add_fact(st.F, _not(fz(Z)))
    add_fact(st.F, ('feq', s_(m_(m_(X, X), X), s_(m_(m_(Y, Y), Z), m_(B2, m_(Z, m_(Z, Z)))))))
    o = ex.new_obj(st, 192, 'out')
    for s, r in paths(u, ex, st, f, [o, pr]):
        num, den = k3(m_(X, X)), FP.scale(m_(Y, Z), (2, 0))
        xd, zd = s_(m_(num, num), m_(FP.scale(m_(X, Z), (2, 0)), FP.scale(m_(Y, Y), (4, 0)))), m_(den, den)
        # y = slope * (x - x3) - y
        yn = s_(m_(num, s_(FP.scale(m_(X, m_(m_(Y, Y), Z)), (4, 0)), xd)), m_(FP.scale(m_(m_(Y, Y), m_(Y, Y)), (8, 0)), m_(Z, Z)))
        point_posts(u, ex, s, el(ex, s, pr, 3), xd, zd, yn, m_(zd, den), 'double')
        line_posts(u, ex, s, o, P, num, den, 'tangent')


@book
def c_doubling(b, ex, st, args):
    n = b.projective(st.F, *el(ex, st, args[1], 3))
    if not n:
        return NotImplemented
    put(ex, st, args[1], b.point(2 * n))
    put(ex, st, args[0], b.line(n, n))
    return [(st, None)]


def u_mixed(u, ex, f):
    st = St()
    pr, P = tower_input(u, ex, st, 'r', 3)
    pb, (x, y) = tower_input(u, ex, st, 'b', 2)
    X, Y, Z = P
    d, e = s_(X, m_(Z, x)), s_(Y, m_(Z, y))
    add_fact(st.F, _not(fz(Z)))
    add_fact(st.F, _not(fz(d)))
    o = ex.new_obj(st, 192, 'out')
    for s, r in paths(u, ex, st, f, [o, pr, pb]):
        dd = m_(d, d)
        zd = m_(Z, dd)
        xn = s_(m_(m_(e, e), Z), m_(dd, a_(X, m_(x, Z))))
        yn = s_(m_(e, s_(m_(x, zd), xn)), m_(y, m_(d, zd)))
        point_posts(u, ex, s, el(ex, s, pr, 3), xn, zd, yn, m_(zd, d), 'sum')
        line_posts(u, ex, s, o, (x, y, FP.const(FQ, 1)), e, d, 'chord')
        tower_eq(u, ex, s, pb, [x, y], 'frame')


@book
def c_mixed(b, ex, st, args):
    n = b.projective(st.F, *el(ex, st, args[1], 3))
    k = b.affine(st.F, *el(ex, st, args[2], 2))
    if not n or not k or n == k or (n + k) % R == 0:
        return NotImplemented
    put(ex, st, args[1], b.point(n + k))
    put(ex, st, args[0], b.line(n, k))
    return [(st, None)]


# ---------------------------------------------------------------- affine coordinates
def u_affine(g):
    def unit(u, ex, f):
        u.points = []
        st = St()
        p, P = coords(u, ex, st, g, 'a')
        o = ex.new_obj(st, 8 + 2 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o, p]):
            tag = ex.load_n(s, o, 8)
            if tag == 0:
                u.post(ex, s, fz(P[2]), 'no affine coordinates only for the identity')
                continue
            if tag != 1:
                raise Unsupported('tag %r' % (tag,))
            u.post(ex, s, _not(fz(P[2])), 'affine coordinates only for other points')
            x, y = [get_el(ex, s, o + 8 + k * g.size, g.sort) for k in (0, 1)]
            zz = m_(P[2], P[2])
            u.feq(ex, s, m_(x, zz), P[0], 'x')
            u.feq(ex, s, m_(y, m_(zz, P[2])), P[1], 'y')
            groups.frame(u, ex, s, g, p, P)
    return unit


def c_affine(g):
    @book
    def c(b, ex, st, args):
        P = read(ex, st, g, args[1])
        if P != b.inputs[g.name]:
            return NotImplemented
        out = []
        for s, z in branch(st, fz(P[2])):
            ex.store_n(s, args[0], 8, 1 - z)
            if not z:
                for k, v in enumerate((b.xp, b.yp) if g is G1 else (b.xq, b.yq)):
                    put_el(ex, s, args[0] + 8 + k * g.size, g.sort, v)
            out.append((s, None))
        return out
    return c


# ---------------------------------------------------------------- the target field
def get(ex, st, p):
    """the formal value at p"""
    v = powers.get(ex, st, p, 'Fq12')
    if v is not None:
        return v
    try:
        z = el(ex, st, p, 6)
    except (NotCanonical, Unsupported):
        return None
    return powers.NEUTRAL if z == tower.ONE12 else None


def combine(a, b):
    if a[1] == b[1] or b[1] is None or a[1] is None:
        return ('mul', a[1] or b[1], (a[2] + b[2]) % N12)
    if not (isinstance(a[1], tuple) and isinstance(b[1], tuple)):
        return None
    d = value(a)
    for n, c in value(b).items():
        d[n] = (d.get(n, 0) + c) % N12
    return ('mul', frozen({n: c for n, c in d.items() if c}), 1)


def exponent(fun, need=None):
    """out := a^k, k = fun(trailing arguments)"""
    def c(ex, st, args, f):
        if not powers.is_formal(ex, 'Fq12'):
            return NotImplemented
        a = get(ex, st, args[1])
        k = fun(*args[2:])
        if a is None or k is None or (need and a[2] * need % N12):
            return NotImplemented
        put_el(ex, st, args[0], 'Fq12', ('mul', a[1], a[2] * k % N12))
        return [(st, None)]
    return c


def c_mul(ex, st, args, f):
    if not powers.is_formal(ex, 'Fq12'):
        return NotImplemented
    a, b = get(ex, st, args[1]), get(ex, st, args[2])
    if a is None or b is None:
        return NotImplemented
    r = combine(a, b)
    if r is None:
        return NotImplemented
    put_el(ex, st, args[0], 'Fq12', r)
    return [(st, None)]


def c_inverse(ex, st, args, f):
    """a formal value is a product of values that are not zero"""
    if not powers.is_formal(ex, 'Fq12'):
        return NotImplemented
    a = get(ex, st, args[1])
    if a is None:
        return NotImplemented
    ex.store_n(st, args[0], 8, 1)
    put_el(ex, st, args[0] + 8, 'Fq12', ('mul', a[1], -a[2] % N12))
    return [(st, None)]


def u_inverse(u, ex, f):
    st = St()
    p, a = tower_input(u, ex, st, 'a')
    add_fact(st.F, ('fne', FP.monic(tower.norm12(a))))
    o = ex.new_obj(st, 392, 'out')
    for s, r in paths(u, ex, st, f, [o, p]):
        u.post(ex, s, int(ex.load_n(s, o, 8) == 1), 'a non-zero value has an inverse')
        got = el(ex, s, o + 8, 6)
        for k, (x, y) in enumerate(zip(tower.fmul12(a, got), tower.ONE12)):
            u.feq(ex, s, x, y, 'product with the input is one (coefficient %d)' % k)


@book
def c_mul024(b, ex, st, args):
    a = get(ex, st, args[1])
    l = b.at(st.F, *[get_el(ex, st, p, 'Fq2') for p in args[2:5]])
    if a is None or l is None:
        return NotImplemented
    d = value(a)
    d = {n: c if 2 * c < N12 else c - N12 for n, c in d.items()}
    div_line(d, *l)
    put_el(ex, st, args[0], 'Fq12', ('mul', frozen(d), 1))
    return [(st, None)]


def frob(n):
    return Q ** n if isinstance(n, int) and 0 <= n <= 3 else None


def u_frobenius(u, ex, f):
    for n in range(4):
        tower.u_frob12(n)(u, ex, f)


def verify_f12(V):
    V.unit('Fq12::one', '<%s as %sone' % (F12, FE), tower.unit12(0, lambda: tower.ONE12, 'one'), powers.neutral('Fq12'))
    V.unit('Fq12::mul', '<%s as core::ops::arith::Mul>::mul' % F12, tower.unit12(2, tower.fmul12, 'product'), c_mul)
    V.unit('Fq12::squared', '<%s as %ssquared' % (F12, FE), tower.unit12(1, lambda a: tower.fmul12(a, a), 'square'), exponent(lambda: 2))
    V.unit('Fq12::unitary_inverse', '<%s>::unitary_inverse' % F12, tower.unit12(1, lambda a: tower.frob12(a, 6), 'power q^6'),
           exponent(lambda: Q ** 6))
    V.unit('Fq12::frobenius_map', '<%s>::frobenius_map' % F12, u_frobenius, exponent(frob))
    V.unit('Fq12::cyclotomic_squared', '<%s>::cyclotomic_squared' % F12, tower.u_cyclosq, exponent(lambda: 2, CYC))
    V.unit('Fq12::inverse', '<%s as %sinverse' % (F12, FE), u_inverse, c_inverse)


def verify_miller(V):
    V.unit('doubling step', '<%s>::doubling_step_for_flipped_miller_loop' % G2.ty, u_doubling, c_doubling)
    V.unit('addition step', '<%s>::mixed_addition_step_for_flipped_miller_loop' % G2.ty, u_mixed, c_mixed)
    V.unit('sparse product', '<%s>::mul_by_024' % F12, tower.u_mul024, c_mul024)
    for g in GROUPS:
        V.unit(g.name + '::to_affine', '<%s>::to_affine' % g.ty, u_affine(g), c_affine(g))


def pairing_cases(F, c, u):
    """identities, rescaled points, ordinary points"""
    import random
    rnd = random.Random(5)
    out = []
    P, S = E1.mul(E1.gen, rnd.randrange(1, R)), E2.mul(E2.gen, rnd.randrange(1, R))
    for p, s in ((None, S), (P, None), (None, None), (P, S), (E1.gen, E2.gen), (E1.neg(P), S)):
        for z in range(2):
            a = E1.img(p, rnd.randrange(2, Q) if z else None) if p else E1.img(None)
            b = E2.img(s, (rnd.randrange(2, Q), rnd.randrange(Q)) if z else None) if s else E2.img(None)
            out.append(Case('vp_pairing', 'v', [I(a), I(b), O(384)], eqb(spec.enc_f12(spec.pairing(p, s)))))
    return out


def pairing_root(posts, unit=False):
    def body(u, ex, f):
        u.points = []
        u.find = lambda F, c: pairing_cases(F, c, u)
        b = ex.book = Book()
        ex.formal = ('Fq12',)
        st = St()
        p, P = coords(u, ex, st, G1, 'p')
        q, S = coords(u, ex, st, G2, 'q')
        b.inputs = {'G1': P, 'G2': S}
        o = ex.new_obj(st, 384, 'out')
        for s, r in paths(u, ex, st, f, [o, p, q] if unit else [p, q, o]):
            v = get(ex, s, o)
            if v is None:
                raise Unsupported('the result is no known product of lines')
            for s2, z in groups.cases(s, [fz(P[2]), fz(S[2])]):
                posts(u, ex, s2, z, v)
            groups.frame(u, ex, s, G1, p, P)
            groups.frame(u, ex, s, G2, q, S)
    return body


def post_value(u, ex, s, z, v):
    if any(z):
        return
    d = value(v)
    want = {n: c * EXP % N12 for n, c in ATE.items()}
    u.post(ex, s, int(v[1] is not None and v[2] % (2 * (Q ** 6 - 1)) == 0), 'constants and verticals are removed')
    u.post(ex, s, int(d == {n: c for n, c in want.items() if c}), 'the optimal ate function raised to the final exponent')


def post_subgroup(u, ex, s, z, v):
    if any(z):
        u.post(ex, s, int(v[1] is None or v[2] == 0), 'one when an argument is the identity')
        return
    u.post(ex, s, int(v[1] is None or v[2] * R % N12 == 0), 'the value is in the subgroup of order r')


def c11(V):
    verify_f12(V)
    verify_miller(V)
    V.root('pairing', 'vp_pairing', pairing_root(post_value), 300)


def c12(V):
    verify_f12(V)
    verify_miller(V)
    V.root('pairing', 'vp_pairing', pairing_root(post_subgroup), 300)


def c_pairing(ex, st, args, f):
    """the pairing of two formal points"""
    a, b = [fields.peek(ex, st, p, g.name) for p, g in zip(args[1:3], GROUPS)]
    if not powers.is_formal(ex, 'Fq12') or not a or not b:
        return NotImplemented
    put_el(ex, st, args[0], 'Fq12', ('pair', a, b))
    return [(st, None)]


def verify_pairing(V):
    """the pairing as a contract for its callers"""
    verify_f12(V)
    verify_miller(V)

    def posts(u, ex, s, z, v):
        post_value(u, ex, s, z, v)
        post_subgroup(u, ex, s, z, v)
    return V.unit('pairing', 'rabe_bn::groups::pairing', pairing_root(posts, True), c_pairing, 200)
