"""Exponentiation and scalar multiplication.  The base stays formal: the contracts of the group operations combine
exponents, which are integers over the bits of the scalar, and the result must carry the scalar itself as exponent."""
from . import diff, fpoly as FP, groups, merge, spec, terms as T, tower
from .diff import Case, I, O, eqb
from .exec import DECIDERS, El, St, decide, feqs
from .fields import FE, fp_input, get_el, put_el
from .fpoly import FR, R
from .spec import word
from .terms import Unsupported, add_fact, cneg, padd, pscale, psub
from .unit import paths, total

NEUTRAL = ('mul', None, 0)


def get(ex, st, p, sort):
    """the formal value at p, or None"""
    from .exec import Ambig, AmbigUse, poff
    if isinstance(p, Ambig):
        raise AmbigUse(p.label)
    x = ex.obj(st, p).cells.get(poff(p))
    if x is None:
        return None
    if isinstance(x[1], Ambig):
        raise AmbigUse(x[1].label)
    if isinstance(x[1], El) and x[1].sort == sort and isinstance(x[1].v, tuple) and x[1].v[0] == 'mul':
        return x[1].v
    return None


def is_formal(ex, sort):
    """values of this sort are kept formal in this execution"""
    return sort in (getattr(ex, 'formal', None) or ())


def combine(a, b, sign=1):
    base = a[1] if a[1] is not None else b[1]
    if b[1] is not None and b[1] != base:
        return None
    return ('mul', base, padd(a[2], pscale(b[2], sign)))


def formal2(sort, sign=1):
    """out := a * b"""
    def c(ex, st, args, f):
        a, b = get(ex, st, args[1], sort), get(ex, st, args[2], sort)
        r = combine(a, b, sign) if a and b else None
        if r is None:
            return NotImplemented
        put_el(ex, st, args[0], sort, r)
        return [(st, None)]
    return c


def formal1(sort, k):
    """out := a^k"""
    def c(ex, st, args, f):
        a = get(ex, st, args[1], sort)
        if not a:
            return NotImplemented
        put_el(ex, st, args[0], sort, ('mul', a[1], pscale(a[2], k)))
        return [(st, None)]
    return c


def neutral(sort, pos=0):
    def c(ex, st, args, f):
        if not is_formal(ex, sort):
            return NotImplemented
        put_el(ex, st, args[0], sort, NEUTRAL)
        return [(st, None)]
    return c


def is_neutral(sort):
    def c(ex, st, args, f):
        a = get(ex, st, args[0], sort)
        if not a:
            return NotImplemented
        if a[2] == 0:
            return [(st, 1)]
        if a[2] != 1:
            return NotImplemented
        d = pz_decide(st.F, ('pz', a[1]))
        return [(st, T.ind(st.F, ('pz', a[1])) if d is None else d)]
    return c


def pz_decide(F, c):
    return 1 if c in F.l else 0 if cneg(c) in F.l else None


DECIDERS['pz'] = pz_decide
DECIDERS['pnz'] = pz_decide


def both(c1, c2):
    """the formal contract where it applies, the other one elsewhere"""
    def c(ex, st, args, f):
        r = c1(ex, st, args, f)
        return r if r is not NotImplemented or c2 is None else c2(ex, st, args, f)
    return c


def scalar(u, ex, st):
    a, p, v = fp_input(u, ex, st, 'e', 'Fr')
    K = FP.cint(v)
    ex.scalar = [K, 256, a]
    ex.scalarv = v
    return a, p, K


def formal_root(sort, size, mk, unit=False):
    def body(u, ex, f):
        ex.formal = (sort,)
        u.find = lambda F, c: mk(F, c, u)
        for zero in (False, True):
            if zero and sort == 'Fq12':
                continue
            st = St()
            p = ex.new_obj(st, size, 'base')
            put_el(ex, st, p, sort, ('mul', 'base', 1))
            a, q, K = scalar(u, ex, st)
            if sort != 'Fq12':
                add_fact(st.F, ('pz' if zero else 'pnz', 'base'))
            o = ex.new_obj(st, size, 'out')
            for s, r in paths(u, ex, st, f, [o, p, q] if unit else [p, q, o]):
                v = get(ex, s, o, sort)
                if v is None:
                    raise Unsupported('result %r' % (ex.obj(s, o).cells,))
                if zero:
                    u.post(ex, s, 1, 'a multiple of the identity is the identity')
                else:
                    exponent_post(u, ex, s, v[2], K)
                if unit:
                    continue
                u.eq(ex, s, total(ex, s, q), a, 'inputs unchanged')
                u.post(ex, s, int(get(ex, s, p, sort) == ('mul', 'base', 1)), 'inputs unchanged')
    return body


def known(F, ex, K):
    """the scalar, where the path determines it"""
    eqs = feqs(F, FR)
    if eqs:
        r = FP.reduce(ex.scalarv, eqs)
        if r.isconst():
            return FP.cint(r)
    return K


def exponent_post(u, ex, s, e, K):
    if psub(e, K) != 0:
        K = known(s.F, ex, K)
    d = psub(e, K)
    u.eq(ex, s, e, K, 'the exponent is the integer value of the scalar')


def exponent_envs(u, F, c):
    """scalars that follow the failing path"""
    from . import witness
    out = [env['e'] for env in witness.find(u, F, c, 6)]
    return [x * pow(FP.MONT, -1, R) % R for x in out]


def gt_cases(F, c, u):
    import random
    rnd = random.Random(2)
    a = diff.f12_pool(rnd, 3)[-1]
    es = exponent_envs(u, F, c)[:12] + [0, 1, 2, 3, R - 1]
    return [Case('vp_gt_pow', 'v', [I(spec.enc_f12(a)), I(spec.enc_r(e)), O(384)], eqb(spec.enc_f12(spec.f12pow(a, e)))) for e in es]


def point_cases(g):
    def mk(F, c, u):
        C = g.C
        es = exponent_envs(u, F, c)[:12] + [0, 1, 2, 3, R - 1]
        p = C.mul(C.gen, 5)
        return [Case(g.pre + 'mul', 'v', [I(C.img(p)), I(spec.enc_r(e)), O(3 * g.size)], diff.chk_point(C, C.mul(p, e))) for e in es] + \
            [Case(g.pre + 'mul', 'v', [I(C.img(None)), I(spec.enc_r(e)), O(3 * g.size)], diff.chk_point(C, None)) for e in (0, 1, 5)]
    return mk


def fr_pow_root(u, ex, f):
    st = St()
    p = ex.new_obj(st, 32, 'base')
    b = FP.fvar(FR, 'base')
    (i,), = b.t
    put_el(ex, st, p, 'Fr', b)
    a, q, K = scalar(u, ex, st)

    def find(F, c):
        return [Case('vp_fr_pow', 'v', [I(spec.enc_r(x)), I(spec.enc_r(e)), O(32)], eqb(spec.enc_r(pow(x, e, R))))
                for e in exponent_envs(u, F, c)[:12] + [0, 1, 2, R - 1] for x in (0, 3, R - 2)]
    u.find = find
    o = ex.new_obj(st, 32, 'out')
    merge.POWBASE.add(i)
    try:
        for s, r in paths(u, ex, st, f, [p, q, o]):
            v = get_el(ex, s, o, 'Fr')
            w = merge.power_parts(v)
            if w is not None and decide(s.F, ('feq', b)) == 0:
                # b^(r-1) = 1
                d = psub(w[1], K)
                if d != 0:
                    d = psub(w[1], known(s.F, ex, K))
                u.post(ex, s, T.cor(*[T.ceq(s.F, psub(d, c)) if isinstance(d, T.Poly) else int(d == c) for c in (0, R - 1, 1 - R)]),
                       'the exponent is the integer value of the scalar, modulo r - 1')
            elif w is not None:
                exponent_post(u, ex, s, w[1], K)
            elif decide(s.F, ('feq', b)) == 1 or decide(s.F, ('feq', FP.sub(b, FP.const(FR, 1)))) == 1:
                raise Unsupported('special base')
            else:
                raise Unsupported('result %r' % (v,))
            u.eq(ex, s, total(ex, s, q), a, 'inputs unchanged')
            u.feq(ex, s, get_el(ex, s, p, 'Fr'), b, 'inputs unchanged')
    finally:
        merge.POWBASE.discard(i)


def verify_f12_formal(V):
    """contracts of the extension field operations, then their formal reading"""
    F12 = tower.F12
    sq = lambda a: tower.fmul12(a, a)
    for op, tr, n, g, c in (('mul', '<%s as core::ops::arith::Mul>::mul' % F12, 2, tower.fmul12, formal2('Fq12')),
                            ('squared', '<%s as %ssquared' % (F12, FE), 1, sq, formal1('Fq12', 2)),
                            ('one', '<%s as %sone' % (F12, FE), 0, lambda: tower.ONE12, neutral('Fq12'))):
        V.unit('Fq12::' + op, tr, tower.unit12(n, g, op + ' in the extension field'), c)


def verify_points_formal(V):
    for g in groups.GROUPS:
        ty = g.ty
        for op, fn, n, body, c in (
                ('add', '<%s as core::ops::arith::Add>::add' % ty, 2, groups.u_add(g), formal2(g.name)),
                ('sub', '<%s as core::ops::arith::Sub>::sub' % ty, 2, groups.u_add(g, True), formal2(g.name, -1)),
                ('neg', '<%s as core::ops::arith::Neg>::neg' % ty, 1, groups.u_neg(g), formal1(g.name, -1)),
                ('double', '<%s as %sGroupElement>::double' % (ty, groups.GR), 1, groups.u_double(g), formal1(g.name, 2)),
                ('zero', '<%s as %sGroupElement>::zero' % (ty, groups.GR), 0, groups.u_zero(g), neutral(g.name)),
                ('is_zero', '<%s as %sGroupElement>::is_zero' % (ty, groups.GR), 0, groups.r_iszero(g), is_neutral(g.name))):
            V.unit('%s::%s' % (g.name, op), fn, body, c)


def verify_c04(V):
    verify_f12_formal(V)
    V.root('scalar exponentiation', 'vp_fr_pow', fr_pow_root, 200)
    V.root('target group exponentiation', 'vp_gt_pow', formal_root('Fq12', 384, gt_cases), 200)


def verify_c08(V):
    verify_points_formal(V)
    for g in groups.GROUPS:
        V.root(g.name + ' scalar multiplication', g.pre + 'mul', formal_root(g.name, 3 * g.size, point_cases(g)), 200)


def verify_smul(V, contract):
    """scalar multiplication as a contract for its callers"""
    verify_points_formal(V)
    for g in groups.GROUPS:
        V.unit(g.name + '::mul', '<%s as core::ops::arith::Mul<rabe_bn::fields::fp::Fr>>::mul' % g.ty,
               formal_root(g.name, 3 * g.size, point_cases(g), True), contract(g), 200)
