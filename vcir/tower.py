"""Contracts of the extension fields: Fq2 over its coordinates, Fq6 and Fq12 over polynomials in Fq2 values."""
from . import fpoly as FP, spec, terms as T
from .diff import Case, I, O, eqb, eqr
from .exec import El, St, decide
from .fields import (FE, MOD, NotCanonical, _not, canonical_post, const_contract, field_eq, fp_input, fzero, get_el, op_contract,
                     pred_contract, put_el)
from .fpoly import FQ, Q
from .terms import Unsupported, add_fact, ceq, cneg, ind
from .unit import paths, total
from .words import bool_post

F2 = 'rabe_bn::fields::fq2::Fq2'
F6 = 'rabe_bn::fields::fq6::Fq6'
F12 = 'rabe_bn::fields::fq12::Fq12'
XI = FP.const(FQ, *spec.XI)
ORDER = spec.F12_ORDER


def c2(p):
    return FP.const(FQ, p[0], p[1])


# ---------------------------------------------------------------- Fq2 from coordinates
def f2_input(u, ex, st, nm):
    a0, p0, v0 = fp_input(u, ex, st, nm + '0', 'Fq')
    a1, p1, v1 = fp_input(u, ex, st, nm + '1', 'Fq')
    p = ex.new_obj(st, 64, nm)
    ex.copy(st, p, p0, 32)
    ex.copy(st, p + 32, p1, 32)
    return (a0, a1), p, FP.join(v0, v1)


def f2_posts(u, ex, s, o, want, what):
    w = FP.parts(want)
    for k in (0, 1):
        t = canonical_post(u, ex, s, o + 32 * k, 'Fq')
        field_eq(u, ex, s, 'Fq', t, w[k], what)


def f2_value(env, nm):
    k = pow(FP.MONT, -1, Q)
    return (env[nm + '0'] * k % Q, env[nm + '1'] * k % Q)


def lift(a):
    """an Fq2 value as a target-group value"""
    return (a,) + ((0, 0),) * 5


def embed(op):
    """native counterparts of Fq2 operations: the subfield of the target group"""
    def case(env):
        if op in ('mul', 'squared'):
            a = lift(f2_value(env, 'a'))
            b = lift(f2_value(env, 'b')) if op == 'mul' else a
            return Case('vp_gt_mul', 'v', [I(spec.enc_f12(a)), I(spec.enc_f12(b)), O(384)], eqb(spec.enc_f12(spec.f12mul(a, b))))
        if op == 'inverse':
            a = lift(f2_value(env, 'a'))
            return gt_inverse_case(a)
        return None
    return case


def gt_inverse_case(a):
    if a == spec.F12_ZERO:
        return None
    return Case('vp_gt_inverse', 'v', [I(spec.enc_f12(a)), O(384)], eqb(spec.enc_f12(spec.f12inv(a))))


def f2_unit(nin, fun, what, op=None, extra=()):
    def unit(u, ex, f):
        st = St()
        ins = [f2_input(u, ex, st, 'ab'[k]) for k in range(nin)]
        if op:
            u.case = embed(op)
        o = ex.new_obj(st, 64, 'out')
        for s, r in paths(u, ex, st, f, [o] + [p for _, p, _ in ins] + list(extra)):
            f2_posts(u, ex, s, o, fun(*[v for _, _, v in ins]), what)
            for w, p, _ in ins:
                for k in (0, 1):
                    u.eq(ex, s, total(ex, s, p + 32 * k), w[k], 'frame')
    return unit


def f2_pred(nin, cond, what, alt=None):
    def unit(u, ex, f):
        st = St()
        ins = [f2_input(u, ex, st, 'ab'[k]) for k in range(nin)]
        for s, r in paths(u, ex, st, f, [p for _, p, _ in ins]):
            n = len(u.fails)
            bool_post(u, ex, s, r, cond(s.F, *[w for w, _, _ in ins]), what)
            if alt is not None and len(u.fails) > n:      # the same condition on field values (the words are canonical)
                del u.fails[n:]
                bool_post(u, ex, s, r, alt(*[v for _, _, v in ins]), what)
    return unit


def u_scale(u, ex, f):
    st = St()
    _, p, v = f2_input(u, ex, st, 'a')
    _, q, k = fp_input(u, ex, st, 'k', 'Fq')
    o = ex.new_obj(st, 64, 'out')
    for s, r in paths(u, ex, st, f, [o, p, q]):
        f2_posts(u, ex, s, o, FP.mul(v, k), 'scaling by a base field element')


def c_scale(ex, st, args, f):
    try:
        a, k = get_el(ex, st, args[1], 'Fq2'), get_el(ex, st, args[2], 'Fq')
    except NotCanonical:
        return NotImplemented
    put_el(ex, st, args[0], 'Fq2', FP.mul(a, k))
    return [(st, None)]


def u_frob2(u, ex, f):
    for n in range(4):
        st = St()
        _, p, v = f2_input(u, ex, st, 'a')
        o = ex.new_obj(st, 64, 'out')
        for s, r in paths(u, ex, st, f, [o, p, n]):
            f2_posts(u, ex, s, o, FP.conj(v) if n % 2 else v, 'Frobenius power %d' % n)


def c_frob2(ex, st, args, f):
    n = args[2]
    if not isinstance(n, int) or n > 3:
        return NotImplemented
    try:
        a = get_el(ex, st, args[1], 'Fq2')
    except NotCanonical:
        return NotImplemented
    put_el(ex, st, args[0], 'Fq2', FP.conj(a) if n % 2 else a)
    return [(st, None)]


def u_inv2(u, ex, f):
    from .loops import field_post
    st = St()
    (a0, a1), p, v = f2_input(u, ex, st, 'a')
    u.case = embed('inverse')
    # q = 3 mod 4: the norm of a non-zero element is not zero
    n = FP.mul(v, FP.conj(v))
    lemma = T.cor(T.cand(ceq(T.NOFACTS, a0), ceq(T.NOFACTS, a1)), ('fne', FP.monic(n)))
    o = ex.new_obj(st, 72, 'out')
    for z in (1, 0):
        s0 = st.fork()
        zero = T.cand(ceq(s0.F, a0), ceq(s0.F, a1))
        if z:
            add_fact(s0.F, zero)
        else:
            add_fact(s0.F, ('fne', FP.monic(n)))
        for s, r in paths(u, ex, s0, f, [o, p]):
            tag = ex.load_n(s, o, 8)
            if tag == 0:
                u.post(ex, s, z, 'no inverse only for zero')
                continue
            if tag != 1:
                raise Unsupported('tag %r' % (tag,))
            u.post(ex, s, 1 - z, 'an inverse only for a non-zero element')
            if z:
                continue
            t = [canonical_post(u, ex, s, o + 8 + 32 * k, 'Fq') for k in (0, 1)]
            d = FP.sub(FP.mul(FP.join(FP.of_raw(FQ, t[0]), FP.of_raw(FQ, t[1])), v), FP.const(FQ, 1))
            field_post(u, ex, s, FQ, d, 'product with the input is one')


def c_inv2(ex, st, args, f):
    try:
        v = get_el(ex, st, args[1], 'Fq2')
    except NotCanonical:
        return NotImplemented
    z = ('feq', FP.monic(v)) if not v.isconst() else int(not v.t)
    r = decide(st.F, z) if isinstance(z, tuple) else z
    out = []
    for k in (1, 0):
        if r is not None and r != k:
            continue
        s = st.fork()
        if r is None and not add_fact(s.F, z if k else cneg(z)):
            continue
        ex.store_n(s, args[0], 8, 1 - k)
        if not k:
            w, e = FP.finv(v)
            if e is not None:
                add_fact(s.F, ('feq', e))
            put_el(ex, s, args[0] + 8, 'Fq2', w)
        out.append((s, None))
    return out


def f2zero(v):
    return ('feq', FP.monic(v)) if not v.isconst() else int(not v.t)


def verify_fq2(V, inv=True):
    sq = lambda a: FP.mul(a, a)
    for op, tr, n, g in (('add', 'Add', 2, FP.add), ('sub', 'Sub', 2, FP.sub), ('mul', 'Mul', 2, FP.mul), ('neg', 'Neg', 1, FP.neg)):
        V.unit('Fq2::' + op, '<%s as core::ops::arith::%s>::%s' % (F2, tr, op), f2_unit(n, g, op + ' in Fq2', op), op_contract('Fq2', n, g))
    V.unit('Fq2::squared', '<%s as %ssquared' % (F2, FE), f2_unit(1, sq, 'square in Fq2', 'squared'), op_contract('Fq2', 1, sq))
    V.unit('Fq2::mul_by_nonresidue', '<%s>::mul_by_nonresidue' % F2, f2_unit(1, lambda a: FP.mul(a, XI), 'times xi'),
           op_contract('Fq2', 1, lambda a: FP.mul(a, XI)))
    V.unit('Fq2::scale', '<%s>::scale' % F2, u_scale, c_scale)
    V.unit('Fq2::frobenius_map', '<%s>::frobenius_map' % F2, u_frob2, c_frob2)
    for nm, v in (('zero', 0), ('one', 1)):
        V.unit('Fq2::' + nm, '<%s as %s%s' % (F2, FE, nm), f2_unit(0, lambda v=v: FP.const(FQ, v), nm), const_contract('Fq2', FP.const(FQ, v)))
    eq = lambda F, a, b: T.cand(*[ceq(F, T.psub(a[k], b[k])) for k in (0, 1)])
    ne = lambda F, a, b: cneg(eq(F, a, b))
    V.unit('Fq2::eq', '<%s as core::cmp::PartialEq>::eq' % F2, f2_pred(2, eq, 'equality', lambda a, b: f2zero(FP.sub(a, b))), pred_contract('Fq2', 2, lambda a, b: f2zero(FP.sub(a, b))))
    V.unit('Fq2::ne', '<%s as core::cmp::PartialEq>::ne' % F2, f2_pred(2, ne, 'inequality', lambda a, b: _not(f2zero(FP.sub(a, b)))), pred_contract('Fq2', 2, lambda a, b: _not(f2zero(FP.sub(a, b)))))
    V.unit('Fq2::is_zero', '<%s as %sis_zero' % (F2, FE), f2_pred(1, lambda F, a: T.cand(ceq(F, a[0]), ceq(F, a[1])), 'zero test'),
           pred_contract('Fq2', 1, f2zero))
    if inv:
        V.unit('Fq2::inverse', '<%s as %sinverse' % (F2, FE), u_inv2, c_inv2)


# ---------------------------------------------------------------- Fq6, Fq12 as polynomials
def tower_input(u, ex, st, nm, n=6):
    """an element with n free Fq2 coefficients; returns (pointer, coefficients in memory order)"""
    p = ex.new_obj(st, 64 * n, nm)
    zs = []
    for k in range(n):
        z = FP.fvar(FQ, '%s%d' % (nm, k), True)
        (i,), = z.t
        u.finputs.append((i, '%s%d' % (nm, k)))
        put_el(ex, st, p + 64 * k, 'Fq2', z)
        zs.append(z)
    return p, zs


def tower_read(ex, s, o, n=6):
    return [get_el(ex, s, o + 64 * k, 'Fq2') for k in range(n)]


def tower_eq(u, ex, s, o, want, what):
    got = tower_read(ex, s, o, len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        u.feq(ex, s, a, b, '%s (coefficient %d)' % (what, k))


def w_of(z):
    """memory order -> coefficients of 1, w, ..., w^5"""
    out = [None] * 6
    for n, k in enumerate(ORDER):
        out[k] = z[n]
    return out


def mem_of(w):
    return [w[k] for k in ORDER]


def wmul(a, b):
    t = [FP.const(FQ, 0)] * 6
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            p = FP.mul(x, y)
            if i + j >= 6:
                p = FP.mul(p, XI)
            t[(i + j) % 6] = FP.add(t[(i + j) % 6], p)
    return t


def fmul12(a, b):
    return mem_of(wmul(w_of(a), w_of(b)))


def frob12(a, n):
    w = w_of(a)
    for _ in range(n):
        w = [FP.mul(FP.conj(c), c2(g)) for c, g in zip(w, spec._FROB)]
    return mem_of(w)


ONE12 = [FP.const(FQ, 1)] + [FP.const(FQ, 0)] * 5


def fmul6(a, b):
    """Fq2[v]/(v^3 - xi)"""
    t = [FP.const(FQ, 0)] * 3
    for i in range(3):
        for j in range(3):
            p = FP.mul(a[i], b[j])
            if i + j >= 3:
                p = FP.mul(p, XI)
            t[(i + j) % 3] = FP.add(t[(i + j) % 3], p)
    return t


def norm6(c):
    """norm of an element of Fq2[v]/(v^3 - xi) over Fq2"""
    a, b, d = c
    m = FP.mul
    cube = lambda x: m(m(x, x), x)
    r = FP.add(cube(a), FP.add(m(XI, cube(b)), m(m(XI, XI), cube(d))))
    return FP.sub(r, m(FP.const(FQ, 3), m(XI, m(m(a, b), d))))


def half12(z):
    """norm over Fq6 of a tower element (memory order)"""
    c0, c1 = z[:3], z[3:]
    s0, s1 = fmul6(c0, c0), fmul6(c1, c1)
    vs1 = [FP.mul(XI, s1[2]), s1[0], s1[1]]
    return [FP.sub(x, y) for x, y in zip(s0, vs1)]


def norm12(z):
    """norm over Fq2 of a tower element (memory order)"""
    return norm6(half12(z))


def unit12(nin, fun, what, n=6, extra=(), outn=None):
    def unit(u, ex, f):
        st = St()
        ins = [tower_input(u, ex, st, 'ab'[k], n) for k in range(nin)]
        o = ex.new_obj(st, 64 * (outn or n), 'out')
        for s, r in paths(u, ex, st, f, [o] + [p for p, _ in ins] + list(extra)):
            tower_eq(u, ex, s, o, fun(*[z for _, z in ins]), what)
            for p, z in ins:
                tower_eq(u, ex, s, p, z, 'frame')
    return unit


def fval(env, nm, n=6):
    return [env['%s%d' % (nm, k)] for k in range(n)]


def wcase(env, nm):
    """native value of an input from coefficients in memory order"""
    out = [None] * 6
    for n, k in enumerate(ORDER):
        out[k] = env['%s%d' % (nm, n)]
    return tuple(out)


def gt_mul_root(u, ex, f):
    st = St()
    pa, a = tower_input(u, ex, st, 'a')
    pb, b = tower_input(u, ex, st, 'b')

    def case(e):
        x, y = wcase(e, 'a'), wcase(e, 'b')
        return Case('vp_gt_mul', 'v', [I(spec.enc_f12(x)), I(spec.enc_f12(y)), O(384)], eqb(spec.enc_f12(spec.f12mul(x, y))))
    u.fcase = case
    o = ex.new_obj(st, 384, 'out')
    for s, r in paths(u, ex, st, f, [pa, pb, o]):
        tower_eq(u, ex, s, o, fmul12(a, b), 'product in the extension field')
        tower_eq(u, ex, s, pa, a, 'inputs unchanged')
        tower_eq(u, ex, s, pb, b, 'inputs unchanged')


def gt_inverse_root(u, ex, f):
    st = St()
    pa, a = tower_input(u, ex, st, 'a')
    u.fcase = lambda e: gt_inverse_case(wcase(e, 'a'))
    # a is not zero; the tower is a field, so neither is its norm
    add_fact(st.F, ('fne', FP.monic(norm12(a))))
    add_fact(st.F, T.cor(*[('fne', FP.monic(x)) for x in half12(a)]))
    o = ex.new_obj(st, 384, 'out')
    for s, r in paths(u, ex, st, f, [pa, o]):
        tower_eq(u, ex, s, o, None, '') if False else None
        got = tower_read(ex, s, o)
        for k, (x, y) in enumerate(zip(fmul12(a, got), ONE12)):
            u.feq(ex, s, x, y, 'product with the input is one (coefficient %d)' % k)


def gt_eq_root(u, ex, f):
    st = St()
    pa, a = tower_input(u, ex, st, 'a')
    pb, b = tower_input(u, ex, st, 'b')

    def case(e):
        x, y = wcase(e, 'a'), wcase(e, 'b')
        return Case('vp_gt_eq', 'b', [I(spec.enc_f12(x)), I(spec.enc_f12(y))], eqr(int(x == y)))
    u.fcase = case
    for s, r in paths(u, ex, st, f, [pa, pb]):
        # every difference of coefficients zero, or one of them not
        r = ex.simp(s, r)
        if isinstance(r, int):
            eqs = [f2zero(FP.sub(x, y)) for x, y in zip(a, b)]
            if r & 1:
                for c in eqs:
                    u.post(ex, s, c, 'reported equal only when every coefficient is')
            else:
                u.post(ex, s, int(any(decide(s.F, c) == 0 for c in eqs)), 'reported different only when a coefficient differs')
        else:
            from .exec import to_cond
            c = to_cond(s.F, r)
            for v, res in ((c, 1), (cneg(c), 0)):
                s2 = s.fork()
                if not add_fact(s2.F, v):
                    continue
                eqs = [decide(s2.F, f2zero(FP.sub(x, y))) for x, y in zip(a, b)]
                u.post(ex, s2, int(all(e == 1 for e in eqs)) if res else int(any(e == 0 for e in eqs)), 'equality')


def u_frob12(n):
    def unit(u, ex, f):
        st = St()
        p, a = tower_input(u, ex, st, 'a')
        o = ex.new_obj(st, 384, 'out')
        for s, r in paths(u, ex, st, f, [o, p, n]):
            tower_eq(u, ex, s, o, frob12(a, n), 'power q^%d' % n)
    return unit


def u_cyclosq(u, ex, f):
    """on the cyclotomic subgroup, where a * a^(q^4) = a^(q^2)"""
    st = St()
    p, a = tower_input(u, ex, st, 'a')
    o = ex.new_obj(st, 384, 'out')
    rel = [FP.sub(x, y) for x, y in zip(fmul12(a, frob12(a, 4)), frob12(a, 2))]
    for s, r in paths(u, ex, st, f, [o, p]):
        got = tower_read(ex, s, o)
        for k, (x, y) in enumerate(zip(got, fmul12(a, a))):
            u.post(ex, s, int(FP.span([FP.sub(x, y)], rel)), 'agrees with the square on the cyclotomic subgroup (coefficient %d)' % k)


def u_mul024(u, ex, f):
    st = St()
    p, a = tower_input(u, ex, st, 'a')
    qs, ls = [], []
    for nm in ('ell_0', 'ell_vw', 'ell_vv'):
        q, z = tower_input(u, ex, st, nm, 1)
        qs.append(q)
        ls += z
    Z = FP.const(FQ, 0)
    o = ex.new_obj(st, 384, 'out')
    for s, r in paths(u, ex, st, f, [o, p] + qs):
        tower_eq(u, ex, s, o, fmul12(a, [ls[0], Z, ls[2], Z, ls[1], Z]), 'product with the sparse value')


def verify_tower(V):
    V.root('squaring', '<%s as %ssquared' % (F12, FE), unit12(1, lambda a: fmul12(a, a), 'square in the extension field'))
    for n in range(4):
        V.root('Frobenius power %d' % n, '<%s>::frobenius_map' % F12, u_frob12(n))
    V.root('conjugation', '<%s>::unitary_inverse' % F12, unit12(1, lambda a: frob12(a, 6), 'power q^6'))
    V.root('cyclotomic squaring', '<%s>::cyclotomic_squared' % F12, u_cyclosq)
    V.root('sparse product', '<%s>::mul_by_024' % F12, u_mul024)


def verify_gt(V):
    V.root('target group product', 'vp_gt_mul', gt_mul_root)
    V.root('target group inverse', 'vp_gt_inverse', gt_inverse_root)
    V.root('target group equality', 'vp_gt_eq', gt_eq_root)

    def one(u, ex, f):
        st = St()
        o = ex.new_obj(st, 384, 'out')
        for s, r in paths(u, ex, st, f, [o]):
            tower_eq(u, ex, s, o, ONE12, 'one')
    V.root('target group one', 'vp_gt_one', one)
