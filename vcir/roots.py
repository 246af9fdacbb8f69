"""The properties as contracts of the public entry points (the vp_* roots of the driver crate): each root is verified for
every input, every callee being replaced by its contract or executed."""
from . import diff, fields, fpoly as FP, terms as T, words
from .diff import Case, I, IO, O, S, eqb, eqr, opt
from .exec import El, St, UNDEF, decide
from .fields import FLD, MOD, canonical_post, field_eq, fp_input
from .fpoly import FQ, FR, MONT, Q, R
from .spec import enc_r, word
from .terms import NOFACTS, Poly, Unsupported, add_fact, ceq, cge, cneg, ind, iv, padd, pmul, pscale, psub
from .unit import W256, new_words, paths, put_total, total
from .words import bool_post

RINV = diff.RINV
PROPS = {}
CONFIGS = {}


def prop(pid, *cfgs):
    def d(f):
        PROPS[pid] = f
        CONFIGS[pid] = list(cfgs) or ['ir', 'ir-nodebug']
        return f
    return d


# ---------------------------------------------------------------- C01
def fr_root(n, fun, what, fn, case):
    def body(u, ex, f):
        st = St()
        ins = [fp_input(u, ex, st, 'ab'[k], 'Fr') for k in range(n)]
        u.case = lambda v: case(*[v['ab'[k]] for k in range(n)])
        o = ex.new_obj(st, 32, 'out')
        for s, r in paths(u, ex, st, f, [p for _, p, _ in ins] + [o]):
            t = canonical_post(u, ex, s, o, 'Fr')
            field_eq(u, ex, s, 'Fr', t, fun(*[v for _, _, v in ins]), what)
            for a, p, _ in ins:
                u.eq(ex, s, total(ex, s, p), a, 'inputs unchanged')
    return body


def fr_pred(n, icond, what, case):
    def body(u, ex, f):
        st = St()
        ins = [fp_input(u, ex, st, 'ab'[k], 'Fr') for k in range(n)]
        u.case = lambda v: case(*[v['ab'[k]] for k in range(n)])
        for s, r in paths(u, ex, st, f, [p for _, p, _ in ins]):
            bool_post(u, ex, s, r, icond(s.F, *[a for a, _, _ in ins]), what)
    return body


def fcase(fn, want):
    def c(*a):
        return Case(fn, 'v', [I(word(x)) for x in a] + [O(32)], eqb(word(want(*a))))
    return c


def pcase(fn, want):
    def c(*a):
        return Case(fn, 'b', [I(word(x)) for x in a], eqr(int(want(*a))))
    return c


def arith_fr(V):
    words.verify(V)
    fields.verify_fp(V, ('Fr',))


@prop('C01')
def c01(V):
    arith_fr(V)
    for op, n, g, w in (('add', 2, FP.add, lambda a, b: (a + b) % R), ('sub', 2, FP.sub, lambda a, b: (a - b) % R),
                        ('mul', 2, FP.mul, lambda a, b: a * b * RINV % R), ('neg', 1, FP.neg, lambda a: -a % R),
                        ('zero', 0, lambda: FP.const(FR, 0), lambda: 0), ('one', 0, lambda: FP.const(FR, 1), lambda: MONT % R)):
        fn = 'vp_fr_' + op
        V.root('scalar ' + op, fn, fr_root(n, g, op + ' is exact modulo r', fn, fcase(fn, w)))
    V.root('scalar equality', 'vp_fr_eq', fr_pred(2, lambda F, a, b: ceq(F, psub(a, b)), 'equal exactly when the residues are',
                                                  pcase('vp_fr_eq', lambda a, b: a == b)))
    V.root('scalar zero test', 'vp_fr_is_zero', fr_pred(1, lambda F, a: ceq(F, a), 'zero exactly for the residue 0',
                                                        pcase('vp_fr_is_zero', lambda a: a == 0)))


# ---------------------------------------------------------------- C02
@prop('C02')
def c02(V):
    arith_fr(V)
    fields.verify_inverse(V, ('Fr',))

    def body(u, ex, f):
        def case(e):
            x = e['a']
            return Case('vp_fr_inverse', 'b', [I(word(x)), O(32)], opt(word(pow(x, -1, R) * MONT * MONT % R) if x else None))
        u.case = case

        def run(st, p, each):
            o = ex.new_obj(st, 32, 'out')
            for s, r in paths(u, ex, st, f, [p, o]):
                each(s, r, o)

        def euclid():
            st = St()
            a, p, v = fp_input(u, ex, st, 'a', 'Fr')

            def each(s, r, o):
                fields.inverse_posts(u, ex, s, 'Fr', a, v, r, o)
                u.eq(ex, s, total(ex, s, p), a, 'input unchanged')
            run(st, p, each)
        fields.euclid_or_fermat(u, ex, 'Fr', euclid, run)
    V.root('scalar inversion', 'vp_fr_inverse', body)


# ---------------------------------------------------------------- C05
def w256(u, ex, st, nm):
    a, p = new_words(ex, st, nm)
    u.inputs.append((a, nm))
    return a, p


def rel_root(op):
    cond = {'lt': lambda F, a, b: cge(F, psub(psub(b, a), 1)), 'le': lambda F, a, b: cge(F, psub(b, a)), 'gt': lambda F, a, b: cge(F, psub(psub(a, b), 1)),
            'ge': lambda F, a, b: cge(F, psub(a, b)), 'eq': lambda F, a, b: ceq(F, psub(a, b))}[op]
    want = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b}[op]

    def body(u, ex, f):
        st = St()
        a, pa = w256(u, ex, st, 'a')
        b, pb = w256(u, ex, st, 'b')
        u.case = lambda v: Case('vp_u256_' + op, 'b', [I(word(v['a'])), I(word(v['b']))], eqr(int(want(v['a'], v['b']))))
        for s, r in paths(u, ex, st, f, [pa, pb]):
            bool_post(u, ex, s, r, cond(s.F, a, b), op)
    return body


def cmp_root(fn):
    def body(u, ex, f):
        st = St()
        a, pa = w256(u, ex, st, 'a')
        b, pb = w256(u, ex, st, 'b')
        u.case = lambda v: Case(fn, 'b', [I(word(v['a'])), I(word(v['b']))], eqr(0 if v['a'] < v['b'] else 1 if v['a'] == v['b'] else 2))
        for s, r in paths(u, ex, st, f, [pa, pb]):
            if r not in (0, 1, 2):
                raise Unsupported('ordering %r' % (r,))
            d = psub(b, a)
            u.post(ex, s, cge(s.F, psub(d, 1)) if r == 0 else ceq(s.F, d) if r == 1 else cge(s.F, psub(-1, d)), 'agrees with the integer order')
    return body


def bit_root(fn, words_):
    def body(u, ex, f):
        st0 = St()
        a, pa = new_words(ex, st0, 'a', None, words_)
        n = T.var('n', 64 * words_, (1 << 64) - 1)
        u.inputs = [(a, 'a')]
        for k in range(64 * words_):
            u.case = lambda v, k=k: Case(fn, 'b', [I(word(v['a'], 8 * words_)), {'n': v.get('n', k)}],
                                         eqr((v['a'] >> v.get('n', k)) & 1 if v.get('n', k) < 64 * words_ else 2))
            st = st0.fork()
            for s, r in paths(u, ex, st, f, [pa, k]):
                u.eq(ex, s, r, T.bit(s.F, a, k), 'bit %d' % k)
        u.inputs.append((n, 'n'))
        st = st0.fork()
        for s, r in paths(u, ex, st, f, [pa, n]):
            u.eq(ex, s, r, 2, 'nothing beyond the width')
    return body


def setbit_root(u, ex, f):
    st0 = St()
    a, pa = new_words(ex, st0, 'a')
    to = T.var('to', 0, 1)
    n = T.var('n', 256, (1 << 64) - 1)
    u.inputs = [(a, 'a'), (to, 'to')]

    def case(k):
        def c(v):
            i, x = v.get('n', k), v['a']
            w = (x | (1 << i) if v['to'] else x & ~(1 << i)) if i < 256 else x
            return Case('vp_u256_set_bit', 'b', [IO(word(x)), {'n': i}, {'k': v['to']}], diff.both(eqr(int(i < 256)), eqb(word(w))))
        return c
    for k in range(256):
        u.case = case(k)
        st = st0.fork()
        for s, r in paths(u, ex, st, f, [pa, k, to]):
            u.eq(ex, s, r, 1, 'accepted')
            u.eq(ex, s, total(ex, s, pa), padd(a, pscale(psub(to, T.bit(s.F, a, k)), 1 << k)), 'bit %d written, the others kept' % k)
    u.inputs.append((n, 'n'))
    st = st0.fork()
    for s, r in paths(u, ex, st, f, [pa, n, to]):
        u.eq(ex, s, r, 0, 'refused')
        u.eq(ex, s, total(ex, s, pa), a, 'unchanged')


def bits_root(u, ex, f):
    st = St()
    a, pa = w256(u, ex, st, 'a')
    u.case = lambda v: Case('vp_u256_bits', 'n', [I(word(v['a'])), O(300)],
                            diff.both(eqr(256), lambda r: None if r[1][0][:256] == bytes((v['a'] >> k) & 1 for k in range(255, -1, -1)) else 'bits differ'))
    o = ex.new_obj(st, 300, 'out')
    for s, r in paths(u, ex, st, f, [pa, o]):
        u.eq(ex, s, r, 256, 'number of bits')
        for k in range(256):
            u.eq(ex, s, ex.load_n(s, o + k, 1), T.bit(s.F, a, 255 - k), 'bit %d in order' % k)


def divrem_root(u, ex, f):
    st = St()
    n, pn = new_words(ex, st, 'n', None, 8)
    m, pm = new_words(ex, st, 'm', (1 << 255) - 1, 4, 2)
    u.inputs = [(n, 'n'), (m, 'm')]
    u.case = lambda v: diff.divrem_case(v['n'], v['m'])
    ex.want_quotient = True
    q, r = ex.new_obj(st, 32, 'q'), ex.new_obj(st, 32, 'r')
    for s, tag in paths(u, ex, st, f, [pn, pm, q, r]):
        words.divrem_posts(u, ex, s, tag, lambda: total(ex, s, q), lambda: total(ex, s, r), n, m)


def from_root(u, ex, f):
    st = St()
    c1, p1 = w256(u, ex, st, 'c1')
    c0, p0 = w256(u, ex, st, 'c0')
    m, pm = w256(u, ex, st, 'm')
    v = padd(pmul(c1, m), c0)
    add_fact(st.F, cge(st.F, psub((1 << 512) - 1, v)))

    def case(e):
        n = e['c1'] * e['m'] + e['c0']
        return Case('vp_u512_from', 'v', [I(word(e[k])) for k in ('c1', 'c0', 'm')] + [O(64)], eqb(word(n, 64))) if n < 1 << 512 else None
    u.case = case
    o = ex.new_obj(st, 64, 'out')
    for s, _ in paths(u, ex, st, f, [p1, p0, pm, o]):
        u.eq(ex, s, total(ex, s, o, 8), v, 'c1*m + c0')


@prop('C05')
def c05(V):
    words.verify(V)
    for fn in ('vp_u256_cmp', 'vp_u256_partial_cmp'):
        V.root('ordering', fn, cmp_root(fn))
    for op in ('lt', 'le', 'gt', 'ge', 'eq'):
        V.root('ordering ' + op, 'vp_u256_' + op, rel_root(op))
    V.root('bit access', 'vp_u256_get_bit', bit_root('vp_u256_get_bit', 4))
    V.root('bit access', 'vp_u512_get_bit', bit_root('vp_u512_get_bit', 8))
    V.root('bit writing', 'vp_u256_set_bit', setbit_root)
    V.root('bit iteration', 'vp_u256_bits', bits_root)
    words.verify512(V)
    V.root('512-bit division', 'vp_u512_divrem', divrem_root, 200)
    V.root('composition', 'vp_u512_from', from_root)


# ---------------------------------------------------------------- C06
def c06_fields(V):
    from . import tower
    words.verify(V)
    fields.verify_fp(V, ('Fq',))
    fields.verify_inverse(V, ('Fq',))
    tower.verify_fq2(V)


@prop('C06')
def c06(V):
    from . import tower
    c06_fields(V)
    tower.verify_tower(V)
    tower.verify_gt(V)


# ---------------------------------------------------------------- C07, C09
@prop('C07')
def c07(V):
    from . import groups
    words.verify(V)
    fields.verify_fp(V, ('Fq',))
    from . import tower
    tower.verify_fq2(V, inv=False)
    groups.verify_c07(V)


@prop('C09')
def c09(V):
    from . import groups, tower
    words.verify(V)
    fields.verify_fp(V, ('Fq',))
    fields.verify_inverse(V, ('Fq',))
    tower.verify_fq2(V)
    groups.verify_c09(V)


# ---------------------------------------------------------------- C04, C08
@prop('C04')
def c04(V):
    from . import powers, tower
    words.verify(V)
    fields.verify_fp(V, ('Fr', 'Fq'))
    tower.verify_fq2(V, inv=False)
    powers.verify_c04(V)


@prop('C08')
def c08(V):
    from . import powers, tower
    words.verify(V)
    fields.verify_fp(V, ('Fr', 'Fq'))
    tower.verify_fq2(V, inv=False)
    powers.verify_c08(V)


# ---------------------------------------------------------------- bytes
@prop('C14', 'ir', 'ir-borsh')
def c14(V):
    from . import encode
    encode.verify_c14(V)


@prop('C10')
def c10(V):
    from . import encode
    encode.verify_c10(V)


# ---------------------------------------------------------------- decoding and sampling
@prop('C03')
def c03(V):
    from . import encode
    encode.verify_c03(V)


@prop('C13')
def c13(V):
    from . import sample
    sample.verify_c13(V)


# ---------------------------------------------------------------- pairing
@prop('C11')
def c11(V):
    from . import pairing
    c06_fields(V)
    pairing.c11(V)


@prop('C12')
def c12(V):
    from . import pairing
    c06_fields(V)
    pairing.c12(V)
