"""Sampling: the random source hands out unknown bytes; what is drawn is remembered."""
from . import diff, encode, fields, fpoly as FP, groups, pairing, powers, spec, terms as T, tower, words
from .diff import Case, I, O, eqb
from .exec import El, St, UNDEF
from .fields import canonical_post, get_el, get_fp, put_el
from .fpoly import FQ, FR, MONT, Q, R
from .terms import Poly, Unsupported, padd, pscale, psub
from .unit import new_words, paths, put_total, total
from .words import quotient, one_atom

LIMIT = 512


def draw(u, st, n):
    d = st.ghost.get('drawn', ())
    if len(d) + n > LIMIT:
        raise Unsupported('more than %d bytes are drawn' % LIMIT)
    bs = []
    for k in range(n):
        v = u.drawn.get(len(d) + k)
        if v is None:
            v = u.drawn[len(d) + k] = T.var('d%d' % (len(d) + k), 0, 255)
            u.inputs.append((v, 'd%d' % (len(d) + k)))
        bs.append(v)
    st.ghost['drawn'] = d + tuple(bs)
    return bs


def source(u, ex):
    """the random source of the driver: any bytes at all"""
    u.drawn = {}

    def num(n):
        def c(ex, st, args, f):
            return [(st, T.from_bytes(draw(u, st, n)))]
        return c

    def fill(ex, st, args, f):
        n = ex.concrete(st, args[1])
        for k, b in enumerate(draw(u, st, n)):
            ex.store_n(st, args[0] + k, 1, b)
        return [(st, None)]
    ex.contracts = dict(ex.contracts)
    ex.contracts.update({'vp_rng_u32': num(4), 'vp_rng_u64': num(8), 'vp_rng_fill': fill})


def big(bs):
    r = 0
    for b in bs:
        r = padd(pscale(r, 256), b)
    return r


def readings(d):
    """the 512-bit integers a fixed reading of the drawn bytes can mean, as diff.readings"""
    out = []
    for pick in (d[0:256:4] if len(d) >= 256 else (), d[:64]):
        if len(pick) == 64:
            out += [big(pick), big(pick[::-1]), big([b for i in range(0, 64, 8) for b in pick[i:i + 8][::-1]]),
                    big([b for i in range(56, -8, -8) for b in pick[i:i + 8]])]
    return out


def stream(env, n=600):
    return bytes(env.get('d%d' % k, 0) & 255 for k in range(n))


def is_reading(s, v, d=None):
    """the field value is a reading of what was drawn, as value or as Montgomery words"""
    named = [i for i in FP.fatoms(v) if i >= 0 and T.ATOMS[i].kind == 'n']
    if named:
        v = FP.fsubst(v, {i: FP.from_int(FR, T.expand_names(T.avar(T.ATOMS[i]))) for i in named})
    for rd in readings(s.ghost.get('drawn', ()) if d is None else d):
        if not FP.sub(v, FP.from_int(FR, rd)).t or not FP.sub(v, FP.of_raw(FR, rd)).t:
            return True
    return False


def fr_sample(u, ex, f):
    source(u, ex)

    def case(env):
        b = stream(env)

        def chk(r):
            v = spec.dec_r(r[1][0])
            if v is None:
                return 'sample is not canonical'
            if v not in diff.scalars(b):
                return 'sample %d is no 512-bit reduction of the bytes drawn' % v
        return Case('vp_fr_sample', 'v', [O(32)], chk, rng=b)
    u.case = case
    st = St()
    o = ex.new_obj(st, 32, 'out')
    for s, r in paths(u, ex, st, f, [o]):
        t = canonical_post(u, ex, s, o, 'Fr')
        u.post(ex, s, int(is_reading(s, FP.of_raw(FR, t))), 'the sample is the 512-bit reduction of the bytes drawn')


def u512_random(u, ex, f):
    source(u, ex)

    def case(env):
        b = stream(env)
        return Case('vp_u512_random', 'v', [O(64)], lambda r: None if spec.le(r[1][0]) in diff.readings(b) else 'not a reading of the bytes drawn', rng=b)
    u.case = case
    st = St()
    o = ex.new_obj(st, 64, 'out')
    for s, r in paths(u, ex, st, f, [o]):
        t = T.expand_names(total(ex, s, o, 8))
        u.post(ex, s, int(any(psub(t, v) == 0 for v in readings(s.ghost.get('drawn', ())))), 'a reading of the bytes drawn')


def u256_random(u, ex, f):
    source(u, ex)
    st = St()
    m, p = new_words(ex, st, 'm', (1 << 255) - 1, 4, 2)
    u.inputs.append((m, 'm'))

    def case(env):
        b, k = stream(env), env.get('m', 7)
        return Case('vp_u256_random', 'v', [I(spec.word(k)), O(32)],
                    lambda r: None if spec.le(r[1][0]) in {v % k for v in diff.readings(b)} else 'not a 512-bit reduction of the bytes drawn', rng=b)
    u.case = case
    o = ex.new_obj(st, 32, 'out')
    for s, r in paths(u, ex, st, f, [p, o]):
        t = total(ex, s, o)
        ok = False
        for v in readings(s.ghost.get('drawn', ())):
            n = one_atom(s.F, v, (1 << 512) - 1)
            if isinstance(n, Poly) and psub(t, quotient(n, m)[1]) == 0:
                ok = True
        u.post(ex, s, int(ok), 'the remainder of a reading of the bytes drawn')
        u.eq(ex, s, total(ex, s, p), m, 'modulus unchanged')


def smul_contract(g):
    """scalar multiplication of the formal base by any canonical scalar"""
    def c(ex, st, args, f):
        a = powers.get(ex, st, args[1], g.name)
        if a is None or a[1:] != ('base', 1):
            return NotImplemented
        put_el(ex, st, args[0], g.name, ('smul', 'base', get_fp(ex, st, args[2], 'Fr')))
        return [(st, None)]
    return c


def one_contract(g):
    def c(ex, st, args, f):
        if not powers.is_formal(ex, g.name):
            return NotImplemented
        put_el(ex, st, args[0], g.name, ('mul', 'base', 1))
        return [(st, None)]
    return c


def point_root(g, fn):
    def body(u, ex, f):
        source(u, ex)
        ex.formal = (g.name,)

        def case(env):
            b = stream(env)

            def chk(r):
                st, p = g.C.point(r[1][0])
                if st != 'ok':
                    return 'sample is not a valid point: %s' % p
                if not any(p == g.C.mul(g.C.gen, k) for k in diff.likely(b)):
                    return 'sample is not the generator times a 512-bit reduction of the bytes drawn'
            return Case(fn, 'v', [O(3 * g.size)], chk, rng=b)
        u.case = case
        st = St()
        o = ex.new_obj(st, 3 * g.size, 'out')
        for s, r in paths(u, ex, st, f, [o]):
            x = ex.obj(s, o).cells.get(0)
            v = x[1].v if x is not None and isinstance(x[1], El) and x[1].sort == g.name else None
            if v is None or v[0] != 'smul':
                raise Unsupported('result %r' % (x,))
            u.post(ex, s, int(is_reading(s, v[2])), 'the generator times the 512-bit reduction of the bytes drawn')
    return body


def gt_root(u, ex, f):
    source(u, ex)
    ex.formal = ('G1', 'G2', 'Fq12')

    def case(env):
        def chk(r):
            v = spec.dec_f12(r[1][0])
            if v is None:
                return 'sample is not canonical'
            if v == spec.F12_ZERO or spec.f12pow(v, R) != spec.F12_ONE:
                return 'sample is not in the order-r subgroup'
        return Case('vp_gt_sample', 'v', [O(384)], chk, rng=stream(env))
    u.case = case
    st = St()
    o = ex.new_obj(st, 384, 'out')
    for s, r in paths(u, ex, st, f, [o]):
        v = fields.peek(ex, s, o, 'Fq12')
        if v is None or v[0] != 'pair' or v[1][0] != 'smul' or v[2][0] != 'smul':
            raise Unsupported('result %r' % (v,))
        d = s.ghost.get('drawn', ())
        h = len(d) // 2
        u.post(ex, s, int(is_reading(s, v[1][2], d[:h]) and is_reading(s, v[2][2], d[h:])),
               'the pairing of the generators times two 512-bit reductions of the bytes drawn')


def verify_c13(V):
    encode.decoding(V, ('Fr', 'Fq'))
    tower.verify_fq2(V, inv=False)
    V.root('scalar sampling', 'vp_fr_sample', fr_sample, 100)
    V.root('512-bit sampling', 'vp_u512_random', u512_random, 100)
    V.root('256-bit sampling', 'vp_u256_random', u256_random, 100)
    powers.verify_smul(V, smul_contract)
    for g in groups.GROUPS:
        for fn in ('<%sParams as rabe_bn::groups::GroupParams>::one' % (groups.GR + g.name), '<%s as %sGroupElement>::one' % (g.ty, groups.GR)):
            V.unit(g.name + '::one', fn, groups.r_const(g, g.C.gen, g.pre + 'one'), one_contract(g))
    for g in groups.GROUPS:
        for fn in ('random', 'sample'):
            V.root('%s sampling (%s)' % (g.name, fn), g.pre + fn, point_root(g, g.pre + fn), 200)
    fields.verify_inverse(V, ('Fq',))
    tower.verify_fq2(V)
    pairing.verify_pairing(V)
    V.root('target group sampling', 'vp_gt_sample', gt_root, 100)
