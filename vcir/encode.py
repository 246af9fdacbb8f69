"""Bytes: serialisation round trips, encodings, decoding and sampling."""
from . import diff, fields, fpoly as FP, spec, terms as T, words
from .diff import Case, I, O, S, eqb, eqr, opt
from .exec import El, St, UNDEF
from .fields import fp_input, canonical_post, field_eq
from .fpoly import FR, MONT, Q, R
from .spec import word
from .terms import NOFACTS, Poly, Unsupported, add_fact, cge, limbs, padd, pscale, psub
from .unit import new_words, paths, put_total, total

TYPES = {'fr': 4, 'g1': 12, 'g2': 24, 'gt': 48}
MODS = {'fr': R, 'g1': Q, 'g2': Q, 'gt': Q}


def raw_input(u, ex, st, n, m):
    """an object of n words holding canonical coordinates below m; nothing else is known about them"""
    p = ex.new_obj(st, 8 * n, 'x')
    vs = []
    for k in range(n // 4):
        v = T.var('v%d' % k, 0, m - 1)
        put_total(ex, st, p + 32 * k, v)
        u.inputs.append((v, 'v%d' % k))
        vs.append(v)
    return vs, p


def image(env, n, valid=True):
    """the native input; with valid, points of the curve only"""
    img = b''.join(word(env.get('v%d' % k, 0)) for k in range(n // 4))
    if n in (12, 24) and valid:
        C = spec.E1 if n == 12 else spec.E2
        if C.point(img)[0] != 'ok':
            z = C.decf(img[2 * C.size:])
            img = C.img(C.mul(C.gen, 1 + sum(img) % 1000), z if z not in (None, C.z) else None)
    return img


def unchanged(u, ex, s, p, vs):
    for k, v in enumerate(vs):
        u.eq(ex, s, total(ex, s, p + 32 * k), v, 'input unchanged')


def rt_root(fn, n, m):
    def body(u, ex, f):
        st = St()
        vs, p = raw_input(u, ex, st, n, m)

        def case(env):
            img = image(env, n)
            return Case(fn, 'b', [I(img), O(len(img))], diff.both(eqr(0), eqb(img)))
        u.case = case
        o = ex.new_obj(st, 8 * n, 'out')
        for s, r in paths(u, ex, st, f, [p, o]):
            u.eq(ex, s, r, 0, 'a value comes back and everything written is consumed')
            for k, v in enumerate(vs):
                if any(ex.load_n(s, o + 32 * k + 8 * j, 8) is UNDEF for j in range(4)):
                    u.post(ex, s, 0, 'coordinate %d is written' % k)
                    continue
                u.eq(ex, s, total(ex, s, o + 32 * k), v, 'coordinate %d comes back' % k)
            unchanged(u, ex, s, p, vs)
    return body


def verify_c14(V):
    for t, n in TYPES.items():
        V.root('round trip of ' + t, 'vp_rt_' + t, rt_root('vp_rt_' + t, n, MODS[t]), 200)
    if not V.config.endswith('borsh'):
        for t, n in TYPES.items():
            V.root('round trip of %s, self-describing format' % t, 'vp_rth_' + t, rt_root('vp_rth_' + t, n, MODS[t]), 200)


def enc_root(fn, n, m):
    """fixed length, and every byte of the value is a byte of the encoding"""
    def body(u, ex, f):
        st = St()
        vs, p = raw_input(u, ex, st, n, m)
        N = 8 * n

        def case(env):
            img = image(env, n, False)
            w = diff.be_words(img)
            return Case(fn, 'n', [I(img), O(N + 64), {'n': N + 64}],
                        lambda r: None if r[0] == N and r[1][0][:N] == w else 'encoding is %d bytes %s, expected %s' % (r[0], r[1][0][:N].hex(), w.hex()))
        u.case = case
        o = ex.new_obj(st, N + 64, 'out')
        at = {}         # (coordinate, byte) -> place in the encoding, the same on every path
        done = []
        for s, r in paths(u, ex, st, f, [p, o, N + 64]):
            u.eq(ex, s, r, N, 'the length is %d' % N)
            out = [ex.load_n(s, o + k, 1) for k in range(N)]
            got = {}
            for k, b in enumerate(out):
                if isinstance(b, Poly):
                    got.setdefault(b, k)
            bs = {}
            for k, v in enumerate(vs):
                w = ex.simp(s, v)
                for j, (b, c) in enumerate(zip(limbs(NOFACTS, v, 32, 8), limbs(s.F, v, 32, 8))):
                    bs[k, j] = b, word(w)[j] if isinstance(w, int) else c
                for F in (NOFACTS, s.F):
                    for j, b in enumerate(limbs(F, v, 32, 8)):
                        if b in got:
                            at.setdefault((k, j), got[b])
            done.append((s, out, bs))
            unchanged(u, ex, s, p, vs)
        for s, out, bs in done:
            for (k, j), (b, c) in bs.items():
                what = 'byte %d of coordinate %d is part of the encoding' % (j, k)
                if (k, j) not in at or out[at[k, j]] is UNDEF:
                    u.post(ex, s, 0, what)
                elif out[at[k, j]] in (b, c):
                    u.post(ex, s, 1, what)
                else:
                    u.eq(ex, s, out[at[k, j]], c, what)
    return body


def verify_c10(V):
    for t, n in TYPES.items():
        for fn in ('vp_%s_into_bytes' % t,) + (('vp_%s_vec' % t,) if t != 'g2' else ()):
            V.root('encoding of ' + t, fn, enc_root(fn, n, MODS[t]), 200)


# ---------------------------------------------------------------- C03
def int_value(f, t):
    """the residue of an integer as a field value"""
    return FP.from_int(f, t)


def image_be(env, n):
    return bytes(env.get('b%d' % k, 0) for k in range(n))


def slice_root(u, ex, f):
    def case(env):
        if env.get('n'):
            return Case('vp_fr_from_slice', 'b', [S((bytes(range(256)) * 16)[:min(env['n'], 4096)]), O(32)], opt(None))
        b = image_be(env, 32)
        return Case('vp_fr_from_slice', 'b', [S(b), O(32)], opt(spec.enc_r(int.from_bytes(b, 'big') % R)))
    u.case = case
    # 32 bytes
    st = St()
    b, v, bs = words.be_bytes(u, ex, st, 'b', 32)
    o = ex.new_obj(st, 32, 'out')
    for s, r in paths(u, ex, st, f, [b, 32, o]):
        u.eq(ex, s, r, 1, '32 bytes are accepted')
        t = canonical_post(u, ex, s, o, 'Fr')
        field_eq(u, ex, s, 'Fr', t, int_value(FR, v), 'the scalar is the big-endian integer modulo r')
        for k, x in enumerate(bs):
            u.eq(ex, s, ex.load_n(s, b + k, 1), x, 'input unchanged')
    # any other length
    n = T.var('n', 33, (1 << 63) - 1)
    u.inputs.append((n, 'n'))
    for k in list(range(32)) + [n]:
        st = St()
        b = ex.new_obj(st, k if isinstance(k, int) else 33, 'bytes')
        for j in range(k if isinstance(k, int) else 33):
            ex.store_n(st, b + j, 1, bs[min(j, 31)])
        o = ex.new_obj(st, 32, 'out')
        for s, r in paths(u, ex, st, f, [b, k, o]):
            u.eq(ex, s, r, 0, 'another length is refused')


def interpret_root(u, ex, f):
    st = St()

    def case(e):
        b = image_be(e, 64)
        return Case('vp_fr_interpret', 'v', [I(b), O(32)], eqb(spec.enc_r(int.from_bytes(b, 'big') % R)))
    u.case = case
    b, v, bs = words.be_bytes(u, ex, st, 'b', 64)
    o = ex.new_obj(st, 32, 'out')
    for s, r in paths(u, ex, st, f, [b, o]):
        t = canonical_post(u, ex, s, o, 'Fr')
        field_eq(u, ex, s, 'Fr', t, int_value(FR, v), 'the scalar is the 512-bit big-endian integer modulo r')
        for k, x in enumerate(bs):
            u.eq(ex, s, ex.load_n(s, b + k, 1), x, 'input unchanged')


def factor_root(u, ex, f):
    st = St()
    v, p = new_words(ex, st, 'v')
    u.inputs = [(v, 'v')]
    u.case = lambda e: Case('vp_fr_new_mul_factor', 'v', [I(word(e['v'])), O(32)], eqb(spec.enc_r(e['v'] % R)))
    o = ex.new_obj(st, 32, 'out')
    for s, r in paths(u, ex, st, f, [p, o]):
        t = canonical_post(u, ex, s, o, 'Fr')
        field_eq(u, ex, s, 'Fr', t, int_value(FR, v), 'the scalar is the integer modulo r')
        u.eq(ex, s, total(ex, s, p), v, 'input unchanged')


def decoding(V, sorts=('Fr',)):
    words.verify(V)
    fields.verify_fp(V, sorts)
    words.verify512(V)
    words.verify_interpret(V)


def verify_c03(V):
    decoding(V)
    from . import strings
    V.unit('byte iterator', strings.ITER, strings.iter_unit)
    V.root('scalar from text', 'vp_fr_from_str', strings.str_root, 200)
    V.root('scalar from a byte string', 'vp_fr_from_slice', slice_root, 200)
    V.root('scalar from 64 bytes', 'vp_fr_interpret', interpret_root, 200)
    V.root('scalar from a 256-bit integer', 'vp_fr_new_mul_factor', factor_root, 200)
