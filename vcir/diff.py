"""Native runs of the public API against spec.py on structured inputs.

Two uses: (1) confirming on the real code an input that a failed obligation points at, (2) the bounded stand-in for
obligations the prover could not decide (labelled bounded, never counted as proved).  A case is a dict
{fn, ret, args, rng, note}; an oracle maps (case inputs, result) to None or a description of what is wrong."""
import random

from .spec import (B2, E1, E2, F12_ONE, F12_ZERO, MONT, Q, R, be_words, dec_f12, dec_q, dec_r, enc, enc_f2, enc_f12, enc_q, enc_r,
                   f12conj, f12frob, f12inv, f12mul, f12pow, f2mul, f2sqrt, f2add, f2neg, from_str, le, pairing, word)

M64 = (1 << 64) - 1


class Case:
    __slots__ = ('fn', 'ret', 'args', 'rng', 'check', 'note')

    def __init__(self, fn, ret, args, check, rng=b'', note=''):
        self.fn, self.ret, self.args, self.check, self.rng, self.note = fn, ret, args, check, rng, note

    def json(self):
        return {'fn': self.fn, 'ret': self.ret, 'args': self.args, 'rng': self.rng.hex(), 'note': self.note}


def I(b):
    return {'i': b.hex()}


def O(n):
    return {'o': n}


def IO(b):
    return {'io': b.hex()}


def S(b):
    return {'s': b.hex()}


def limbs(v, n=4):
    return [(v >> (64 * i)) & M64 for i in range(n)]


def unl(ws):
    return sum(w << (64 * i) for i, w in enumerate(ws))


# ---------------------------------------------------------------- input pools
def raw_pool(p, rnd, n=400):
    """interesting values below p: limb patterns, neighbours of p, of zero and of powers of two"""
    pl = limbs(p)
    out = [0, 1, 2, 3, p - 1, p - 2, p - 3, p // 2, p // 2 + 1, p // 3, MONT % p, p - MONT % p, MONT * MONT % p, pow(MONT, -1, p),
           p - pow(MONT, -1, p), MONT ** 3 % p, (MONT - 1) % p, p - 2 * (MONT % p) % p, 2 * MONT % p]
    for k in range(0, 254):
        if k % 32 in (0, 1, 31) or k > 245:
            out += [1 << k, (1 << k) - 1, (1 << k) + 1]
    for i in range(4):
        for w in (1, 1 << 31, 1 << 32, 1 << 63, M64, M64 - 1, 0xffffffff, 0xffffffff00000000, pl[i], pl[i] - 1, pl[i] + 1):
            out.append(w << (64 * i))
            out.append(p - (w << (64 * i)))
            out.append((p & ~(M64 << (64 * i))) | (w << (64 * i)))
            out.append((((1 << 253) - 1) & ~(M64 << (64 * i))) | (w << (64 * i)))
    out = [v for v in out if 0 <= v < p]
    while len(out) < n + 250:
        ws = [rnd.choice([0, 0, 1, 2, 0xffffffff, 1 << 32, 1 << 63, (1 << 63) - 1, M64, M64 - 1, pl[i], pl[i] - 1, pl[i] + 1,
                          rnd.getrandbits(64), rnd.getrandbits(32), rnd.getrandbits(32) << 32]) & M64 for i in range(4)]
        v = unl(ws)
        if v < p:
            out.append(v)
        elif v % (1 << 253) < p:
            out.append(v % (1 << 253))
    out += [rnd.randrange(p) for _ in range(n // 4)]
    return out


def small_delta(rnd):
    return rnd.choice([0, 1, -1, 2, -2, 1 << 32, -(1 << 32), 1 << 64, -(1 << 64), 1 << 128, -(1 << 128), 1 << 192, -(1 << 192),
                       M64, -M64, M64 << 64, M64 << 128, (1 << rnd.randrange(254)), -(1 << rnd.randrange(254))])


def raw_pairs(p, rnd, n):
    pool = raw_pool(p, rnd)
    out = []
    for a in pool[:60]:
        for b in pool[:14]:
            out.append((a, b))
    while len(out) < n:
        a = rnd.choice(pool)
        k = rnd.randrange(8)
        if k == 0:
            b = p - a + small_delta(rnd)
        elif k == 1:
            b = a + small_delta(rnd)
        elif k == 2:
            b = (1 << (64 * rnd.randrange(1, 4))) * rnd.getrandbits(62) - a
        elif k == 3:
            t = rnd.choice(pool)
            b = t * pow(a, -1, p) * MONT % p if a % p else 0
        elif k == 4:
            b = rnd.randrange(p)
        elif k == 5:
            # one limb equal, the others arbitrary
            i = rnd.randrange(4)
            b = (rnd.randrange(p) & ~(M64 << 64 * i)) | (a & (M64 << 64 * i))
        else:
            b = rnd.choice(pool)
        if 0 <= b < p:
            out.append((a, b))
    return out


def canon(v):
    """raw image -> canonical value"""
    return v * pow(MONT, -1, R) % R


RINV = pow(MONT, -1, R)


# ---------------------------------------------------------------- oracles
def eqb(want, what='result'):
    def f(r):
        if r[1][0] != want:
            return '%s is %s, expected %s' % (what, r[1][0].hex(), want.hex())
    return f


def eqr(want):
    def f(r):
        if r[0] != want:
            return 'returned %d, expected %d' % (r[0], want)
    return f


def both(*fs):
    def f(r):
        for g in fs:
            e = g(r)
            if e:
                return e
    return f


def opt(want):
    """Option<image>"""
    def f(r):
        if want is None:
            if r[0]:
                return 'returned a value (%s), expected none' % r[1][0].hex()
        elif not r[0]:
            return 'returned none, expected %s' % want.hex()
        elif r[1][0] != want:
            return 'result is %s, expected %s' % (r[1][0].hex(), want.hex())
    return f


# ---------------------------------------------------------------- histories
def walk(rnd, steps, *pools):
    """argument tuples of successive calls: mostly one argument changes from call to call, and earlier calls come back, so
    that a result kept from another call under too small a key shows"""
    cur = [rnd.choice(p) for p in pools]
    seen = []
    for _ in range(steps):
        k = rnd.randrange(8)
        if k == 0 and seen:
            cur = list(rnd.choice(seen))
        elif k == 1:
            cur = [rnd.choice(p) for p in pools]
        elif k == 2 and len(pools) > 1:
            i, j = rnd.sample(range(len(pools)), 2)
            if cur[j] in pools[i] and cur[i] in pools[j]:
                cur[i], cur[j] = cur[j], cur[i]
        else:
            i = rnd.randrange(len(pools))
            cur[i] = rnd.choice(pools[i])
        seen.append(tuple(cur))
        yield tuple(cur)


def tour(xs):
    """a closed sequence in which every x is followed by every x once"""
    left = {x: list(xs) for x in xs}
    st, out = [xs[0]], []
    while st:
        if left[st[-1]]:
            st.append(left[st[-1]].pop())
        else:
            out.append(st.pop())
    return out[::-1]


def kin(p, rnd):
    """values below p that agree with one another in part: negatives, single limbs changed, images and values, inverses"""
    a = rnd.randrange(1, p)
    out = [a, p - a, a ^ 1, a ^ (1 << 64), a ^ (1 << 128), a ^ (1 << 192), a & M64, a & ~M64, a * MONT % p, a * pow(MONT, -1, p) % p,
           pow(a, -1, p), a * a % p, 0, 1, MONT % p]
    return [v for v in out if 0 <= v < p]


def family(C, rnd):
    """(point, image) pairs that agree with one another in part of the image or of the point"""
    p = C.mul(C.gen, rnd.randrange(1, R))
    w = pow(2, (Q - 1) // 3, Q)
    wp = (C.fmul(w if C is E1 else (w, 0), p[0]), p[1])
    z = rand_f(C, rnd)
    mz = C.fsub(C.z, z)
    two = C.add(p, p)
    fam = [(p, z), (C.neg(p), z), (p, mz), (C.neg(p), mz), (p, C.o), (C.neg(p), C.o), (wp, z), (C.neg(wp), z), (wp, C.o), (two, z), (C.gen, C.o),
           (C.gen, z)]
    out = [(q, C.img(q, y)) for q, y in fam]
    n = C.size
    pi = C.img(p, z)
    z2 = C.fmul(z, z)
    out.append((None, C.img(None, junk=(C.fmul(p[0], z2), C.fmul(p[1], C.fmul(z2, z))))))     # the x and y of the first, z = 0
    out.append((None, C.img(None)))
    assert out[-2][1][:2 * n] == pi[:2 * n]
    return out


# ---------------------------------------------------------------- C01
def c01(rnd, n):
    for _ in range(12):
        k = kin(R, rnd)
        for a, b in walk(rnd, n // 20, k, k):
            ab = [I(word(a)), I(word(b))]
            yield Case('vp_fr_add', 'v', ab + [O(32)], eqb(word((a + b) % R)))
            yield Case('vp_fr_sub', 'v', ab + [O(32)], eqb(word((a - b) % R)))
            yield Case('vp_fr_mul', 'v', ab + [O(32)], eqb(word(a * b * RINV % R)))
            yield Case('vp_fr_eq', 'b', ab, eqr(int(a == b)))
            yield Case('vp_fr_neg', 'v', ab[:1] + [O(32)], eqb(word(-a % R)))
            yield Case('vp_fr_is_zero', 'b', ab[:1], eqr(int(a == 0)))
    for a, b in raw_pairs(R, rnd, n):
        A, B = word(a), word(b)
        ab = [I(A), I(B)]
        yield Case('vp_fr_add', 'v', ab + [O(32)], eqb(word((a + b) % R)))
        yield Case('vp_fr_sub', 'v', ab + [O(32)], eqb(word((a - b) % R)))
        yield Case('vp_fr_mul', 'v', ab + [O(32)], eqb(word(a * b * RINV % R)))
        yield Case('vp_fr_eq', 'b', ab, eqr(int(a == b)))
        yield Case('vp_fr_neg', 'v', [I(A), O(32)], eqb(word(-a % R)))
        yield Case('vp_fr_is_zero', 'b', [I(A)], eqr(int(a == 0)))
    yield Case('vp_fr_zero', 'v', [O(32)], eqb(word(0)))
    yield Case('vp_fr_one', 'v', [O(32)], eqb(enc_r(1)))


# ---------------------------------------------------------------- C02
def c02(rnd, n):
    pool = raw_pool(R, rnd, n)
    pool += [enc_v for k in range(1, 40) for enc_v in (le(enc_r(k)), le(enc_r(-k)), le(enc_r(pow(2, k, R))), le(enc_r(pow(2, -k, R))))]
    pool += [MONT * MONT * pow(v, -1, R) % R for v in pool[:200] if v]
    for _ in range(20):
        pool += [a for a, in walk(rnd, 40, kin(R, rnd))]
    for a in pool:
        want = word(MONT * MONT * pow(a, -1, R) % R) if a else None
        yield Case('vp_fr_inverse', 'b', [I(word(a)), O(32)], opt(want))


# ---------------------------------------------------------------- C03
def c03(rnd, n):
    pool = raw_pool(R, rnd)
    ints = pool[:]
    for k in range(0, 6):
        ints += [k * R + d for d in (-2, -1, 0, 1, 2)]
    ints += [(1 << 256) - 1, (1 << 256) - 2, (1 << 255), (1 << 255) - 1, (1 << 254), 5 * R - 1] + [rnd.getrandbits(256) for _ in range(n)]
    pl = limbs(R)
    for _ in range(n):
        ints.append(unl([rnd.choice([0, 1, M64, pl[i], pl[i] - 1, (5 * pl[i]) & M64, rnd.getrandbits(64)]) for i in range(4)]))
    ints = [v for v in ints if 0 <= v < 1 << 256]
    for _ in range(10):
        ints += [a for a, in walk(rnd, 40, kin(R, rnd) + [v + R for v in kin(R, rnd)])]
    for v in ints:
        b = v.to_bytes(32, 'big')
        yield Case('vp_fr_from_slice', 'b', [S(b), O(32)], opt(enc_r(v)))
        yield Case('vp_fr_new_mul_factor', 'v', [I(word(v)), O(32)], eqb(enc_r(v)))
    for ln in list(range(0, 70)) + [127, 128, 255, 256, 257, 1000]:
        if ln != 32:
            for b in (bytes(ln), bytes([255]) * ln, rnd.randbytes(ln)):
                yield Case('vp_fr_from_slice', 'b', [S(b), O(32)], opt(None))
    big = []
    for v in [0, 1, R - 1, R, R + 1, (1 << 512) - 1, (1 << 511), (1 << 256) - 1, 1 << 256, (1 << 512) // R * R, (1 << 512) // R * R - 1,
              R << 256, (R << 256) - 1, R << 258, (R << 258) - 1, R * R, R * R - 1, R * R + 1]:
        big.append(v)
    big += [k * R + d for k in range(1, 12) for d in (-1, 0, 1, rnd.getrandbits(64), rnd.randrange(R))]
    for b in range(1, 513):
        big += [rnd.getrandbits(b), rnd.getrandbits(b) << 512 - b]
        big.append(rnd.getrandbits(min(b, 257)) * R + rnd.choice([0, 1, R - 1, rnd.randrange(R)]))
    for _ in range(n):
        k = rnd.randrange(5)
        if k == 0:
            big.append(rnd.getrandbits(512))
        elif k == 1:
            big.append(rnd.randrange((1 << 512) // R) * R + small_delta(rnd))
        elif k == 2:
            big.append(1 << rnd.randrange(512))
        elif k == 3:
            big.append(unl([rnd.choice([0, 1, M64, rnd.getrandbits(64)]) for _ in range(8)]))
        else:
            big.append((1 << rnd.randrange(513)) - 1)
    for _ in range(10):
        u = [a + (b << 256) for a, b in zip(kin(R, rnd), kin(R, rnd))]
        big += [a for a, in walk(rnd, 40, u + [v ^ 1 for v in u] + [v >> 256 for v in u] + [v >> 256 << 256 for v in u])]
    for v in big:
        if 0 <= v < 1 << 512:
            yield Case('vp_fr_interpret', 'v', [I(v.to_bytes(64, 'big')), O(32)], eqb(enc_r(v)))
    strs = ['', '0', '00', '1', '9', '10', '99', str(R), str(R - 1), str(R + 1), str(R * 10), '0' * 200 + '7', str(1 << 256), str((1 << 256) - 1),
            str((1 << 512) - 1), '1' * 300, '9' * 400, '-1', '+1', ' 1', '1 ', '1a', 'a', 'A', 'f', '0x10', '1_0', '1.0', '1e5', '\u0661',
            '1\u0662', '\uff11', '12\uff10', '\u00b2', '\u2460', '\ufe0e', 'x' * 50, '\n', '5\n', '\t5', '1,000', '\u0967', '\U0001d7d8', '/', ':', '0/', '0:',
            '12\x00', '\x00', '\u06f5', '\u0bef']
    # beyond what a length in 8, 16 or 20 bits, or a fixed buffer, can hold
    for ln in (513, 1025, 2049, 4097, 8193, 32769, 65537, 70001, (1 << 20) + 1):
        strs += ['0' * (ln - 1) + '5', str(rnd.randrange(1, 10)) + '0' * (ln - 4) + '%03d' % rnd.randrange(1000)]
        if ln < 10000:
            strs += [''.join(rnd.choice('0123456789') for _ in range(ln)), '7' * (ln - 1) + 'x', 'x' + '7' * (ln - 1)]
    for c in range(0, 256):
        strs.append(chr(c))
        strs.append('12' + chr(c))
        strs.append(chr(c) + '3')
    for _ in range(n // 2):
        strs.append(''.join(rnd.choice('0123456789') for _ in range(rnd.randrange(1, 160))))
    for _ in range(n // 6):
        s = list(''.join(rnd.choice('0123456789') for _ in range(rnd.randrange(1, 80))))
        s[rnd.randrange(len(s))] = rnd.choice(['a', 'z', '-', '+', ' ', '\u0660', '\uff19', '.', '\u00b3', '/', ':', '\U0001d7ce'])
        strs.append(''.join(s))
    for _ in range(10):
        t = str(rnd.randrange(R))
        u = [t, t[:-1], t + '0', '0' + t, t[::-1], t[:-1] + 'x', 'x' + t[1:], t[:40], t[40:], '', '0', t[:-1] + ' ']
        strs += [a for a, in walk(rnd, 40, u)]
    for s in strs:
        v = from_str(s)
        yield Case('vp_fr_from_str', 'b', [S(s.encode()), O(32)], opt(None if v is None else enc_r(v)), note=s[:40])


# ---------------------------------------------------------------- exponents
def exponents(rnd, n, p=R):
    out = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, p - 1, p - 2, p - 3, (p - 1) // 2, (p + 1) // 2]
    for k in range(254):
        if k % 16 in (0, 15) or k > 248:
            out += [1 << k, (1 << k) - 1, (1 << k) + 1]
    for i in range(4):
        out += [(M64 << 64 * i) & ((1 << 253) - 1), ((1 << 253) - 1) & ~(M64 << 64 * i), rnd.getrandbits(61) << 64 * i]
    for i in range(8):
        out += [(0xffffffff << 32 * i) & ((1 << 253) - 1), ((1 << 253) - 1) & ~(0xffffffff << 32 * i), (p - 1) & ~(0xffffffff << 32 * i)]
    out += [(1 << 253) - 1, 0x5555555555555555555555555555555555555555555555555555555555555555 % (1 << 253), int('a' * 64, 16) % (1 << 253)]
    # close to the modulus, and to the cube roots of one (the scalars of the curve automorphism)
    for k in range(0, 253, 9):
        out += [p - (1 << k), p - (1 << k) - rnd.getrandbits(k + 1)]
    for k in (62, 63, 64, 126, 127, 128, 190, 191, 192):
        out += [p - (1 << k), p - (1 << k) + 1, p - (1 << k) - 1, p - rnd.getrandbits(k), (p >> 192 << 192) | rnd.getrandbits(k)]
    w = pow(5, (p - 1) // 3, p)
    for l in (w, w * w % p):
        out += [l, l + 1, l - 1, p - l, 2 * l % p, (l + rnd.getrandbits(64)) % p]
    for _ in range(n):
        k = rnd.randrange(3)
        if k == 0:
            out.append(rnd.randrange(p))
        elif k == 1:
            out.append(unl([rnd.choice([0, 0, 1, M64, rnd.getrandbits(64), 1 << rnd.randrange(64)]) for _ in range(4)]) % p)
        else:
            out.append(sum(1 << rnd.randrange(253) for _ in range(rnd.randrange(1, 4))) % p)
    return [e for e in out if 0 <= e < p]


def f12_pool(rnd, n):
    out = [F12_ONE, ((Q - 1, 0),) + ((0, 0),) * 5]
    # elements of the subfields Fq2 and Fq6 with related coordinates
    for a, b in ((1, 1), (1, Q - 1), (Q - 1, Q - 1), (2, 1), (3, 3), (9, 1)):
        out.append(((a, b),) + ((0, 0),) * 5)
    x = rnd.randrange(Q)
    for c in ((x, x), (x, Q - x), (x, 0), (0, x)):
        out.append((c,) + ((0, 0),) * 5)
        out.append(tuple(c if j % 2 == 0 else (0, 0) for j in range(6)))
    for k in range(6):
        out.append(tuple((1, 0) if j == k else (0, 0) for j in range(6)))
        out.append(tuple((0, 1) if j == k else (0, 0) for j in range(6)))
        out.append(tuple((0, 0) if j == k else (rnd.randrange(Q), rnd.randrange(Q)) for j in range(6)))
        out.append(tuple((rnd.randrange(Q), rnd.randrange(Q)) if j == k else (0, 0) for j in range(6)))
    for _ in range(n):
        k = rnd.randrange(5)
        if k == 0:
            a = tuple((rnd.randrange(Q), rnd.randrange(Q)) for _ in range(6))
        elif k == 1:
            a = tuple((rnd.choice([0, 1, Q - 1, rnd.randrange(Q)]), rnd.choice([0, 1, Q - 1, rnd.randrange(Q)])) for _ in range(6))
        elif k == 2:      # one half zero
            h = rnd.randrange(2)
            a = tuple((rnd.randrange(Q), rnd.randrange(Q)) if j % 2 == h else (0, 0) for j in range(6))
        elif k == 3:      # all coefficients equal / repeated
            c = (rnd.randrange(Q), rnd.randrange(Q))
            a = tuple(rnd.choice([c, f2neg(c), (c[0], 0), (c[1], c[0])]) for _ in range(6))
        else:             # real coefficients
            a = tuple((rnd.randrange(Q), 0) for _ in range(6))
        out.append(a)
    return [a for a in out if a != F12_ZERO]


def f12_kin(rnd):
    """elements that agree with one another in part"""
    a = gt_elem(rnd)
    t = (rnd.randrange(Q), rnd.randrange(Q))
    out = [a, f12conj(a), tuple(f2neg(x) for x in a), F12_ONE]
    out += [tuple(t if j == k else x for j, x in enumerate(a)) for k in range(6)]
    out.append(tuple(x if j % 2 == 0 else (0, 0) for j, x in enumerate(a)))
    out.append(tuple(x if j == 0 else (0, 0) for j, x in enumerate(a)))
    return out


_gt = {}


def gt_elem(rnd):
    """an element of the order-r subgroup"""
    if 'g' not in _gt:
        _gt['g'] = pairing(E1.gen, E2.gen)
    return f12pow(_gt['g'], rnd.randrange(1, R))


# ---------------------------------------------------------------- C04
def c04(rnd, n):
    es = exponents(rnd, n)
    pool = raw_pool(R, rnd)
    for _ in range(8):
        for v, e in walk(rnd, n // 2, kin(R, rnd), kin(R, rnd) + [0, 1, 2, 3]):
            yield Case('vp_fr_pow', 'v', [I(enc_r(v)), I(enc_r(e)), O(32)], eqb(enc_r(pow(v, e, R))), note='exponent %d' % e)
    for _ in range(2):
        for a, e in walk(rnd, n // 6, f12_kin(rnd), kin(R, rnd)[:6] + [0, 1, 2, 3]):
            yield Case('vp_gt_pow', 'v', [I(enc_f12(a)), I(enc_r(e)), O(384)], eqb(enc_f12(f12pow(a, e))), note='exponent %d' % e)
    c = rnd.randrange(3, R - 3)
    ends = [0, 1, 2, R - 1, R - 2, (R - 1) // 2, (R + 1) // 2, c, c + 1, R - c]
    for v in (0, 1, 7, R - 1, rnd.randrange(R)):
        for e in tour(ends):
            yield Case('vp_fr_pow', 'v', [I(enc_r(v)), I(enc_r(e)), O(32)], eqb(enc_r(pow(v, e, R))), note='exponent %d' % e)
        for w in tour([v, R - v, 0, 1, v * v % R, pow(v, -1, R) if v else 3][:6]) if v > 1 else ():
            yield Case('vp_fr_pow', 'v', [I(enc_r(w)), I(enc_r(c)), O(32)], eqb(enc_r(pow(w, c, R))), note='exponent %d' % c)
    a = gt_elem(rnd)
    for a, l in ((a, ends), (f12_pool(rnd, 1)[-1], ends[:5] + ends[-2:])):
        pw = {e: enc_f12(f12pow(a, e)) for e in l}
        for e in tour(l):
            yield Case('vp_gt_pow', 'v', [I(enc_f12(a)), I(enc_r(e)), O(384)], eqb(pw[e]), note='exponent %d' % e)
    for e in es:
        for a in (rnd.choice(pool), rnd.randrange(R)):
            v = canon(a)
            yield Case('vp_fr_pow', 'v', [I(word(a)), I(enc_r(e)), O(32)], eqb(enc_r(pow(v, e, R))), note='exponent %d' % e)
    for v in (0, 1, R - 1, 2):
        for e in es[:40]:
            yield Case('vp_fr_pow', 'v', [I(enc_r(v)), I(enc_r(e)), O(32)], eqb(enc_r(pow(v, e, R))), note='exponent %d' % e)
    bases = f12_pool(rnd, 10) + [gt_elem(rnd) for _ in range(3)]
    for i, e in enumerate(es[:max(40, n // 3)] + es[-n // 4:]):
        a = bases[i % len(bases)]
        yield Case('vp_gt_pow', 'v', [I(enc_f12(a)), I(enc_r(e)), O(384)], eqb(enc_f12(f12pow(a, e))), note='exponent %d' % e)
    for a in bases:
        for e in (0, 1, 2, 3):
            yield Case('vp_gt_pow', 'v', [I(enc_f12(a)), I(enc_r(e)), O(384)], eqb(enc_f12(f12pow(a, e))), note='exponent %d' % e)


# ---------------------------------------------------------------- C05
def divrem_case(v, m):
    q, r = divmod(v, m)

    def chk(res):
        if res[1][1] != word(r):
            return 'remainder is %d, expected %d' % (le(res[1][1]), r)
        if q < m:
            if not res[0]:
                return 'no quotient, expected %d' % q
            if le(res[1][0]) != q:
                return 'quotient is %d, expected %d' % (le(res[1][0]), q)
        elif res[0]:
            return 'quotient %d returned, expected none' % le(res[1][0])
    return Case('vp_u512_divrem', 'b', [I(word(v, 64)), I(word(m)), O(32), O(32)], chk, note='%d / %d' % (v, m))


def c05(rnd, n):
    mods = [2, 3, 4, 5, 6, 7, 8, 255, 256, M64, 1 << 64, (1 << 64) + 1, (1 << 128) - 1, 1 << 128, 1 << 192, (1 << 192) - 1, 1 << 254, (1 << 254) - 1,
            (1 << 255) - 1, (1 << 255) - 2, Q, R, (1 << 254) + 1]
    mods += [rnd.randrange(2, 1 << rnd.choice([8, 32, 64, 65, 100, 128, 190, 193, 254, 255])) for _ in range(40)]
    for m in mods:
        ns = [0, 1, m - 1, m, m + 1, m * m - 1, m * m, m * m + 1, (1 << 512) - 1, 1 << 511, m << 256, (m << 256) - 1, m * (m - 1), m * (m - 1) - 1]
        for _ in range(max(6, n // 20)):
            k = rnd.randrange(5)
            if k == 0:
                v = rnd.getrandbits(512)
            elif k == 1:
                v = rnd.randrange(m) * m + rnd.randrange(m)
            elif k == 2:
                v = rnd.randrange(m) * m + small_delta(rnd)
            elif k == 3:
                v = unl([rnd.choice([0, 1, M64, rnd.getrandbits(64)]) for _ in range(8)])
            else:
                v = m * m + rnd.randrange(-3, 4) * rnd.choice([1, m])
            ns.append(v)
        # quotients and dividends of every size
        ns += [k * m + d for k in range(2, 10) for d in (-1, 0, 1)]
        ns += [(q + 1) * m - 1 for q in (M64, (1 << 128) - 1, (1 << 255) - 1) if q < m]
        for j in range(1, 16):
            ns += [(1 << 32 * j) - 1, 1 << 32 * j, rnd.getrandbits(32 * j)]
        for b in rnd.sample(range(1, 513), 12):
            ns += [rnd.getrandbits(b), (1 << b) - 1, rnd.getrandbits(b) << 512 - b, rnd.getrandbits(min(b, 256)) * m + rnd.randrange(m)]
        for v in ns:
            if not 0 <= v < 1 << 512:
                continue
            yield divrem_case(v, m)
    full = [unl([rnd.choice([0, 1, M64, M64 - 1, 1 << 63, 0xffffffff, 1 << 32, rnd.getrandbits(64)]) for _ in range(4)]) for _ in range(n)]
    full += [0, 1, (1 << 256) - 1, Q, R] + [1 << k for k in range(0, 256, 7)]
    for _ in range(n):
        c1, c0, m = rnd.choice(full), rnd.choice(full), rnd.choice(full)
        v = c1 * m + c0
        if v < 1 << 512:
            yield Case('vp_u512_from', 'v', [I(word(c1)), I(word(c0)), I(word(m)), O(64)], eqb(word(v, 64)))
    for _ in range(2 * n):
        a = rnd.choice(full)
        k = rnd.randrange(5)
        if k == 0:
            b = a
        elif k == 1:
            b = (a + small_delta(rnd)) % (1 << 256)
        elif k == 2:
            i = rnd.randrange(4)
            b = (a & ~(M64 << 64 * i)) | (rnd.getrandbits(64) << 64 * i)
        else:
            b = rnd.choice(full)
        A, B = I(word(a)), I(word(b))
        c = 0 if a < b else 1 if a == b else 2
        yield Case('vp_u256_cmp', 'b', [A, B], eqr(c))
        yield Case('vp_u256_partial_cmp', 'b', [A, B], eqr(c))
        yield Case('vp_u256_lt', 'b', [A, B], eqr(int(a < b)))
        yield Case('vp_u256_le', 'b', [A, B], eqr(int(a <= b)))
        yield Case('vp_u256_gt', 'b', [A, B], eqr(int(a > b)))
        yield Case('vp_u256_ge', 'b', [A, B], eqr(int(a >= b)))
        yield Case('vp_u256_eq', 'b', [A, B], eqr(int(a == b)))
        yield Case('vp_u256_is_zero', 'b', [A], eqr(int(a == 0)))
        yield Case('vp_u256_is_even', 'b', [A], eqr(int(a % 2 == 0)))
    idx = list(range(0, 300)) + [511, 512, 513, 1 << 20, 1 << 32, (1 << 32) + 5, (1 << 63), M64, M64 - 255, (1 << 64) - 64]
    for i in idx:
        for a in (rnd.choice(full), rnd.getrandbits(256), 0, (1 << 256) - 1):
            yield Case('vp_u256_get_bit', 'b', [I(word(a)), {'n': i}], eqr((a >> i) & 1 if i < 256 else 2), note='bit %d' % i)
            for to in (0, 1):
                w = (a | (1 << i) if to else a & ~(1 << i)) if i < 256 else a
                yield Case('vp_u256_set_bit', 'b', [IO(word(a)), {'n': i}, {'k': to}], both(eqr(int(i < 256)), eqb(word(w))), note='bit %d' % i)
    for i in list(range(0, 530)) + idx[300:]:
        for a in (rnd.getrandbits(512), 0, (1 << 512) - 1):
            yield Case('vp_u512_get_bit', 'b', [I(word(a, 64)), {'n': i}], eqr((a >> i) & 1 if i < 512 else 2), note='bit %d' % i)
    for a in full[:60] + [0, 1, (1 << 256) - 1]:
        want = bytes((a >> k) & 1 for k in range(255, -1, -1))
        yield Case('vp_u256_bits', 'n', [I(word(a)), O(300)], both(eqr(256), lambda r, want=want: None if r[1][0][:256] == want else 'bits differ'))
        b = a.to_bytes(32, 'big')
        yield Case('vp_u256_from_slice', 'b', [S(b), O(32)], opt(word(a)))
        yield Case('vp_u256_into_bytes', 'n', [I(word(a)), O(40), {'n': 40}], both(eqr(32), lambda r, w=be_words(word(a)): None if r[1][0][:32] == w else 'bytes differ'))
    for ln in (0, 1, 31, 33, 64):
        yield Case('vp_u256_from_slice', 'b', [S(bytes(ln)), O(32)], opt(None))
    for _ in range(20):
        b = rnd.randbytes(64)
        yield Case('vp_u512_interpret', 'v', [I(b), O(64)], eqb(word(int.from_bytes(b, 'big'), 64)))
    yield Case('vp_u256_zero', 'v', [O(32)], eqb(word(0)))
    yield Case('vp_u256_one', 'v', [O(32)], eqb(word(1)))


# ---------------------------------------------------------------- C06
def f12_raw(rnd, pool):
    """a tower element with interesting raw coordinates"""
    inv = pow(MONT, -1, Q)
    return tuple((rnd.choice(pool) * inv % Q, rnd.choice(pool) * inv % Q) for _ in range(6))


def c06(rnd, n):
    pool = f12_pool(rnd, n // 3)
    rp = raw_pool(Q, rnd)
    pool += [f12_raw(rnd, rp) for _ in range(n // 3)]
    pool += [gt_elem(rnd) for _ in range(4)]
    for a in pool:
        yield Case('vp_gt_inverse', 'v', [I(enc_f12(a)), O(384)], eqb(enc_f12(f12inv(a))))
    for _ in range(3):
        k = f12_kin(rnd)
        for a, b in walk(rnd, n // 3, k, k):
            yield Case('vp_gt_mul', 'v', [I(enc_f12(a)), I(enc_f12(b)), O(384)], eqb(enc_f12(f12mul(a, b))))
            yield Case('vp_gt_inverse', 'v', [I(enc_f12(a)), O(384)], eqb(enc_f12(f12inv(a))))
            yield Case('vp_gt_eq', 'b', [I(enc_f12(a)), I(enc_f12(b))], eqr(int(a == b)))
    bs = pool + [F12_ZERO]
    for _ in range(2 * n):
        a, b = rnd.choice(bs), rnd.choice(bs)
        k = rnd.randrange(12)
        if k == 0:
            b = a
        elif k == 1:
            b = f12conj(a)
        elif k == 2:
            b = tuple(f2neg(x) for x in a)
        elif k == 3:     # sums of coefficients vanish (Karatsuba)
            b = list(b)
            i, j = rnd.sample(range(6), 2)
            b[i] = f2neg(b[j])
            b = tuple(b)
        elif k == 4:
            a = tuple((x[0], -x[0] % Q) for x in a)
        yield Case('vp_gt_mul', 'v', [I(enc_f12(a)), I(enc_f12(b)), O(384)], eqb(enc_f12(f12mul(a, b))))
    for a in pool[:80]:
        yield Case('vp_gt_eq', 'b', [I(enc_f12(a)), I(enc_f12(a))], eqr(1))
        b = list(a)
        k = rnd.randrange(6)
        b[k] = f2add(b[k], rnd.choice([(1, 0), (0, 1)]))
        yield Case('vp_gt_eq', 'b', [I(enc_f12(a)), I(enc_f12(tuple(b)))], eqr(0))
    yield Case('vp_gt_one', 'v', [O(384)], eqb(enc_f12(F12_ONE)))
    for a in [gt_elem(rnd)] + f12_pool(rnd, 2)[:4]:
        yield Case('vp_gt_pow', 'v', [I(enc_f12(a)), I(enc_r(5)), O(384)], eqb(enc_f12(f12pow(a, 5))))
    # the squarings, Frobenius powers and shortcuts inside are observed through the pairing
    for _ in range(6):
        P, Qp = E1.mul(E1.gen, rnd.randrange(1, R)), E2.mul(E2.gen, rnd.randrange(1, R))
        yield Case('vp_pairing', 'v', [I(E1.img(P)), I(E2.img(Qp)), O(384)], eqb(enc_f12(pairing(P, Qp))))


# ---------------------------------------------------------------- points
def rand_f(C, rnd):
    return rnd.randrange(1, Q) if C is E1 else (rnd.randrange(Q), rnd.randrange(1, Q))


def zs(C, rnd):
    if C is E1:
        return rnd.choice([1, 1, Q - 1, 2, rnd.randrange(1, Q), rnd.randrange(1, Q), pow(MONT, -1, Q)])
    return rnd.choice([(1, 0), (1, 0), (Q - 1, 0), (0, 1), (0, Q - 1), (rnd.randrange(1, Q), 0), (0, rnd.randrange(1, Q)), (1, rnd.randrange(Q)),
                       (1, 1), (rnd.randrange(Q), 1), (rnd.randrange(Q), rnd.randrange(1, Q)), (rnd.randrange(Q), rnd.randrange(1, Q))])


def ident_images(C, rnd):
    """images of the identity the library itself produces: zero(), and x,y arbitrary after P-P"""
    out = [C.img(None)]
    out.append(C.img(None, junk=(C.z, C.z)))
    out.append(C.img(None, junk=(C.o, C.o)))
    for _ in range(3):
        t = rand_f(C, rnd)
        t2 = C.fmul(t, t)
        out.append(C.img(None, junk=(t2, C.fmul(t2, t))))       # any (t^2, t^3, 0)
        out.append(C.img(None, junk=(t2, C.fsub(C.z, C.fmul(t2, t)))))
        out.append(C.img(None, junk=(rand_f(C, rnd), rand_f(C, rnd))))
    return out


def special_points(C, rnd):
    out = [C.mul(C.gen, k) for k in (1, 2, 3, 4, 5, R - 1, R - 2, (R - 1) // 2, (R + 1) // 2)]
    out += [C.mul(C.gen, rnd.randrange(1, R)) for _ in range(6)]
    # points with the same y and different x (the curve has j = 0): (w x, y), w a cube root of one
    w = pow(2, (Q - 1) // 3, Q)
    ext = []
    for p in out[:8]:
        ext.append((C.fmul(w if C is E1 else (w, 0), p[0]), p[1]))
    out += ext
    if C is E1:
        # small x, and x = 0 if on the curve
        for x in range(0, 40):
            yy = (x ** 3 + 3) % Q
            if pow(yy, (Q - 1) // 2, Q) in (0, 1):
                out.append((x, pow(yy, (Q + 1) // 4, Q)))
    return out


def chk_point(C, want):
    def f(r):
        st, p = C.point(r[1][0])
        if st != 'ok':
            return 'result is not a valid point: %s' % p
        if p != want:
            return 'result denotes %s, expected %s' % (p, want)
    return f


def c07(rnd, n):
    for C, pre in ((E1, 'vp_g1_'), (E2, 'vp_g2_')):
        ids = ident_images(C, rnd)
        pts = special_points(C, rnd)
        sz = 3 * C.size

        def ops(p, a, q, b):
            ai, bi = I(a), I(b)
            yield Case(pre + 'add', 'v', [ai, bi, O(sz)], chk_point(C, C.add(p, q)))
            yield Case(pre + 'sub', 'v', [ai, bi, O(sz)], chk_point(C, C.add(p, C.neg(q))))
            yield Case(pre + 'neg', 'v', [ai, O(sz)], chk_point(C, C.neg(p)))
        for _ in range(5):
            f = family(C, rnd)
            for (p, a), (q, b) in walk(rnd, n // 5, f, f):
                yield from ops(p, a, q, b)
        for a in ids:
            for b in ids[:4]:
                yield from ops(None, a, None, b)
            p = rnd.choice(pts)
            yield from ops(None, a, p, C.img(p, zs(C, rnd)))
            yield from ops(p, C.img(p, zs(C, rnd)), None, a)
        for _ in range(n):
            p = rnd.choice(pts)
            k = rnd.randrange(7)
            if k == 0:
                q = p
            elif k == 1:
                q = C.neg(p)
            elif k == 2:
                w = pow(2, (Q - 1) // 3, Q)
                q = (C.fmul(w if C is E1 else (w, 0), p[0]), p[1] if rnd.random() < .5 else C.fsub(C.z, p[1]))
            elif k == 3:
                q = C.add(p, p)
            else:
                q = rnd.choice(pts)
            z = zs(C, rnd)
            z2 = z if rnd.random() < .4 else C.fsub(C.z, z) if rnd.random() < .3 else zs(C, rnd)
            yield from ops(p, C.img(p, z), q, C.img(q, z2))
        # representations with special raw coordinates
        rp = raw_pool(Q, rnd, 60)
        inv = pow(MONT, -1, Q)
        for _ in range(n // 3):
            p, q = rnd.choice(pts), rnd.choice(pts)
            z1 = rnd.choice(rp) * inv % Q or 1
            z2 = rnd.choice(rp) * inv % Q or 1
            if C is E2:
                z1, z2 = (z1, rnd.choice(rp) * inv % Q), (z2, rnd.choice(rp) * inv % Q)
            yield from ops(p, C.img(p, z1), q, C.img(q, z2))
        yield Case(pre + 'zero', 'v', [O(sz)], chk_point(C, None))
        yield Case(pre + 'one', 'v', [O(sz)], chk_point(C, C.gen))


# ---------------------------------------------------------------- C08
def c08(rnd, n):
    es = exponents(rnd, n // 2)
    for C, pre in ((E1, 'vp_g1_'), (E2, 'vp_g2_')):
        sz = 3 * C.size
        pts = special_points(C, rnd)
        for _ in range(3):
            for (p, a), k in walk(rnd, n // 2, family(C, rnd), kin(R, rnd) + [2, 3]):
                yield Case(pre + 'mul', 'v', [I(a), I(enc_r(k)), O(sz)], chk_point(C, C.mul(p, k) if p else None), note='scalar %d' % k)
        c = rnd.randrange(3, R - 3)
        p = C.mul(C.gen, c)
        for img in (C.img(p), C.img(p, zs(C, rnd))):
            for k in tour([0, 1, 2, R - 1, R - 2, (R - 1) // 2, (R + 1) // 2, c, c + 1, R - c]):
                yield Case(pre + 'mul', 'v', [I(img), I(enc_r(k)), O(sz)], chk_point(C, C.mul(p, k)), note='scalar %d' % k)
        for k in es:
            p = rnd.choice(pts) if rnd.random() < .8 else C.gen
            yield Case(pre + 'mul', 'v', [I(C.img(p, zs(C, rnd))), I(enc_r(k)), O(sz)], chk_point(C, C.mul(p, k)), note='scalar %d' % k)
        for a in ident_images(C, rnd):
            for k in (0, 1, 2, R - 1, rnd.randrange(R)):
                yield Case(pre + 'mul', 'v', [I(a), I(enc_r(k)), O(sz)], chk_point(C, None), note='scalar %d' % k)


# ---------------------------------------------------------------- C09
def c09(rnd, n):
    for C, pre in ((E1, 'vp_g1_'), (E2, 'vp_g2_')):
        sz = 3 * C.size
        ids = ident_images(C, rnd)
        pts = special_points(C, rnd)
        for _ in range(5):
            f = family(C, rnd)
            for (p, a), (q, b) in walk(rnd, n // 4, f, f):
                yield Case(pre + 'eq', 'b', [I(a), I(b)], eqr(int(p == q)))
                yield Case(pre + 'is_zero', 'b', [I(a)], eqr(int(p is None)))
                yield Case(pre + 'normalize', 'v', [IO(a)], eqb(C.img(p), 'normalised point'))
        for a in ids:
            yield Case(pre + 'is_zero', 'b', [I(a)], eqr(1))
            yield Case(pre + 'normalize', 'v', [IO(a)], eqb(C.img(None), 'normalised identity'), note='identity')
            for b in ids:
                yield Case(pre + 'eq', 'b', [I(a), I(b)], eqr(1))
            p = rnd.choice(pts)
            yield Case(pre + 'eq', 'b', [I(a), I(C.img(p, zs(C, rnd)))], eqr(0))
            yield Case(pre + 'eq', 'b', [I(C.img(p, zs(C, rnd))), I(a)], eqr(0))
        for _ in range(n):
            p = rnd.choice(pts)
            k = rnd.randrange(5)
            if k == 0:
                q = p
            elif k == 1:
                q = C.neg(p)
            elif k == 2:
                w = pow(2, (Q - 1) // 3, Q)
                q = (C.fmul(w if C is E1 else (w, 0), p[0]), p[1] if rnd.random() < .5 else C.fsub(C.z, p[1]))
            else:
                q = rnd.choice(pts)
            z = zs(C, rnd)
            z2 = z if rnd.random() < .4 else C.fsub(C.z, z) if rnd.random() < .3 else zs(C, rnd)
            yield Case(pre + 'eq', 'b', [I(C.img(p, z)), I(C.img(q, z2))], eqr(int(p == q)))
            yield Case(pre + 'is_zero', 'b', [I(C.img(p, z))], eqr(0))
            yield Case(pre + 'normalize', 'v', [IO(C.img(p, z))], eqb(C.img(p), 'normalised point'))


# ---------------------------------------------------------------- C10
def c10(rnd, n):
    def out(w):
        # any injective fixed-length encoding would do; the pinned one is the documented wire form
        return both(eqr(len(w)), lambda r: None if r[1][0][:len(w)] == w else 'encoding is %s, expected %s' % (r[1][0][:len(w)].hex(), w.hex()))

    def case(fn, img):
        return Case(fn, 'n', [I(img), O(len(img) + 64), {'n': len(img) + 64}], out(be_words(img)))
    for v in raw_pool(R, rnd, n):
        yield case('vp_fr_into_bytes', word(v))
        yield case('vp_fr_vec', word(v))
    rp = raw_pool(Q, rnd, n)
    for _ in range(n):
        g1 = b''.join(word(rnd.choice(rp)) for _ in range(3))
        yield case('vp_g1_into_bytes', g1)
        yield case('vp_g1_vec', g1)
        yield case('vp_g2_into_bytes', b''.join(word(rnd.choice(rp)) for _ in range(6)))
        # a known point with some of its words or coordinates replaced
        for C, f in ((E1, 'vp_g1_into_bytes'), (E2, 'vp_g2_into_bytes')):
            for p in (None, C.gen):
                a = bytearray(C.img(p))
                if rnd.random() < .5:
                    i = rnd.randrange(3) * C.size
                    a[i:i + C.size] = C.img((C.gen[1], C.gen[0]))[i:i + C.size] if rnd.random() < .3 else b''.join(word(rnd.choice(rp)) for _ in range(C.size // 32))
                else:
                    i = rnd.randrange(len(a) // 32) * 32
                    a[i:i + 32] = word(rnd.choice(rp))
                yield case(f, bytes(a))
        gt = b''.join(word(rnd.choice(rp)) for _ in range(12))
        yield case('vp_gt_into_bytes', gt)
        yield case('vp_gt_vec', gt)
    for a in f12_pool(rnd, 3):
        yield case('vp_gt_into_bytes', enc_f12(a))
    for C, f in ((E1, 'vp_g1_into_bytes'), (E2, 'vp_g2_into_bytes')):
        for a in ident_images(C, rnd):
            yield case(f, a)


# ---------------------------------------------------------------- C11, C12
def c11(rnd, n):
    ks = [1, 2, 3, R - 1, R - 2, (R - 1) // 2, 1 << 128, (1 << 253) - 1] + exponents(rnd, 20)[16:60:3]
    for i in range(n):
        a = rnd.choice(ks) if i % 2 else rnd.randrange(1, R)
        b = rnd.choice(ks) if i % 3 else rnd.randrange(1, R)
        if a == 0 or b == 0:
            continue
        P, Qp = E1.mul(E1.gen, a), E2.mul(E2.gen, b)
        yield Case('vp_pairing', 'v', [I(E1.img(P, zs(E1, rnd))), I(E2.img(Qp, zs(E2, rnd))), O(384)], eqb(enc_f12(pairing(P, Qp))),
                   note='e(%d G1, %d G2)' % (a, b))
    yield from pairing_walk(rnd, n)
    # every valid point of G1 is admissible, also with special coordinates
    for P in special_points(E1, rnd):
        Qp = E2.mul(E2.gen, rnd.randrange(1, R))
        yield Case('vp_pairing', 'v', [I(E1.img(P)), I(E2.img(Qp)), O(384)], eqb(enc_f12(pairing(P, Qp))), note='special point')


def pairing_walk(rnd, n):
    for _ in range(2):
        f1, f2 = family(E1, rnd), family(E2, rnd)
        memo = {}
        for (p, a), (q, b) in walk(rnd, 3 * n, f1, f2):
            if (p, q) not in memo:
                memo[p, q] = enc_f12(pairing(p, q) if p and q else F12_ONE)
            yield Case('vp_pairing', 'v', [I(a), I(b), O(384)], eqb(memo[p, q]), note='one of a sequence of related calls')


def c12(rnd, n):
    yield from pairing_walk(rnd, n)
    one = enc_f12(F12_ONE)
    i1, i2 = ident_images(E1, rnd), ident_images(E2, rnd)
    for a in i1:
        for b in i2[:5]:
            yield Case('vp_pairing', 'v', [I(a), I(b), O(384)], eqb(one), note='both identity')
        q = E2.mul(E2.gen, rnd.randrange(1, R))
        yield Case('vp_pairing', 'v', [I(a), I(E2.img(q, zs(E2, rnd))), O(384)], eqb(one), note='first identity')
    for b in i2:
        p = E1.mul(E1.gen, rnd.randrange(1, R))
        yield Case('vp_pairing', 'v', [I(E1.img(p, zs(E1, rnd))), I(b), O(384)], eqb(one), note='second identity')
    for _ in range(max(2, n // 8)):
        P, Qp = E1.mul(E1.gen, rnd.randrange(1, R)), E2.mul(E2.gen, rnd.randrange(1, R))
        g = pairing(P, Qp)
        assert f12pow(g, R) == F12_ONE
        for _ in range(8):
            yield Case('vp_pairing', 'v', [I(E1.img(P, zs(E1, rnd))), I(E2.img(Qp, zs(E2, rnd))), O(384)], eqb(enc_f12(g)))
        yield Case('vp_gt_inverse', 'v', [I(enc_f12(g)), O(384)], eqb(enc_f12(f12pow(g, R - 1))))
        yield Case('vp_gt_pow', 'v', [I(enc_f12(g)), I(enc_r(R - 1)), O(384)], eqb(enc_f12(f12pow(g, R - 1))))


# ---------------------------------------------------------------- C13
def readings(b):
    """the 512-bit integers a fixed reading of the drawn bytes can mean"""
    out = []
    for pick in (b[0:256:4] if len(b) >= 256 else b'', b[:64]):
        if len(pick) == 64:
            out += [int.from_bytes(pick, 'big'), int.from_bytes(pick, 'little'),
                    int.from_bytes(b''.join(pick[i:i + 8] for i in range(56, -8, -8)), 'little'),
                    int.from_bytes(b''.join(pick[i:i + 8][::-1] for i in range(0, 64, 8)), 'big')]
    return out


def scalars(b):
    """canonical scalars a 512-bit reduction of the drawn bytes can give (as value or as image)"""
    s = set()
    for v in readings(b):
        s.add(v % R)
        s.add(canon(v % R))
    return s


def likely(b):
    """the same scalars, cheapest hypotheses first"""
    rd = readings(b)
    rd = rd[-3:] + rd[:-3]
    seen = set()
    for v in [canon(v % R) for v in rd] + [v % R for v in rd]:
        if v not in seen:
            seen.add(v)
            yield v


def streams(rnd, n):
    out = [bytes(600), bytes([255]) * 600]
    vs = [k * R + d for k in (1, 2, 3, 4, 5, 6, 7, 8, (1 << 512) // R - 1, (1 << 512) // R) for d in (0, 1, -1)]
    vs += [(1 << b) - e for b in (64, 128, 192, 253, 254, 255, 256, 257, 320, 384, 448, 511, 512) for e in (0, 1)]
    vs += [rnd.getrandbits(b) for b in (64, 128, 200, 254, 255, 256, 320, 384, 448, 500)]
    vs += [rnd.getrandbits(b) << 512 - b for b in (64, 128, 256, 320)]
    for v in vs:
        if v < 1 << 512:
            be, lw = v.to_bytes(64, 'big'), v.to_bytes(64, 'little')
            for x in (be, lw):
                out.append(x * 8)
                out.append(b''.join(bytes([c, 0, 0, 0]) for c in x) + x * 4)
                out.append(b''.join(bytes([c, 255, 255, 255]) for c in x) + x * 4)
    out += [rnd.randbytes(700) for _ in range(n)]
    for _ in range(n // 2):
        out.append(b''.join(word(rnd.choice([0, M64, 1, 1 << 63, rnd.getrandbits(64)]), 8) for _ in range(80)))
    return out


def c13(rnd, n):
    st = streams(rnd, n)
    for _ in range(4):
        a, b = rnd.randbytes(700), rnd.randbytes(700)
        st += [x for x, in walk(rnd, 6, [a, b, a[:64] + b[64:], a[:32] + b[32:], a[:256] + b[256:]])]
    for s in st:
        def chk(r, s=s):
            v = dec_r(r[1][0])
            if v is None:
                return 'sample is not canonical'
            if v not in scalars(s):
                return 'sample %d is no 512-bit reduction of the bytes drawn' % v
        yield Case('vp_fr_sample', 'v', [O(32)], chk, rng=s)

        def chk512(r, s=s):
            if le(r[1][0]) not in readings(s):
                return 'not a reading of the bytes drawn'
        yield Case('vp_u512_random', 'v', [O(64)], chk512, rng=s)
        for m in (R, Q, 7, (1 << 255) - 1):
            def chkm(r, s=s, m=m):
                if le(r[1][0]) not in {v % m for v in readings(s)}:
                    return 'not a 512-bit reduction of the bytes drawn'
            yield Case('vp_u256_random', 'v', [I(word(m)), O(32)], chkm, rng=s)
        for C, pre in ((E1, 'vp_g1_'), (E2, 'vp_g2_')):
            for fn in ('random', 'sample'):
                def chkp(r, s=s, C=C):
                    st, p = C.point(r[1][0])
                    if st != 'ok':
                        return 'sample is not a valid point: %s' % p
                    if not any(p == C.mul(C.gen, k) for k in likely(s)):
                        return 'sample is not the generator times a 512-bit reduction of the bytes drawn'
                yield Case(pre + fn, 'v', [O(3 * C.size)], chkp, rng=s)
    for s in streams(rnd, 2)[2:8:2]:
        def chkgt(r, s=s):
            v = dec_f12(r[1][0])
            if v is None:
                return 'sample is not canonical'
            if f12pow(v, R) != F12_ONE:
                return 'sample is not in the order-r subgroup'
        yield Case('vp_gt_sample', 'v', [O(384)], chkgt, rng=s)


# ---------------------------------------------------------------- C14
def c14(rnd, n):
    for k, c in enumerate(c14_one(rnd, n)):
        yield c
        yield Case(c.fn.replace('vp_rt_', 'vp_rth_'), c.ret, c.args, c.check, note=c.note)


def c14_one(rnd, n):
    def rt(fn, img):
        def f(r):
            if r[0] != 0:
                return 'round trip failed with code %d' % r[0]
            if r[1][0] != img:
                return 'came back as %s' % r[1][0].hex()
        return Case(fn, 'b', [I(img), O(len(img))], f)
    for v in raw_pool(R, rnd, n):
        yield rt('vp_rt_fr', word(v))
    rp = raw_pool(Q, rnd, n)
    for _ in range(n):
        yield rt('vp_rt_gt', b''.join(word(rnd.choice(rp)) for _ in range(12)))
    for C, fn in ((E1, 'vp_rt_g1'), (E2, 'vp_rt_g2')):
        for a in ident_images(C, rnd):
            yield rt(fn, a)
        for p in special_points(C, rnd):
            for _ in range(4):
                yield rt(fn, C.img(p, zs(C, rnd)))
        for _ in range(n):
            z = rnd.choice(rp)
            p = rnd.choice([C.gen, C.mul(C.gen, rnd.randrange(R))])
            z = z * pow(MONT, -1, Q) % Q or 1
            yield rt(fn, C.img(p, z if C is E1 else (z, rnd.choice(rp))))


PROPS = {'C01': (c01, 3000), 'C02': (c02, 2500), 'C03': (c03, 1500), 'C04': (c04, 300), 'C05': (c05, 800), 'C06': (c06, 600), 'C07': (c07, 1000),
         'C08': (c08, 400), 'C09': (c09, 1200), 'C10': (c10, 600), 'C11': (c11, 80), 'C12': (c12, 40), 'C13': (c13, 30), 'C14': (c14, 400)}
CONFIGS = {'C14': ['native', 'native-borsh']}


def again(rnd, cases, k=300):
    """earlier calls once more, in another order"""
    cases = list(cases)
    k = min(k, max(20, len(cases) // 3))
    return cases + [rnd.choice(cases) for _ in range(k)]


def judge(native, c, r):
    if r == 'abort':
        return 'the call aborts (panic)'
    if r == 'timeout':
        return 'the call does not return within %d s' % native.timeout
    return c.check(r)


def history(native, c, prior):
    """[] if the call fails on its own, else the calls to make before it"""
    for k in (0, 1, 2, 4, 8, 16, 64, 256, 1024, 4096, len(prior)):
        if k and k // 2 >= len(prior):
            break
        native.close()
        before = prior[-k:] if k else []
        for b in before:
            native.call(b.fn, b.ret, b.args, b.rng)
        r = native.call(c.fn, c.ret, c.args, c.rng)
        m = judge(native, c, r)
        if m:
            return before, r, m
    return None


def run(native, cases, limit=None, stop=3):
    """[(case, result, message, calls to make before)], number run"""
    bad, n, prior = [], 0, []
    for c in cases:
        r = native.call(c.fn, c.ret, c.args, c.rng)
        n += 1
        msg = judge(native, c, r)
        if msg:
            h = history(native, c, prior)
            native.close()
            if h is None and r != 'timeout':      # seen once; did not come back when the same calls were made again
                h = (prior[-2000:], r, msg)
            prior = []
            if h is not None:
                bad.append((c, h[1], h[2], h[0]))
                if len(bad) >= stop:
                    break
        else:
            prior.append(c)
        if limit and n >= limit:
            break
    return bad, n
