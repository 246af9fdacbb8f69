"""Independent big-integer specification of rabe-bn: what every public operation has to return.

Plain mathematics on Python integers; nothing here is derived from the code under test.  Curve: BN254 (alt_bn128).
Memory images (what the Rust types hold) are handled by enc_*/dec_*: field elements are a*2^256 mod p, four 64-bit
limbs, least significant first.
"""
U = 4965661367192848881
Q = 36 * U**4 + 36 * U**3 + 24 * U**2 + 6 * U + 1
R = 36 * U**4 + 36 * U**3 + 18 * U**2 + 6 * U + 1
MONT = 1 << 256
B1 = 3
XI = (9, 1)
assert Q == 21888242871839275222246405745257275088696311157297823662689037894645226208583
assert R == 21888242871839275222246405745257275088548364400416034343698204186575808495617


# ---- memory images
def le(b):
    return int.from_bytes(b, 'little')


def word(v, n=32):
    return v.to_bytes(n, 'little')


def enc(v, p):
    return word(v * MONT % p)


def dec(b, p):
    """canonical value of a 32-byte image, or None if the image is not canonical"""
    m = le(b)
    if m >= p:
        return None
    return m * pow(MONT, -1, p) % p


def enc_r(v):
    return enc(v, R)


def dec_r(b):
    return dec(b, R)


def enc_q(v):
    return enc(v, Q)


def dec_q(b):
    return dec(b, Q)


def be_words(img):
    """the library's byte encoding: each 64-bit limb big-endian, limbs in memory order"""
    return b''.join(img[i:i + 8][::-1] for i in range(0, len(img), 8))


# ---- Fq2 = Fq[i]/(i^2+1)
def f2(a, b=0):
    return (a % Q, b % Q)


def f2add(a, b):
    return ((a[0] + b[0]) % Q, (a[1] + b[1]) % Q)


def f2sub(a, b):
    return ((a[0] - b[0]) % Q, (a[1] - b[1]) % Q)


def f2neg(a):
    return (-a[0] % Q, -a[1] % Q)


def f2mul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % Q, (a[0] * b[1] + a[1] * b[0]) % Q)


def f2inv(a):
    n = pow(a[0] * a[0] + a[1] * a[1], -1, Q)
    return (a[0] * n % Q, -a[1] * n % Q)


def f2conj(a):
    return (a[0], -a[1] % Q)


def f2pow(a, e):
    r = (1, 0)
    while e:
        if e & 1:
            r = f2mul(r, a)
        a = f2mul(a, a)
        e >>= 1
    return r


def f2sqrt(a):
    """a square root in Fq2 or None (q = 3 mod 4)"""
    if a == (0, 0):
        return a
    a1 = f2pow(a, (Q - 3) // 4)
    al = f2mul(f2mul(a1, a1), a)
    x0 = f2mul(a1, a)
    if al == (Q - 1, 0):
        c = f2mul((0, 1), x0)
    else:
        c = f2mul(f2pow(f2add((1, 0), al), (Q - 1) // 2), x0)
    return c if f2mul(c, c) == a else None


B2 = f2mul((3, 0), f2inv(XI))


# ---- Fq12 = Fq2[w]/(w^6 - xi): tuple of six Fq2 coefficients of w^0..w^5
F12_ONE = ((1, 0),) + ((0, 0),) * 5
F12_ZERO = ((0, 0),) * 6


def f12mul(a, b):
    t0 = [0] * 11
    t1 = [0] * 11
    for i, (a0, a1) in enumerate(a):
        if a0 == 0 and a1 == 0:
            continue
        for j, (b0, b1) in enumerate(b):
            t0[i + j] += a0 * b0 - a1 * b1
            t1[i + j] += a0 * b1 + a1 * b0
    out = []
    for k in range(6):
        x, y = t0[k], t1[k]
        if k < 5:
            u, v = t0[k + 6], t1[k + 6]
            x += 9 * u - v
            y += u + 9 * v
        out.append((x % Q, y % Q))
    return tuple(out)


def f12pow(a, e):
    if e < 0:
        return f12pow(f12inv(a), -e)
    r = None
    for bit in bin(e)[2:]:
        if r is not None:
            r = f12mul(r, r)
        if bit == '1':
            r = a if r is None else f12mul(r, a)
    return F12_ONE if r is None else r


_FROB = [f2pow(XI, i * (Q - 1) // 6) for i in range(6)]


def f12frob(a, n=1):
    for _ in range(n % 12):
        a = tuple(f2mul(f2conj(c), g) for c, g in zip(a, _FROB))
    return a


def f12conj(a):
    return tuple(c if i % 2 == 0 else f2neg(c) for i, c in enumerate(a))


def f12inv(a):
    """norm down to Fq by Frobenius conjugates: a^-1 = prod_{i=1..11} phi^i(a) / N(a)"""
    t = F12_ONE
    c = a
    for _ in range(11):
        c = f12frob(c)
        t = f12mul(t, c)
    n = f12mul(t, a)
    assert all(x == (0, 0) for x in n[1:]) and n[0][1] == 0
    k = pow(n[0][0], -1, Q)
    return tuple((x * k % Q, y * k % Q) for x, y in t)


# layout of the Rust Fq12: c0 = (w^0, w^2, w^4), c1 = (w^1, w^3, w^5), each Fq2 = (c0, c1)
F12_ORDER = [0, 2, 4, 1, 3, 5]


def enc_f2(a):
    return enc_q(a[0]) + enc_q(a[1])


def dec_f2(b):
    x, y = dec_q(b[:32]), dec_q(b[32:64])
    return None if x is None or y is None else (x, y)


def enc_f12(a):
    return b''.join(enc_f2(a[k]) for k in F12_ORDER)


def dec_f12(b):
    out = [None] * 6
    for n, k in enumerate(F12_ORDER):
        out[k] = dec_f2(b[64 * n:64 * n + 64])
        if out[k] is None:
            return None
    return tuple(out)


# ---- curves, affine points or None for the identity
class Curve:
    def __init__(self, name, add, sub, mul, inv, zero, one, b, encf, decf, size, gen):
        self.name, self.fadd, self.fsub, self.fmul, self.finv = name, add, sub, mul, inv
        self.z, self.o, self.b, self.encf, self.decf, self.size, self.gen = zero, one, b, encf, decf, size, gen

    def on(self, p):
        if p is None:
            return True
        x, y = p
        return self.fmul(y, y) == self.fadd(self.fmul(self.fmul(x, x), x), self.b)

    def neg(self, p):
        return None if p is None else (p[0], self.fsub(self.z, p[1]))

    def add(self, p, q):
        if p is None:
            return q
        if q is None:
            return p
        if p[0] == q[0]:
            if p[1] != q[1] or p[1] == self.z:
                return None
            xx = self.fmul(p[0], p[0])
            n = self.fadd(self.fadd(xx, xx), xx)
            d = self.fadd(p[1], p[1])
        else:
            n = self.fsub(q[1], p[1])
            d = self.fsub(q[0], p[0])
        m = self.fmul(n, self.finv(d))
        x = self.fsub(self.fsub(self.fmul(m, m), p[0]), q[0])
        return (x, self.fsub(self.fmul(m, self.fsub(p[0], x)), p[1]))

    # Jacobian internally: only to make big multiples fast
    def jdbl(self, P):
        x, y, z = P
        m = self.fmul
        a = m(x, x)
        b = m(y, y)
        s = m(x, b)
        s = self.fadd(s, s)
        s = self.fadd(s, s)
        e = self.fadd(self.fadd(a, a), a)
        x3 = self.fsub(m(e, e), self.fadd(s, s))
        c = m(b, b)
        for _ in range(3):
            c = self.fadd(c, c)
        y3 = self.fsub(m(e, self.fsub(s, x3)), c)
        z3 = m(y, z)
        return (x3, y3, self.fadd(z3, z3))

    def mul(self, p, k):
        if p is None or k == 0:
            return None
        if k < 0:
            return self.mul(self.neg(p), -k)
        if k < 16:
            acc = None
            for _ in range(k):
                acc = self.add(acc, p)
            return acc
        acc = None     # Jacobian accumulator with affine additions
        m = self.fmul
        for bit in bin(k)[2:]:
            if acc is not None:
                acc = None if acc[1] == self.z else self.jdbl(acc)
            if bit == '1':
                if acc is None:
                    acc = (p[0], p[1], self.o)
                else:
                    x, y, z = acc
                    zz = m(z, z)
                    u2 = m(p[0], zz)
                    s2 = m(p[1], m(zz, z))
                    h = self.fsub(u2, x)
                    t = self.fsub(s2, y)
                    if h == self.z:
                        acc = self.jdbl(acc) if t == self.z else None
                        continue
                    hh = m(h, h)
                    hhh = m(hh, h)
                    v = m(x, hh)
                    x3 = self.fsub(self.fsub(m(t, t), hhh), self.fadd(v, v))
                    y3 = self.fsub(m(t, self.fsub(v, x3)), m(y, hhh))
                    acc = (x3, y3, m(z, h))
        if acc is None:
            return None
        zi = self.finv(acc[2])
        z2 = m(zi, zi)
        return (m(acc[0], z2), m(acc[1], m(z2, zi)))

    # memory images (Jacobian)
    def img(self, p, z=None, junk=None):
        """an image denoting p with the given z; for the identity, junk = (x, y)"""
        if p is None:
            x, y = junk or (self.z, self.o)
            return self.encf(x) + self.encf(y) + self.encf(self.z)
        z = self.o if z is None else z
        z2 = self.fmul(z, z)
        return self.encf(self.fmul(p[0], z2)) + self.encf(self.fmul(p[1], self.fmul(z2, z))) + self.encf(z)

    def coords(self, b):
        n = self.size
        c = [self.decf(b[i * n:(i + 1) * n]) for i in range(3)]
        return None if any(v is None for v in c) else c

    def point(self, b):
        """('ok', affine or None) or ('bad', why)"""
        c = self.coords(b)
        if c is None:
            return ('bad', 'a coordinate is not canonical')
        if c[2] == self.z:
            return ('ok', None)
        zi = self.finv(c[2])
        z2 = self.fmul(zi, zi)
        p = (self.fmul(c[0], z2), self.fmul(c[1], self.fmul(z2, zi)))
        if not self.on(p):
            return ('bad', 'not on the curve')
        return ('ok', p)


def _g2gen():
    return ((10857046999023057135944570762232829481370756359578518086990519993285655852781,
             11559732032986387107991004021392285783925812861821192530917403151452391805634),
            (8495653923123431417604973247489272438418190587263600148770280649306958101930,
             4082367875863433681332203403145435568316851327593401208105741076214120093531))


E1 = Curve('G1', lambda a, b: (a + b) % Q, lambda a, b: (a - b) % Q, lambda a, b: a * b % Q, lambda a: pow(a, -1, Q),
           0, 1, B1, enc_q, dec_q, 32, (1, 2))
E2 = Curve('G2', f2add, f2sub, f2mul, f2inv, (0, 0), (1, 0), B2, enc_f2, dec_f2, 64, _g2gen())
assert E1.on(E1.gen) and E2.on(E2.gen)


# ---- pairing: optimal ate with affine lines in Fq12, everything from the definition
def _untwist(p):
    x, y = p
    z = (0, 0)
    return ((z, z, x, z, z, z), (z, z, z, y, z, z))


def _f12add(a, b):
    return tuple(f2add(x, y) for x, y in zip(a, b))


def _f12sub(a, b):
    return tuple(f2sub(x, y) for x, y in zip(a, b))


def _line(T, S, P):
    """value at P of the line through the twist points T and S (tangent if equal), up to an Fq2 factor; T+S"""
    if T[0] == S[0] and T[1] != S[1]:
        z = (0, 0)
        return ((P[0], 0), z, f2neg(T[0]), z, z, z), None
    if T == S:
        xx = f2mul(T[0], T[0])
        n = f2add(f2add(xx, xx), xx)
        d = f2add(T[1], T[1])
    else:
        n = f2sub(S[1], T[1])
        d = f2sub(S[0], T[0])
    m = f2mul(n, f2inv(d))
    # untwisted: (x w^2, y w^3), slope m w ;  l = yP - y w^3 - m w (xP - x w^2)
    z = (0, 0)
    l = ((P[1], 0), f2neg(f2mul(m, (P[0], 0))), z, f2sub(f2mul(m, T[0]), T[1]), z, z)
    return l, E2.add(T, S)


def twist_frob(p):
    """the q-power Frobenius on the twist: untwist, Frobenius, twist back"""
    g2 = f2pow(XI, (Q - 1) // 3)
    g3 = f2pow(XI, (Q - 1) // 2)
    return (f2mul(f2conj(p[0]), g2), f2mul(f2conj(p[1]), g3))


def miller(P, Qp):
    f = F12_ONE
    T = Qp
    for bit in bin(6 * U + 2)[3:]:
        l, T2 = _line(T, T, P)
        f = f12mul(f12mul(f, f), l)
        T = T2
        if bit == '1':
            l, T = _line(T, Qp, P)
            f = f12mul(f, l)
    q1 = twist_frob(Qp)
    q2 = E2.neg(twist_frob(q1))
    l, T = _line(T, q1, P)
    f = f12mul(f, l)
    l, T = _line(T, q2, P)
    return f12mul(f, l)


HARD = (Q**4 - Q**2 + 1) // R
assert HARD * R == Q**4 - Q**2 + 1
COFACTOR = 2 * U * (6 * U * U + 3 * U + 1)     # the fixed multiple used by the Fuentes-Castaneda chain


def final_exp(f, c=COFACTOR):
    g = f12mul(f12conj(f), f12inv(f))
    g = f12mul(f12frob(g, 2), g)
    e = HARD * c
    # base-q digits with Frobenius (g is any element; phi is exact)
    digs = []
    while e:
        e, d = divmod(e, Q)
        digs.append(d)
    out = F12_ONE
    bases = [f12frob(g, i) for i in range(len(digs))]
    n = max(d.bit_length() for d in digs)
    tab = {}
    for k in range(n - 1, -1, -1):
        out = f12mul(out, out)
        key = tuple((d >> k) & 1 for d in digs)
        if any(key):
            if key not in tab:
                t = F12_ONE
                for b, bb in zip(key, bases):
                    if b:
                        t = f12mul(t, bb)
                tab[key] = t
            out = f12mul(out, tab[key])
    return out


def pairing(P, Qp):
    if P is None or Qp is None:
        return F12_ONE
    return final_exp(miller(P, Qp))


# ---- decoding
def from_str(s):
    """s: str. decimal digits (ASCII) only; None otherwise. The empty string denotes 0."""
    v = 0
    for c in s:
        if c not in '0123456789':
            return None
        v = (v * 10 + int(c)) % R
    return v
