"""Integer terms: polynomials over atoms with exact floor quotients, intervals and a z3 back end.

A symbolic machine word is an int or a Poly: an integer polynomial over atoms.  Atoms are
  v  free variables (inputs, havocked values, ghosts) with optional bounds
  q  exact quotients  floor(P / 2^k)
  n  names for a polynomial (same value; definition kept)
  i  indicators of a condition (0 or 1)
  r  the raw (Montgomery) integer of a field element, c the canonical integer of a field element
  f  field variables; used in FPoly only, and as their own canonical integer
The low part of P modulo 2^k is always written P - 2^k*q[P,k]; no fresh variable is introduced for it, so identities
telescope by normalisation alone.
"""
import time
from math import gcd

class Unsupported(Exception):
    pass

class Atom:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'data', 'cj', 'tz')
    def __repr__(self):
        return '%s%s' % (self.name, self.id)

ATOMS = []
_intern = {}

def new_atom(kind, name, lo=None, hi=None, data=None, key=None):
    if key is not None and key in _intern:
        return _intern[key]
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.name = name
    a.lo = lo
    a.hi = hi
    a.data = data
    a.cj = a.id
    ATOMS.append(a)
    if key is not None:
        _intern[key] = a
    return a

class Poly:
    __slots__ = ('t', 'h', '_n', '_iv')
    def __init__(self, t):
        self.t = t
        self.h = None
        self._n = None
        self._iv = None
    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h
    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)
    def __ne__(self, o):
        return not self.__eq__(o)
    def __repr__(self):
        return show(self)

def show(p, lim=12):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items())):
        if i >= lim:
            out.append('...(%d terms)' % len(p.t))
            break
        s = '*'.join(aname(x) for x in m)
        out.append('%d' % c if not m else s if c == 1 else '%d*%s' % (c, s))
    return ' + '.join(out)

def aname(i):
    a = ATOMS[i]
    if a.kind == 'q':
        return 'q%d[%s]' % (a.data[1], show(a.data[0], 3))
    return '%s.%d' % (a.name, i)

def mk(t):
    """t: dict without zero coefficients"""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)

def avar(a):
    return Poly({(a.id,): 1})

def var(name, lo=0, hi=None, kind='v'):
    return avar(new_atom(kind, name, lo, hi))

def terms(p):
    if isinstance(p, Poly):
        return p.t
    return {(): p} if p else {}

def padd(a, b):
    if not isinstance(a, Poly):
        if not isinstance(b, Poly):
            return a + b
        a, b = b, a
    if not isinstance(b, Poly):
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c:
            t[()] = c
        else:
            t.pop((), None)
        return Poly(t)
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m, 0) + c
        if s:
            t[m] = s
        else:
            del t[m]
    return mk(t)

def pscale(a, k):
    if not isinstance(a, Poly):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})

def psub(a, b):
    if not isinstance(b, Poly):
        return padd(a, -b)
    if not isinstance(a, Poly) and a == 0:
        return pscale(b, -1)
    return padd(a, pscale(b, -1))

def pmul(a, b):
    if not isinstance(a, Poly):
        return pscale(b, a) if isinstance(b, Poly) else a * b
    if not isinstance(b, Poly):
        return pscale(a, b)
    t = {}
    if len(a.t) * len(b.t) > 400000:
        raise Unsupported('polynomial too large')
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = m + n if not m or not n or m[-1] <= n[0] else tuple(sorted(m + n))
            s = t.get(k, 0) + c * d
            t[k] = s
    return mk({m: c for m, c in t.items() if c})

def norm(p):
    """p = c + g*K with K primitive, no constant term, leading coefficient positive; returns (K, g, c)"""
    if p._n is None:
        c = p.t.get((), 0)
        g = 0
        lead = None
        for m, x in p.t.items():
            if m:
                g = gcd(g, x)
                if lead is None or m < lead:
                    lead = m
        if p.t[lead] < 0:
            g = -g
        if g == 1 and c == 0:
            K = p
        else:
            K = Poly({m: x // g for m, x in p.t.items() if m})
            K._n = (K, 1, 0)
        p._n = (K, g, c)
    return p._n

INF = None

def _mn(a, b):       # tightest of two intervals
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)

def imul(a, b):
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return (a[0] * b[0], None if a[1] is None or b[1] is None else a[1] * b[1])
    if None in a or None in b:
        return (None, None)
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(v), max(v))

def iscale(a, k):
    if k >= 0:
        return (None if a[0] is None else a[0] * k, None if a[1] is None else a[1] * k)
    return (None if a[1] is None else a[1] * k, None if a[0] is None else a[0] * k)

def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])

GIV = {}      # K -> interval valid in every state

class Facts:
    """what is known on a path: intervals for primitive polynomials and a list of conditions"""
    __slots__ = ('iv', 'l', 'cst')
    def __init__(self, iv=None, l=None, cst=None):
        self.iv = iv if iv is not None else {}
        self.l = l if l is not None else []
        self.cst = cst if cst is not None else {}
    def copy(self):
        return Facts(dict(self.iv), list(self.l), dict(self.cst))

def subst_const(p, c):
    for m in p.t:
        for i in m:
            if i in c:
                return subst(p, c)
    return p

NOFACTS = Facts()

def atom_iv(F, i):
    a = ATOMS[i]
    r = (a.lo, a.hi)
    if F.iv:
        p = F.iv.get(Poly({(i,): 1}))
        if p is not None:
            r = _mn(r, p)
        if a.kind == 'q':
            b = iv(F, a.data[0])
            k = a.data[1]
            r = _mn(r, (None if b[0] is None else b[0] >> k, None if b[1] is None else b[1] >> k))
    return r

def mono_iv(F, m):
    r = None
    if len(m) == 2 and m[0] == m[1]:
        x = atom_iv(F, m[0])
        if None in x:
            return (0, None)
        return (0 if x[0] <= 0 <= x[1] else min(x[0] ** 2, x[1] ** 2), max(x[0] ** 2, x[1] ** 2))
    for i in m:
        x = atom_iv(F, i)
        r = x if r is None else imul(r, x)
    return r

def iv(F, p):
    if not isinstance(p, Poly):
        return (p, p)
    if not F.iv and p._iv is not None:
        return p._iv
    K, g, c = norm(p)
    r = (0, 0)
    if len(K.t) <= 64:
        for m, x in K.t.items():
            r = iadd(r, iscale(mono_iv(F, m), x))
            if r[0] is None and r[1] is None:
                break
    else:
        r = (None, None)
    if K in GIV:
        r = _mn(r, GIV[K])
    if F.iv and K in F.iv:
        r = _mn(r, F.iv[K])
    r = iscale(r, g)
    r = iadd(r, (c, c))
    if not F.iv:
        p._iv = r
    return r

def _kiv(p, r):
    K, g, c = norm(p)
    lo, hi = r
    if g > 0:
        return K, (None if lo is None else -((c - lo) // g), None if hi is None else (hi - c) // g)
    g = -g
    return K, (None if hi is None else -((hi - c) // g), None if lo is None else (c - lo) // g)

def set_giv(p, r):
    """record an interval for p valid in every state"""
    if not isinstance(p, Poly):
        return
    K, n = _kiv(p, r)
    old = GIV.get(K)
    new = n if old is None else _mn(n, old)
    if new != old:
        GIV[K] = new
        K._iv = None
        p._iv = None

def set_piv(F, p, r):
    """record a path interval for p"""
    if not isinstance(p, Poly):
        return
    K, n = _kiv(p, r)
    old = F.iv.get(K)
    F.iv[K] = n if old is None else _mn(n, old)

def name(p, nm, lo=None, hi=None):
    """an atom standing for p"""
    if not isinstance(p, Poly):
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1:
            return p
    a = new_atom('n', nm, lo, hi, p, ('n', p))
    if lo is not None and (a.lo is None or lo > a.lo):
        a.lo = lo
    if hi is not None and (a.hi is None or hi < a.hi):
        a.hi = hi
    return avar(a)

DIGITS = {}       # sums of bytes with their bytes, so that taking them apart again gives those bytes

def from_bytes(bs):
    """the number with these bytes, lowest first"""
    r = 0
    for k, x in enumerate(bs):
        r = padd(r, pscale(x, 1 << (8 * k)))
    if isinstance(r, Poly) and r not in DIGITS and all(0 <= x <= 255 if isinstance(x, int) else in_byte(iv(NOFACTS, x)) for x in bs):
        DIGITS[r] = list(bs)
        set_giv(r, (0, (1 << (8 * len(bs))) - 1))
    return r

def in_byte(r):
    return r[0] is not None and r[1] is not None and 0 <= r[0] and r[1] <= 255

def quo(F, p, k):
    """floor(p / 2^k)"""
    if not isinstance(p, Poly):
        return p >> k
    if k == 0:
        return p
    if p in DIGITS and k % 8 == 0:
        return from_bytes(DIGITS[p][k // 8:])
    M = 1 << k
    H = M >> 1
    A = {}
    B = {}
    for m, c in p.t.items():
        c0 = c & (M - 1)
        if c0 == 0:
            A[m] = c >> k
        elif -H < c <= H:
            B[m] = c
        else:
            if c0 > H:
                c0 -= M
            B[m] = c0
            A[m] = (c - c0) >> k
    A = mk(A)
    B = mk(B)
    return padd(A, _quo1(F, B, k))

def _quo1(F, B, k):
    if not isinstance(B, Poly):
        return B >> k
    lo, hi = iv(F, B)
    if lo is not None and hi is not None and (lo >> k) == (hi >> k):
        return lo >> k
    # common power of two of the non-constant terms
    z = None
    for m, c in B.t.items():
        if not m:
            continue
        x = (c & -c).bit_length() - 1
        z = x if z is None else min(z, x)
        if not z:
            break
    if z:
        z = min(z, k)
        return quo(F, mk({m: c >> z for m, c in B.t.items() if m or c >> z}), k - z)
    if len(B.t) == 1:
        (m, c), = B.t.items()
        if c == 1 and len(m) == 1:
            a = ATOMS[m[0]]
            if a.kind == 'q':
                return quo(F, a.data[0], a.data[1] + k)
            if a.kind == 'n' and isinstance(a.data, Poly) and all(x % (1 << k) == 0 for x in a.data.t.values()):
                return quo(F, a.data, k)
    g = iv(NOFACTS, B)
    a = new_atom('q', 'q', None if g[0] is None else g[0] >> k, None if g[1] is None else g[1] >> k, (B, k), ('q', B, k))
    return avar(a)

def _reg(F, e, glob, r):
    if isinstance(e, Poly):
        if glob:
            set_giv(e, r)
        else:
            set_piv(F, e, r)

def lowpart(F, p, k):
    if not isinstance(p, Poly):
        return p & ((1 << k) - 1)
    r = iv(F, p)
    if r[0] is not None and r[1] is not None and 0 <= r[0] and r[1] < (1 << k):
        return p
    q = quo(F, p, k)
    e = psub(p, pscale(q, 1 << k))
    _reg(F, e, not F.iv or quo(NOFACTS, p, k) == q, (0, (1 << k) - 1))
    return e

def limbs(F, p, n, w=64):
    """the n words of p, assumed 0 <= p < 2^(n*w)"""
    if not isinstance(p, Poly):
        return [(p >> (w * j)) & ((1 << w) - 1) for j in range(n)]
    out = []
    qs = [quo(F, p, w * j) for j in range(n)] + [0]
    for j in range(n):
        e = psub(qs[j], pscale(qs[j + 1], 1 << w))
        _reg(F, e, not F.iv or (quo(NOFACTS, p, w * j) == qs[j] and quo(NOFACTS, p, w * (j + 1)) == qs[j + 1]), (0, (1 << w) - 1))
        out.append(e)
    return out

def bit(F, p, n):
    a, b = quo(F, p, n), quo(F, p, n + 1)
    e = psub(a, pscale(b, 2))
    _reg(F, e, not F.iv or (quo(NOFACTS, p, n) == a and quo(NOFACTS, p, n + 1) == b), (0, 1))
    return e

# ---------------------------------------------------------------- conditions
# ('ge',P): P >= 0   ('eq',P)   ('ne',P)   ('feq',f) ('fne',f)   ('pz',pt) ('pnz',pt)   ('and',..) ('or',..)
NEG = {'eq': 'ne', 'ne': 'eq', 'feq': 'fne', 'fne': 'feq', 'pz': 'pnz', 'pnz': 'pz', 'mz': 'mnz', 'mnz': 'mz'}

def cneg(c):
    if not isinstance(c, tuple):
        return 1 - c
    k = c[0]
    if k == 'ge':
        return ('ge', psub(-1, c[1]))
    if k in NEG:
        return (NEG[k], c[1])
    if k == 'and':
        return cor(*[cneg(x) for x in c[1:]])
    if k == 'or':
        return cand(*[cneg(x) for x in c[1:]])
    raise Unsupported('negation of %r' % (k,))

def cand(*cs):
    out = []
    for c in cs:
        if not isinstance(c, tuple):
            if not c:
                return 0
            continue
        if c[0] == 'and':
            out.extend(c[1:])
        else:
            out.append(c)
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    return ('and',) + tuple(out)

def cor(*cs):
    out = []
    for c in cs:
        if not isinstance(c, tuple):
            if c:
                return 1
            continue
        if c[0] == 'or':
            out.extend(c[1:])
        else:
            out.append(c)
    if not out:
        return 0
    if len(out) == 1:
        return out[0]
    return ('or',) + tuple(out)

def cge(F, p):
    lo, hi = iv(F, p)
    if lo is not None and lo >= 0:
        return 1
    if hi is not None and hi < 0:
        return 0
    K, g, c = norm(p)
    s = -1 if g < 0 else 1
    # s*|g|*K + c >= 0  <=>  s*K + floor(c/|g|) >= 0
    return ('ge', padd(pscale(K, s), c // abs(g)))

def ceq(F, p):
    if not isinstance(p, Poly):
        return 1 if p == 0 else 0
    lo, hi = iv(F, p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return 0
    if lo == 0 == hi:
        return 1
    K, g, c = norm(p)
    if c % g:
        return 0
    return ('eq', padd(K, c // g))

def ind(F, c):
    """0/1 polynomial of a condition"""
    if not isinstance(c, tuple):
        return c
    if c[0] in ('eq', 'ne', 'ge'):
        lo, hi = iv(F, c[1])
        p = c[1]
        if c[0] == 'eq' and lo == 0 and hi == 1:
            return psub(1, p)
        if c[0] == 'eq' and lo == -1 and hi == 0:
            return padd(1, p)
        if c[0] == 'ne' and lo == 0 and hi == 1:
            return p
        if c[0] == 'ne' and lo == -1 and hi == 0:
            return pscale(p, -1)
        if c[0] == 'ge' and lo == -1 and hi == 0:
            return padd(1, p)
    if c[0] in ('ne', 'fne', 'pnz', 'mnz'):
        return psub(1, ind(F, cneg(c)))
    if c[0] == 'ge':
        n = cneg(c)
        if ('i', n) in _intern:
            return psub(1, avar(_intern[('i', n)]))
    return avar(new_atom('i', 't', 0, 1, c, ('i', c)))

def add_fact(F, c):
    """False if visibly contradictory"""
    if not isinstance(c, tuple):
        return bool(c)
    k = c[0]
    if k == 'and':
        for x in c[1:]:
            if not add_fact(F, x):
                return False
        return True
    if c in F.l:
        return True
    F.l.append(c)
    if k == 'ge':
        p = c[1]
        set_piv(F, p, (0, None))
        r = F.iv[norm(p)[0]]
        r = _mn(r, iv(F, norm(p)[0]))
        if r[0] is not None and r[1] is not None and r[0] > r[1]:
            return False
        return resolved(F, norm(p)[0], r)
    elif k == 'eq':
        p = c[1]
        K = norm(p)[0]
        old = iv(F, K)
        set_piv(F, p, (0, 0))
        r = _mn(F.iv[K], old)
        if r[0] is not None and r[1] is not None and r[0] > r[1]:
            return False
        return resolved(F, K, r)
    elif k == 'ne':
        p = c[1]
        K, g, cc = norm(p)
        r = iv(F, K)
        if cc % g == 0:
            v = -cc // g
            if r[0] == r[1] == v:
                return False
            if r[0] == v:
                F.iv[K] = _mn((v + 1, None), r)
            elif r[1] == v:
                F.iv[K] = _mn((None, v - 1), r)
            return resolved(F, K, iv(F, K))
    return True

def resolved(F, K, r):
    """an atom now has one value on this path"""
    if len(K.t) == 1 and r[0] is not None and r[0] == r[1]:
        (m, _), = K.t.items()
        if len(m) == 1:
            F.cst[m[0]] = r[0]
            a = ATOMS[m[0]]
            if a.kind == 'i' and isinstance(a.data, tuple):
                return add_fact(F, a.data if r[0] == 1 else cneg(a.data))
    return True

# ---------------------------------------------------------------- z3
STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
_z3 = None

def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3

class Z3Ctx:
    def __init__(self, F, timeout=3000, namedefs=False):
        z3 = z3mod()
        self.z3 = z3
        self.F = F
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.v = {}
        self.nd = namedefs
        self.todo = []
    def atom(self, i):
        k = (i,)
        if k in self.v:
            return self.v[k]
        x = self.z3.Int('a%d' % i)
        self.v[k] = x
        a = ATOMS[i]
        lo, hi = atom_iv(self.F, i)
        if lo is not None:
            self.s.add(x >= lo)
        if hi is not None:
            self.s.add(x <= hi)
        if a.kind == 'q':
            b = self.poly(a.data[0])
            d = b - (1 << a.data[1]) * x
            self.s.add(d >= 0, d < (1 << a.data[1]))
            e = rem_of(i)
            if e is not None:
                self.s.add(self.poly(e[0]) >= 0, self.poly(e[0]) < self.poly(e[1]))
        elif a.kind == 'd':
            B, m = a.data
            d = self.poly(B) - self.poly(pmul(m, avar(a)))
            self.s.add(d >= 0, d < self.poly(m))
        elif a.kind == 'b':
            u, v = self.poly(a.data[0]), self.poly(a.data[1])
            self.s.add(x <= u, x <= v, self.z3.Implies(u == v, x == u))
        elif a.kind == 'n' and self.nd:
            self.s.add(x == self.poly(a.data))
        elif a.kind == 'i' and isinstance(a.data, tuple) and a.data[0] in ('ge', 'eq', 'ne', 'and', 'or'):
            try:
                self.s.add((x == 1) == self.cond(a.data))
            except Unsupported:
                pass
        return x
    def mono(self, m):
        if m in self.v:
            return self.v[m]
        if len(m) == 1:
            return self.atom(m[0])
        x = self.z3.Int('m' + '_'.join(map(str, m)))
        self.v[m] = x
        lo, hi = mono_iv(self.F, m)
        if lo is not None:
            self.s.add(x >= lo)
        if hi is not None:
            self.s.add(x <= hi)
        a = self.mono((m[0],))
        b = self.mono(m[1:])
        (la, ha) = atom_iv(self.F, m[0])
        (lb, hb) = mono_iv(self.F, m[1:])
        if la is not None and lb is not None:
            self.s.add(x >= la * b + lb * a - la * lb)
        if ha is not None and hb is not None:
            self.s.add(x >= ha * b + hb * a - ha * hb)
        if ha is not None and lb is not None:
            self.s.add(x <= ha * b + lb * a - ha * lb)
        if la is not None and hb is not None:
            self.s.add(x <= la * b + hb * a - la * hb)
        return x
    def poly(self, p):
        if not isinstance(p, Poly):
            return self.z3.IntVal(p)
        if len(p.t) > 600:
            raise Unsupported('z3: polynomial too large')
        r = []
        for m, c in p.t.items():
            r.append(self.z3.IntVal(c) if not m else self.mono(m) if c == 1 else c * self.mono(m))
        if len(p.t) > 1:
            K = norm(p)[0]
            key = ('K', K)
            if key not in self.v:
                self.v[key] = True
                b = None
                if K in GIV:
                    b = GIV[K]
                if K in self.F.iv:
                    b = self.F.iv[K] if b is None else _mn(b, self.F.iv[K])
                if b is not None:
                    kk = self.z3.Sum([self.mono(m) * c for m, c in K.t.items()])
                    if b[0] is not None:
                        self.s.add(kk >= b[0])
                    if b[1] is not None:
                        self.s.add(kk <= b[1])
        return self.z3.Sum(r)
    def cond(self, c):
        z3 = self.z3
        if not isinstance(c, tuple):
            return z3.BoolVal(bool(c))
        k = c[0]
        if k == 'ge':
            return self.poly(c[1]) >= 0
        if k == 'eq':
            return self.poly(c[1]) == 0
        if k == 'ne':
            return self.poly(c[1]) != 0
        if k == 'and':
            return z3.And([self.cond(x) for x in c[1:]])
        if k == 'or':
            return z3.Or([self.cond(x) for x in c[1:]])
        raise Unsupported('z3 cond')

_rem = {}

def rem_of(i):
    """(r, m) with 0 <= r < m, r = P - m*atom, for a quotient atom floor(P / m) written d[P0,m] or q_k[d[P0,m]]"""
    if i in _rem:
        return _rem[i]
    a = ATOMS[i]
    r = None
    if a.kind == 'd':
        r = (psub(a.data[0], pmul(a.data[1], avar(a))), a.data[1])
    elif a.kind == 'q':
        B, k = a.data
        if isinstance(B, Poly) and len(B.t) == 1:
            (n, c), = B.t.items()
            if c == 1 and len(n) == 1 and ATOMS[n[0]].kind == 'd':
                P, m = ATOMS[n[0]].data
                r = (psub(quo(NOFACTS, P, k), pmul(m, avar(a))), m)
    _rem[i] = r
    return r

def lin_ge(F, p):
    """p >= 0 from the ranges of the remainders occurring in it, and intervals"""
    for _ in range(4):
        if not isinstance(p, Poly):
            return p >= 0
        lo = iv(F, p)[0]
        if lo is not None and lo >= 0:
            return True
        hit = None
        for i in sorted(atoms_of(p), reverse=True):
            e = rem_of(i)
            if e is None or not isinstance(e[1], Poly):
                continue
            k = tuple(sorted(list(e[1].t)[0] + (i,)))
            x = p.t.get(k)
            if x:
                hit = (x, e)
                break
        if hit is None:
            return False
        x, (r, m) = hit
        # r >= 0 and m - 1 - r >= 0, with r = ... - m*atom
        p = psub(p, pscale(r, -x)) if x < 0 else psub(p, pscale(psub(psub(m, 1), r), x))
    return False

def int_only(c):
    if not isinstance(c, tuple):
        return True
    if c[0] in ('and', 'or'):
        return all(int_only(x) for x in c[1:])
    return c[0] in ('ge', 'eq', 'ne')

_cache = {}
TIMEOUT = [3000]

DEADLINE = [float('inf')]

def check(F, conds, timeout=None, namedefs=False, model=False, only=None):
    """satisfiability of the facts of F together with conds: 'unsat' is definite, 'sat' only over the abstraction"""
    timeout = timeout or TIMEOUT[0]
    fl = [c for c in F.l if int_only(c)]
    # relevance: facts sharing atoms
    key = None
    if not model:
        key = (frozenset(map(_ck, conds)), frozenset(map(_ck, fl)), namedefs)
        if key in _cache:
            return _cache[key]
    t0 = time.time()
    if t0 > DEADLINE[0]:
        raise Unsupported('time limit')
    if any(csize(c) > 30000 for c in conds):
        raise Unsupported('condition too large')
    STATS['queries'] += 1
    if conds:
        F = F.copy()
        fl = list(fl)
        for c in conds:
            if not (isinstance(c, tuple) and int_only(c)):
                continue
            if not add_fact(F, c) or not propagate(F, c):
                STATS['unsat'] += 1
                if key is not None:
                    _cache[key] = 'unsat'
                return ('unsat', None) if model else 'unsat'
    try:
        z = Z3Ctx(F, timeout, namedefs)
        for c in conds:
            z.s.add(z.cond(c))
        for c in fl:
            if csize(c) < 600:
                z.s.add(z.cond(c))
        r = str(z.s.check())
    except Unsupported:
        r = 'unknown'
        z = None
    STATS['time'] += time.time() - t0
    STATS[r] += 1
    if key is not None:
        _cache[key] = r
    if model:
        return r, z
    return r

def propagate(F, c):
    """bounds of single atoms that follow from a linear condition; False if contradictory"""
    if c[0] not in ('ge', 'eq') or not isinstance(c[1], Poly) or len(c[1].t) > 6:
        return True
    for p in (c[1],) if c[0] == 'ge' else (c[1], pscale(c[1], -1)):
        for m, x in p.t.items():
            if len(m) != 1:
                continue
            rest = psub(p, Poly({m: x}))
            h = iv(F, rest)[1]
            if h is None:
                continue
            # x*a + rest >= 0
            a = Poly({m: 1})
            b = (-((h) // x), None) if x > 0 else (None, h // -x)
            set_piv(F, a, b)
            r = iv(F, a)
            if r[0] is not None and r[1] is not None and r[0] > r[1]:
                return False
            at = ATOMS[m[0]]
            if at.kind == 'q' and isinstance(at.data[0], Poly):
                k = at.data[1]
                set_piv(F, at.data[0], (None if r[0] is None else r[0] << k, None if r[1] is None else (r[1] << k) + (1 << k) - 1))
    return True

def csize(c):
    if not isinstance(c, tuple):
        return 0
    if c[0] in ('and', 'or'):
        return sum(csize(x) for x in c[1:])
    return len(c[1].t) if isinstance(c[1], Poly) else 1

def _ck(c):
    return c

def proves(F, c, timeout=None, namedefs=False):
    """the facts imply c"""
    if not isinstance(c, tuple):
        return bool(c)
    if c in F.l:
        return True
    if c[0] == 'ge':
        x = cge(F, c[1])
    elif c[0] == 'eq':
        x = ceq(F, c[1])
    elif c[0] == 'ne':
        x = ceq(F, c[1])
        x = cneg(x) if isinstance(x, tuple) else 1 - x
    elif c[0] == 'and':
        return all(proves(F, y, timeout, namedefs) for y in c[1:])
    else:
        x = c
    if not isinstance(x, tuple):
        return bool(x)
    if x in F.l:
        return True
    if not int_only(x):
        return False
    if x[0] == 'ge' and lin_ge(F, x[1]):
        return True
    return check(F, [cneg(x)], timeout, namedefs) == 'unsat'

def subst(p, env):
    """replace atoms by polynomials; env: atom id -> int|Poly"""
    if not isinstance(p, Poly):
        return p
    if not any(i in env for m in p.t for i in m):
        return p
    out = 0
    keep = {}
    for m, c in p.t.items():
        hit = [i for i in m if i in env]
        if not hit:
            keep[m] = c
            continue
        r = mk({tuple(i for i in m if i not in env): c})
        for i in hit:
            r = pmul(r, env[i])
        out = padd(out, r)
    return padd(mk(keep), out)

def atoms_of(p, acc=None):
    acc = set() if acc is None else acc
    if isinstance(p, Poly):
        for m in p.t:
            acc.update(m)
    return acc

def expand_names(p, lim=100000):
    while isinstance(p, Poly):
        env = {i: ATOMS[i].data for i in atoms_of(p) if ATOMS[i].kind == 'n'}
        if not env:
            return p
        i = max(env)
        p = subst(p, {i: env[i]})
        if isinstance(p, Poly) and len(p.t) > lim:
            raise Unsupported('definition too large')
    return p

def evalp(p, val):
    """numeric value; val: function atom id -> int"""
    if not isinstance(p, Poly):
        return p
    s = 0
    for m, c in p.t.items():
        for i in m:
            c *= val(i)
        s += c
    return s

class Valuation:
    """numeric evaluation of atoms from an assignment of the free ones"""
    def __init__(self, env):
        self.env = dict(env)
    def __call__(self, i):
        if i in self.env:
            return self.env[i]
        a = ATOMS[i]
        if a.kind == 'q':
            v = evalp(a.data[0], self) >> a.data[1]
        elif a.kind == 'd':
            v = evalp(a.data[0], self) // evalp(a.data[1], self)
        elif a.kind == 'n':
            v = evalp(a.data, self)
        elif a.kind == 'i':
            v = 1 if self.cond(a.data) else 0
        elif a.kind == 'b':
            v = evalp(a.data[0], self) & evalp(a.data[1], self)
        elif a.kind in 'rc' and a.data:
            from . import fpoly as FP
            v = FP.feval(a.data[1], self.pair)
            if v[1]:
                raise KeyError(i)
            v = v[0] * FP.MONT % a.data[0].p if a.kind == 'r' else v[0]
        elif a.kind == 'f':
            from . import fpoly as FP
            if i not in FP.FINV:
                raise KeyError(i)
            v = FP.cinv(a.data[0], FP.feval(FP.FINV[i], self.pair))
        else:
            raise KeyError(i)
        self.env[i] = v
        return v
    def pair(self, i):
        """value of an atom inside a field polynomial"""
        v = self(i)
        return v if isinstance(v, tuple) else (v, 0)
    def cond(self, c):
        if not isinstance(c, tuple):
            return bool(c)
        k = c[0]
        if k in ('feq', 'fne'):
            from . import fpoly as FP
            return (FP.feval(c[1], self.pair) == (0, 0)) == (k == 'feq')
        if k == 'ge':
            return evalp(c[1], self) >= 0
        if k == 'eq':
            return evalp(c[1], self) == 0
        if k == 'ne':
            return evalp(c[1], self) != 0
        if k == 'and':
            return all(self.cond(x) for x in c[1:])
        if k == 'or':
            return any(self.cond(x) for x in c[1:])
        raise KeyError(k)
