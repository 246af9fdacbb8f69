"""Polynomials over a prime field GF(p) or over GF(q^2) = GF(q)[i]/(i^2+1), in the atoms of terms.py.

A value of type Fq or Fr is a polynomial fixed by conjugation; a value of type Fq2 is any polynomial.  Every atom has a
conjugate atom (itself when it denotes an element of the prime field)."""
from .terms import ATOMS, Poly, new_atom, Unsupported, _intern

Q = 21888242871839275222246405745257275088696311157297823662689037894645226208583
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617

class Field:
    def __init__(self, name, p, ext):
        self.name = name
        self.p = p
        self.ext = ext

FR = Field('Fr', R, False)
FQ = Field('Fq', Q, True)       # coefficients are pairs

class FPoly:
    __slots__ = ('t', 'f', 'h')
    def __init__(self, f, t):
        self.f = f
        self.t = t
        self.h = None
    def __hash__(self):
        if self.h is None:
            self.h = hash((self.f.name, frozenset(self.t.items())))
        return self.h
    def __eq__(self, o):
        return isinstance(o, FPoly) and self.f is o.f and self.t == o.t
    def __repr__(self):
        out = []
        for n, (m, c) in enumerate(sorted(self.t.items())):
            if n > 8:
                out.append('...(%d)' % len(self.t))
                break
            out.append('%s%s' % (csh(self.f, c), ''.join('*%s.%d' % (ATOMS[x].name, x) for x in m)))
        return ' + '.join(out) or '0'
    def __add__(self, o):
        return add(self, o)
    def __sub__(self, o):
        return sub(self, o)
    def __mul__(self, o):
        if isinstance(o, int):
            return scale(self, (o % self.f.p, 0))
        return mul(self, o)
    __rmul__ = __mul__
    def __neg__(self):
        return neg(self)
    def iszero(self):
        return not self.t
    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), (0, 0))

def csh(f, c):
    def s(x):
        return str(x if x < f.p // 2 else x - f.p)
    if not c[1]:
        return s(c[0])
    return '(%s+%si)' % (s(c[0]), s(c[1]))

def const(f, a, b=0):
    a %= f.p
    b %= f.p
    return FPoly(f, {(): (a, b)} if a or b else {})

def fatom(f, a):
    return FPoly(f, {(a.id,): (1, 0)})

def fvar(f, nm, ext=False, key=None):
    """a fresh field variable; ext: over GF(q^2), with its own conjugate"""
    if key is not None and key in _intern:
        return fatom(f, _intern[key])
    a = new_atom('f', nm, 0, f.p - 1 if not ext else None, (f, ext), key)
    if ext:
        a.lo = None
        b = new_atom('f', nm + "'", None, None, (f, ext))
        a.cj = b.id
        b.cj = a.id
    return fatom(f, a)

def cmul(f, x, y):
    p = f.p
    if not x[1]:
        if not y[1]:
            return (x[0] * y[0] % p, 0)
        return (x[0] * y[0] % p, x[0] * y[1] % p)
    if not y[1]:
        return (x[0] * y[0] % p, x[1] * y[0] % p)
    return ((x[0] * y[0] - x[1] * y[1]) % p, (x[0] * y[1] + x[1] * y[0]) % p)

def cinv(f, x):
    p = f.p
    n = (x[0] * x[0] + x[1] * x[1]) % p if x[1] else x[0]
    i = pow(n, -1, p)
    if not x[1]:
        return (i, 0)
    return (x[0] * i % p, -x[1] * i % p)

def cpow(f, x, e):
    r = (1, 0)
    while e:
        if e & 1:
            r = cmul(f, r, x)
        x = cmul(f, x, x)
        e >>= 1
    return r

def add(a, b):
    p = a.f.p
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = ((o[0] + c[0]) % p, (o[1] + c[1]) % p)
            if s[0] or s[1]:
                t[m] = s
            else:
                del t[m]
    return FPoly(a.f, t)

def neg(a):
    p = a.f.p
    return FPoly(a.f, {m: (-c[0] % p, -c[1] % p) for m, c in a.t.items()})

def sub(a, b):
    return add(a, neg(b))

def scale(a, k):
    if not (k[0] or k[1]):
        return FPoly(a.f, {})
    if k == (1, 0):
        return a
    f = a.f
    return FPoly(f, {m: cmul(f, c, k) for m, c in a.t.items()})

def mul(a, b):
    f = a.f
    if a.isconst():
        return scale(b, a.const())
    if b.isconst():
        return scale(a, b.const())
    if len(a.t) * len(b.t) > 2000000 or len(next(iter(a.t), ())) + len(next(iter(b.t), ())) > 3000:
        raise Unsupported('field polynomial too large')
    p = f.p
    t = {}
    if all(not c[1] for c in a.t.values()) and all(not c[1] for c in b.t.values()):
        for m, c in a.t.items():
            c0 = c[0]
            for n, d in b.t.items():
                k = tuple(sorted(m + n))
                t[k] = t.get(k, 0) + c0 * d[0]
        return FPoly(f, {m: (c % p, 0) for m, c in t.items() if c % p})
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n))
            x = cmul(f, c, d)
            o = t.get(k)
            t[k] = x if o is None else (o[0] + x[0], o[1] + x[1])
    out = {}
    for m, c in t.items():
        c = (c[0] % p, c[1] % p)
        if c[0] or c[1]:
            out[m] = c
    return FPoly(f, out)

def conj(a):
    p = a.f.p
    t = {}
    for m, c in a.t.items():
        t[tuple(sorted(ATOMS[i].cj for i in m))] = (c[0], -c[1] % p)
    return FPoly(a.f, t)

def parts(a):
    """the two GF(q)-valued coordinates"""
    f = a.f
    b = conj(a)
    h = (pow(2, -1, f.p), 0)
    c0 = scale(add(a, b), h)
    c1 = scale(sub(a, b), cmul(f, h, (0, f.p - 1)))       # 1/(2i) = -i/2
    return c0, c1

def join(c0, c1):
    return add(c0, scale(c1, (0, 1)))

def fpow(a, e):
    r = const(a.f, 1)
    while e:
        if e & 1:
            r = mul(r, a)
        e >>= 1
        if e:
            a = mul(a, a)
    return r

MONT = 1 << 256

def from_int(f, p):
    """an integer polynomial read modulo the field characteristic"""
    if not isinstance(p, Poly):
        return const(f, p)
    t = {}
    extra = None
    for m, c in p.t.items():
        c %= f.p
        if not c:
            continue
        hit = [i for i in m if ATOMS[i].kind in 'rc' and ATOMS[i].data[0] is f]
        if not hit:
            t[m] = (c, 0)
            continue
        r = FPoly(f, {tuple(i for i in m if i not in hit): (c, 0)})
        for i in hit:
            a = ATOMS[i]
            v = a.data[1]
            r = mul(r, scale(v, (MONT % f.p, 0)) if a.kind == 'r' else v)
        extra = r if extra is None else add(extra, r)
    r = FPoly(f, t)
    return r if extra is None else add(r, extra)

def raw(v):
    """the Montgomery integer of a prime field value"""
    from .terms import avar
    f = v.f
    if v.isconst():
        return v.const()[0] * MONT % f.p
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if len(m) == 1 and ATOMS[m[0]].kind == 'v' and c == (pow(MONT, -1, f.p), 0):
            a = ATOMS[m[0]]
            if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < f.p:
                return avar(a)
    return avar(new_atom('r', 'raw', 0, f.p - 1, (f, v), ('raw', f.name, v)))

def cint(v):
    """the canonical integer in [0, p) of a prime field value"""
    return raw(scale(v, (pow(MONT, -1, v.f.p), 0)))

FINV = {}       # atom -> the polynomial it inverts

def finv(v):
    """an atom for 1/v (v not zero) and the equation that defines it"""
    f = v.f
    if v.isconst():
        return FPoly(f, {(): cinv(f, v.const())}), None
    w = monic(v)
    m = min(v.t)
    c = cinv(f, v.t[m])
    key = ('finv', f.name, w)
    if key in _intern:
        a = fatom(f, _intern[key])
    else:
        cw = conj(w)
        real = monic(cw) == w
        if real:
            # w = k * conj(w): still an atom of its own unless w itself is fixed by conjugation
            real = cw == w
        a = fvar(f, 'inv', f.ext and not real, key)
        (i,), = a.t
        FINV[i] = w
        if f.ext and not real:
            j = ATOMS[i].cj
            FINV[j] = cw
            mc = monic(cw)
            if ('finv', f.name, mc) not in _intern and mc == cw:
                _intern[('finv', f.name, mc)] = ATOMS[j]
    return scale(a, c), sub(mul(a, w), const(f, 1))

def of_raw(f, T):
    """the field value whose Montgomery integer is T (canonical)"""
    if not isinstance(T, Poly):
        return const(f, T * pow(MONT, -1, f.p))
    return scale(from_int(f, T), (pow(MONT, -1, f.p), 0))

def fatoms(a, acc=None):
    acc = set() if acc is None else acc
    for m in a.t:
        acc.update(m)
    return acc

def fsubst(a, env):
    f = a.f
    keep = {}
    out = None
    for m, c in a.t.items():
        hit = [i for i in m if i in env]
        if not hit:
            keep[m] = c
            continue
        r = FPoly(f, {tuple(i for i in m if i not in env): c})
        for i in hit:
            r = mul(r, env[i])
        out = r if out is None else add(out, r)
    k = FPoly(f, keep)
    return k if out is None else add(k, out)

def monic(a):
    """scaled so that the leading (least) monomial has coefficient one"""
    if not a.t:
        return a
    m = min(a.t)
    c = a.t[m]
    return a if c == (1, 0) else scale(a, cinv(a.f, c))

# ---------------------------------------------------------------- deciding equations
def grev(m):
    return (len(m), m)

def lead(a):
    return max(a.t, key=grev)

def mdiv(m, n):
    """m / n as multisets, or None"""
    r = []
    j = 0
    ln = len(n)
    for x in m:
        if j < ln and n[j] == x:
            j += 1
        elif j < ln and n[j] < x:
            return None
        else:
            r.append(x)
    return tuple(r) if j == ln else None

def reduce(a, eqs, lim=20000):
    """remainder of a by the polynomials eqs (graded order); 0 remainder proves membership in the ideal"""
    G = [(lead(e), e) for e in eqs if e.t]
    if not G:
        return a
    f = a.f
    out = {}
    t = dict(a.t)
    p = f.p
    steps = 0
    while t:
        m = max(t, key=grev)
        c = t[m]
        hit = None
        for lm, e in G:
            r = mdiv(m, lm)
            if r is not None:
                hit = (lm, e, r)
                break
        if hit is None:
            out[m] = c
            del t[m]
            continue
        lm, e, r = hit
        k = cmul(f, c, cinv(f, e.t[lm]))
        for n, d in e.t.items():
            x = tuple(sorted(n + r))
            v = cmul(f, d, k)
            o = t.get(x, (0, 0))
            s = ((o[0] - v[0]) % p, (o[1] - v[1]) % p)
            if s[0] or s[1]:
                t[x] = s
            else:
                t.pop(x, None)
        steps += 1
        if steps > lim:
            raise Unsupported('reduction too long')
    return FPoly(f, out)

def linear_elim(goal, eqs):
    """eliminate atoms that occur linearly with a constant coefficient in one of the equations"""
    eqs = [e for e in eqs if e.t]
    for _ in range(60):
        if not goal.t:
            return goal, []
        done = False
        for n, e in enumerate(eqs):
            occ = {}
            for m in e.t:
                for i in m:
                    occ[i] = occ.get(i, 0) + 1
            cand = [i for (i, k) in occ.items() if k == 1 and (i,) in e.t]
            if not cand:
                continue
            i = max(cand)
            c = cinv(e.f, e.t[(i,)])
            rest = scale(FPoly(e.f, {m: x for m, x in e.t.items() if m != (i,)}), cmul(e.f, c, (e.f.p - 1, 0)))
            env = {i: rest}
            if ATOMS[i].cj != i:
                env[ATOMS[i].cj] = conj(rest)
            goal = fsubst(goal, env)
            eqs = [fsubst(x, env) for k, x in enumerate(eqs) if k != n]
            eqs = [x for x in eqs if x.t]
            done = True
            break
        if not done:
            break
    return goal, eqs

def span(goals, eqs):
    """are the goals in the linear span of eqs over the coefficient field?  Gaussian elimination over monomials"""
    rows = []
    for e in eqs:
        e = _redrow(e, rows)
        if e.t:
            m = max(e.t, key=grev)
            rows.append((m, scale(e, cinv(e.f, e.t[m]))))
    return all(not _redrow(g, rows).t for g in goals)

def _redrow(e, rows):
    for m, r in rows:
        c = e.t.get(m)
        if c:
            e = sub(e, scale(r, c))
    return e

def feval(a, val):
    """numeric value in GF(q^2) as a pair; val: atom id -> pair"""
    f = a.f
    s0 = s1 = 0
    for m, c in a.t.items():
        for i in m:
            c = cmul(f, c, val(i))
        s0 += c[0]
        s1 += c[1]
    return (s0 % f.p, s1 % f.p)

def clear(a, inv):
    """a times powers of the elements that the atoms of inv invert, so that none of those atoms is left"""
    for _ in range(len(inv) + 1):
        hit = [i for i in fatoms(a) if i in inv]
        if not hit:
            return a
        i = max(hit)
        w = inv[i]
        d = max(m.count(i) for m in a.t)
        out = const(a.f, 0)
        pw = [const(a.f, 1)]
        for _ in range(d):
            pw.append(mul(pw[-1], w))
        for m, c in a.t.items():
            k = m.count(i)
            out = add(out, mul(FPoly(a.f, {tuple(x for x in m if x != i): c}), pw[d - k]))
        a = out
    return a

def inconsistent(eqs, nes, budget, size=160, basis=80):
    """no values satisfy eqs = 0 and nes != 0: one is in the ideal of eqs and the t*n - 1.  A partial Buchberger
    completion within limits; False means no answer"""
    import time
    if not eqs:
        return False
    f = eqs[0].f
    end = time.time() + budget
    G, P = [], []
    todo = [e for e in eqs if e.t]
    for n in nes:
        if n.t and not n.isconst():
            t = fvar(f, 't', False)
            todo.append(sub(mul(t, n), const(f, 1)))

    def lcm(m, n):
        r, m, n = [], list(m), list(n)
        i = j = 0
        while i < len(m) or j < len(n):
            if j >= len(n) or i < len(m) and m[i] < n[j]:
                r.append(m[i]); i += 1
            elif i >= len(m) or n[j] < m[i]:
                r.append(n[j]); j += 1
            else:
                r.append(m[i]); i += 1; j += 1
        return tuple(r)

    def put(g):
        """add a polynomial; True: a constant was found"""
        try:
            g = reduce(g, G, 3000)
        except Unsupported:
            return False
        if not g.t:
            return False
        if g.isconst():
            return True
        if len(g.t) > size or len(G) >= basis:
            return False
        g = scale(g, cinv(f, g.t[lead(g)]))
        lg = lead(g)
        for h in G:
            lh = lead(h)
            l = lcm(lg, lh)
            if len(l) < len(lg) + len(lh):
                P.append((len(l), len(P), l, g, h))
        G.append(g)
        return False
    for e in sorted(todo, key=lambda e: (len(lead(e)), len(e.t))):
        if put(e):
            return True
    while P and time.time() < end:
        k = min(range(len(P)), key=lambda i: P[i][:2])
        _, _, l, g, h = P.pop(k)
        a = FPoly(f, {mdiv(l, lead(g)): (1, 0)})
        b = FPoly(f, {mdiv(l, lead(h)): (1, 0)})
        if put(sub(mul(a, g), mul(b, h))):
            return True
    return False
