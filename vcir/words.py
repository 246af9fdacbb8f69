"""Contracts of the limb arithmetic in src/arith.rs."""
from . import terms as T
from .exec import UNDEF, decide
from .terms import Unsupported, add_fact, bit, cge, ceq, cneg, ind, iv, limbs, padd, proves, pscale, psub, quo, pmul
from .unit import M64, W256, new_words, paths, put_total, total
from .exec import St, isptr

A = 'rabe_bn::arith::'
U = 'rabe_bn::arith::U256'


def _st(ex):
    return St()


def holds(st, c):
    """the precondition is discharged"""
    return decide(st.F, c) == 1 if isinstance(c, tuple) else bool(c)


def le_(st, a, b):
    """a <= b"""
    d = psub(b, a)
    return cge(st.F, d)


# ---------------------------------------------------------------- comparison
def cmp_fork(ex, st, args, f, wrap=lambda v: v):
    a, b = total(ex, st, args[0]), total(ex, st, args[1])
    out = []
    for c, v in ((le_(st, padd(a, 1), b), 255), (ceq(st.F, psub(a, b)), 0), (le_(st, padd(b, 1), a), 1)):
        r = decide(st.F, c) if isinstance(c, tuple) else c
        if r == 0:
            continue
        s = st.fork()
        if r is None and not add_fact(s.F, c):
            continue
        out.append((s, v))
    return out


def u_cmp(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    b, pb = new_words(ex, st, 'b')
    u.inputs = [(a, 'a'), (b, 'b')]
    seen = set()
    for s, r in paths(u, ex, st, f, [pa, pb]):
        if r not in (255, 0, 1):
            raise Unsupported('ordering %r' % (r,))
        d = psub(b, a)
        u.post(ex, s, cge(s.F, psub(d, 1)) if r == 255 else ceq(s.F, d) if r == 0 else cge(s.F, psub(-1, d)), 'ordering')
        u.eq(ex, s, total(ex, s, pa), a, 'frame a')
        u.eq(ex, s, total(ex, s, pb), b, 'frame b')


def rel(op):
    def cond(F, a, b):
        return cge(F, psub(psub(b, a), 1)) if op == 'lt' else cge(F, psub(b, a)) if op == 'le' else \
            cge(F, psub(psub(a, b), 1)) if op == 'gt' else cge(F, psub(a, b)) if op == 'ge' else ceq(F, psub(a, b)) if op == 'eq' else \
            cneg_(ceq(F, psub(a, b)))

    def deref(ex, st, f, p):
        return ex.load_n(st, p, 8) if f.pretty.startswith('<&') else p

    def contract(ex, st, args, f):
        a, b = total(ex, st, deref(ex, st, f, args[0])), total(ex, st, deref(ex, st, f, args[1]))
        return [(st, ind(st.F, cond(st.F, a, b)))]

    def unit(u, ex, f):
        st = St()
        a, pa = new_words(ex, st, 'a')
        b, pb = new_words(ex, st, 'b')
        u.inputs = [(a, 'a'), (b, 'b')]
        if f.pretty.startswith('<&'):
            qa, qb = ex.new_obj(st, 8, 'ra'), ex.new_obj(st, 8, 'rb')
            ex.store_n(st, qa, 8, pa)
            ex.store_n(st, qb, 8, pb)
        else:
            qa, qb = pa, pb
        for s, r in paths(u, ex, st, f, [qa, qb]):
            bool_post(u, ex, s, r, cond(s.F, a, b), op)
            u.eq(ex, s, total(ex, s, pa), a, 'frame a')
            u.eq(ex, s, total(ex, s, pb), b, 'frame b')
    return unit, contract


def cneg_(c):
    return cneg(c) if isinstance(c, tuple) else 1 - c


def bool_post(u, ex, s, r, c, what):
    """the returned bit r says whether c holds"""
    r = ex.simp(s, r)
    if isinstance(r, int):
        u.post(ex, s, c if r & 1 else cneg_(c), what)
        return
    from .exec import to_cond
    if r == ind(s.F, c):
        return u.post(ex, s, 1, what)
    k = to_cond(s.F, r)
    for v, want in ((k, c), (cneg_(k), cneg_(c))):
        s2 = s.fork()
        if add_fact(s2.F, v):
            u.post(ex, s2, want, what)


# ---------------------------------------------------------------- addition, subtraction, shifts
def c_add_nocarry(ex, st, args, f):
    a, b = total(ex, st, args[0]), total(ex, st, args[1])
    s = padd(a, b)
    i, j = iv(st.F, a), iv(st.F, b)
    if not ((i[1] is not None and j[1] is not None and i[1] + j[1] < W256) or holds(st, cge(st.F, psub(W256 - 1, s)))):
        return NotImplemented
    put_total(ex, st, args[0], s)
    return [(st, None)]


def u_add_nocarry(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    b, pb = new_words(ex, st, 'b')
    u.inputs = [(a, 'a'), (b, 'b')]
    add_fact(st.F, cge(st.F, psub(W256 - 1, padd(a, b))))
    for s, r in paths(u, ex, st, f, [pa, pb]):
        u.eq(ex, s, total(ex, s, pa), padd(a, b), 'sum')
        u.eq(ex, s, total(ex, s, pb), b, 'frame b')


def c_sub_noborrow(ex, st, args, f):
    a, b = total(ex, st, args[0]), total(ex, st, args[1])
    if not holds(st, cge(st.F, psub(a, b))):
        return NotImplemented
    put_total(ex, st, args[0], psub(a, b))
    return [(st, None)]


def u_sub_noborrow(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    b, pb = new_words(ex, st, 'b')
    u.inputs = [(a, 'a'), (b, 'b')]
    add_fact(st.F, cge(st.F, psub(a, b)))
    for s, r in paths(u, ex, st, f, [pa, pb]):
        u.eq(ex, s, total(ex, s, pa), psub(a, b), 'difference')
        u.eq(ex, s, total(ex, s, pb), b, 'frame b')


def c_mul2(ex, st, args, f):
    a = total(ex, st, args[0])
    d = pscale(a, 2)
    i = iv(st.F, a)
    if not ((i[1] is not None and 2 * i[1] < W256) or holds(st, cge(st.F, psub(W256 - 1, d)))):
        return NotImplemented
    put_total(ex, st, args[0], d)
    return [(st, None)]


def u_mul2(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    u.inputs = [(a, 'a')]
    top = quo(st.F, a, 255)
    for s, r in paths(u, ex, st, f, [pa]):
        u.eq(ex, s, total(ex, s, pa), psub(pscale(a, 2), pscale(top, W256)), 'double')


def c_div2(ex, st, args, f):
    a = total(ex, st, args[0])
    put_total(ex, st, args[0], quo(st.F, a, 1))
    return [(st, None)]


def u_div2(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    u.inputs = [(a, 'a')]
    for s, r in paths(u, ex, st, f, [pa]):
        u.eq(ex, s, total(ex, s, pa), quo(s.F, a, 1), 'half')


# ---------------------------------------------------------------- multiply-accumulate
def c_mac_digit(ex, st, args, f):
    pa, na, pb, nb, c = args
    if not (isinstance(na, int) and isinstance(nb, int)) or nb != 4 or not 4 <= na <= 8:
        return NotImplemented
    a, b = total(ex, st, pa, na), total(ex, st, pb, nb)
    from .exec import op_mul, wordname
    if isinstance(c, T.Poly) and isinstance(b, T.Poly):
        p = pmul(c, b)
    else:
        p = pmul(c, b)
    s = padd(a, p)
    i = T.iadd(iv(st.F, a), T.imul(iv(st.F, c), iv(st.F, b)))
    from .exec import reg
    reg(st.F, s, i, T.iadd(iv(T.NOFACTS, a), T.imul(iv(T.NOFACTS, c), iv(T.NOFACTS, b))))
    M = 1 << (64 * na)
    i = iv(st.F, s)
    if not (i[1] is not None and i[1] < M) and not holds(st, cge(st.F, psub(M - 1, s))):
        return NotImplemented
    put_total(ex, st, pa, s, na)
    return [(st, None)]


def u_mac_digit(u, ex, f):
    for na in range(4, 9):
        st = St()
        a, pa = new_words(ex, st, 'acc', None, na)
        b, pb = new_words(ex, st, 'b')
        c = T.var('c', 0, M64)
        u.inputs = [(a, 'acc'), (b, 'b'), (c, 'c')]
        s = padd(a, pmul(b, c))
        add_fact(st.F, cge(st.F, psub((1 << (64 * na)) - 1, s)))
        for s2, r in paths(u, ex, st, f, [pa, na, pb, 4, c]):
            u.eq(ex, s2, total(ex, s2, pa, na), s, 'acc + b*c (%d words)' % na)
            u.eq(ex, s2, total(ex, s2, pb), b, 'frame b')


def c_mac_with_carry(ex, st, args, f):
    from .exec import reg
    a, b, c, pc = args
    k = ex.load_n(st, pc, 8)
    F = st.F
    s = padd(padd(a, pmul(b, c)), k)
    if isinstance(s, T.Poly):
        reg(F, s, T.iadd(T.iadd(iv(F, a), iv(F, k)), T.imul(iv(F, b), iv(F, c))),
            T.iadd(T.iadd(iv(T.NOFACTS, a), iv(T.NOFACTS, k)), T.imul(iv(T.NOFACTS, b), iv(T.NOFACTS, c))))
    q = quo(F, s, 64)
    if isinstance(q, T.Poly):
        reg(F, q, (0, M64), (None, None) if F.iv else (0, M64))
    ex.store_n(st, pc, 8, q)
    return [(st, T.lowpart(F, s, 64))]


def u_mac_with_carry(u, ex, f):
    st = St()
    v = [T.var(x, 0, M64) for x in 'abck']
    u.inputs = list(zip(v, 'abck'))
    pc = ex.new_obj(st, 8, 'carry')
    ex.store_n(st, pc, 8, v[3])
    for s, r in paths(u, ex, st, f, v[:3] + [pc]):
        k = ex.load_n(s, pc, 8)
        u.eq(ex, s, padd(r, pscale(k, 1 << 64)), padd(padd(v[0], v[3]), pmul(v[1], v[2])), 'a + b*c + carry')
        u.post(ex, s, cge(s.F, r), 'word')
        u.post(ex, s, cge(s.F, psub(M64, r)), 'word')


# ---------------------------------------------------------------- bits
def getbit(words):
    def contract(ex, st, args, f):
        p, n = args
        if not isinstance(n, int):
            return NotImplemented
        if n >= 64 * words:
            return [(st, 2)]
        return [(st, bit(st.F, total(ex, st, p, words), n))]

    def unit(u, ex, f):
        st0 = St()
        a, pa = new_words(ex, st0, 'a', None, words)
        u.inputs = [(a, 'a')]
        for n in range(64 * words):
            st = st0.fork()
            for s, r in paths(u, ex, st, f, [pa, n]):
                b = bit(s.F, a, n)
                if r == b:
                    u.post(ex, s, 1, 'bit')
                elif isinstance(r, int) and r in (0, 1):
                    u.eq(ex, s, b, r, 'bit %d' % n)
                else:
                    u.eq(ex, s, b, r, 'bit %d' % n)
        st = st0.fork()
        n = T.var('n', 64 * words, M64)
        u.inputs.append((n, 'n'))
        for s, r in paths(u, ex, st, f, [pa, n]):
            u.eq(ex, s, r, 2, 'no bit beyond the width')
    return unit, contract


def c_set_bit(ex, st, args, f):
    p, n, to = args
    if not isinstance(n, int):
        return NotImplemented
    if n >= 256:
        return [(st, 0)]
    a = total(ex, st, p)
    b = bit(st.F, a, n)
    put_total(ex, st, p, padd(a, pscale(psub(to, b), 1 << n)))
    return [(st, 1)]


def u_set_bit(u, ex, f):
    st0 = St()
    a, pa = new_words(ex, st0, 'a')
    to = T.var('to', 0, 1)
    u.inputs = [(a, 'a'), (to, 'to')]
    for n in range(256):
        st = st0.fork()
        for s, r in paths(u, ex, st, f, [pa, n, to]):
            u.eq(ex, s, r, 1, 'accepted')
            u.eq(ex, s, total(ex, s, pa), padd(a, pscale(psub(to, bit(s.F, a, n)), 1 << n)), 'bit %d set, others kept' % n)
    st = st0.fork()
    n = T.var('n', 256, M64)
    u.inputs.append((n, 'n'))
    for s, r in paths(u, ex, st, f, [pa, n, to]):
        u.eq(ex, s, r, 0, 'refused')
        u.eq(ex, s, total(ex, s, pa), a, 'unchanged')


def c_is_zero(ex, st, args, f):
    a = total(ex, st, args[0])
    return [(st, ind(st.F, ceq(st.F, a)))]


def u_is_zero(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    u.inputs = [(a, 'a')]
    for s, r in paths(u, ex, st, f, [pa]):
        bool_post(u, ex, s, r, ceq(s.F, a), 'zero test')


def c_is_even(ex, st, args, f):
    a = total(ex, st, args[0])
    return [(st, psub(1, bit(st.F, a, 0)))]


def u_is_even(u, ex, f):
    st = St()
    a, pa = new_words(ex, st, 'a')
    u.inputs = [(a, 'a')]
    for s, r in paths(u, ex, st, f, [pa]):
        bool_post(u, ex, s, r, ceq(s.F, bit(s.F, a, 0)), 'even test')


def verify(V):
    V.unit('cmp', '<%s as core::cmp::Ord>::cmp' % U, u_cmp, cmp_fork)
    V.unit('partial_cmp', '<%s as core::cmp::PartialOrd>::partial_cmp' % U, u_cmp, cmp_fork)
    for op in ('lt', 'le', 'gt', 'ge'):
        for self in (U, '&' + U):
            un, c = rel(op)
            V.unit(op, '<%s as core::cmp::PartialOrd>::%s' % (self, op), un, c)
    for op in ('eq', 'ne'):
        for self in (U, '&' + U):
            un, c = rel(op)
            V.unit(op, '<%s as core::cmp::PartialEq>::%s' % (self, op), un, c)
    V.unit('is_zero', '<%s>::is_zero' % U, u_is_zero, c_is_zero)
    V.unit('is_even', '<%s>::is_even' % U, u_is_even, c_is_even)
    V.unit('add_nocarry', A + 'add_nocarry', u_add_nocarry, c_add_nocarry)
    V.unit('sub_noborrow', A + 'sub_noborrow', u_sub_noborrow, c_sub_noborrow)
    V.unit('mul2', A + 'mul2', u_mul2, c_mul2)
    V.unit('div2', A + 'div2', u_div2, c_div2)
    V.unit('mac_with_carry', A + 'mac_digit::mac_with_carry', u_mac_with_carry, c_mac_with_carry)
    V.unit('mac_digit', A + 'mac_digit', u_mac_digit, c_mac_digit)
    un, c = getbit(4)
    V.unit('get_bit', '<%s>::get_bit' % U, un, c)
    un, c = getbit(8)
    V.unit('U512 get_bit', '<rabe_bn::arith::U512>::get_bit', un, c)
    V.unit('set_bit', '<%s>::set_bit' % U, u_set_bit, c_set_bit)


# ---------------------------------------------------------------- 512-bit numbers
def quotient(n, m):
    """floor(n / m) and the remainder, as terms"""
    from .exec import fdiv
    D = fdiv(T.NOFACTS, n, m)
    return D, psub(n, pmul(m, D))


def divrem_posts(u, ex, s, tag, q, r, n, m):
    """the remainder always; the quotient exactly when it is below m.  q, r: thunks giving totals"""
    D, rem = quotient(n, m)
    u.eq(ex, s, r(), rem, 'remainder is n mod m')
    if tag == 1:
        u.eq(ex, s, q(), D, 'quotient is floor(n/m)')
        u.post(ex, s, T.cge(s.F, psub(psub(m, 1), D)), 'quotient returned only when below m')
    elif tag == 0:
        u.post(ex, s, T.cge(s.F, psub(D, m)), 'quotient withheld only when not below m')
    else:
        raise Unsupported('tag %r' % (tag,))


def u_divrem(u, ex, f):
    st = St()
    n, pn = new_words(ex, st, 'n', None, 8)
    m, pm = new_words(ex, st, 'm', (1 << 255) - 1, 4, 2)
    u.inputs = [(n, 'n'), (m, 'm')]
    o = ex.new_obj(st, 72, 'out')
    for s, _ in paths(u, ex, st, f, [o, pn, pm]):
        divrem_posts(u, ex, s, ex.load_n(s, o, 8), lambda: total(ex, s, o + 8), lambda: total(ex, s, o + 40), n, m)
        u.eq(ex, s, total(ex, s, pn, 8), n, 'frame n')
        u.eq(ex, s, total(ex, s, pm), m, 'frame m')


def one_atom(F, v, hi):
    """v, or a name for it, so that quotients by other numbers are taken of a single atom"""
    if not isinstance(v, T.Poly):
        return v
    if len(v.t) == 1 and list(v.t.values()) == [1] and len(list(v.t)[0]) == 1:
        return v
    return T.name(v, 'N', 0, hi)


def c_divrem(ex, st, args, f):
    n, m = total(ex, st, args[1], 8), total(ex, st, args[2])
    F = st.F
    if isinstance(m, T.Poly):
        m = one_atom(F, m, W256 - 1)
    for c in (cge(F, psub(m, 2)) if isinstance(m, T.Poly) else m >= 2, cge(F, psub((1 << 255) - 1, m)) if isinstance(m, T.Poly) else m < 1 << 255):
        if not holds(st, c):
            return NotImplemented
    n = one_atom(F, n, (1 << 512) - 1)
    D, rem = quotient(n, m)
    if isinstance(rem, T.Poly):
        from .exec import reg
        mh = iv(F, m)[1]
        reg(F, rem, (0, mh - 1), (None, None) if F.iv else (0, None))
    o = args[0]
    fits = cge(F, psub(psub(m, 1), D)) if isinstance(psub(psub(m, 1), D), T.Poly) else int(D < m)
    r = decide(F, fits) if isinstance(fits, tuple) else int(fits)
    if r is None and not getattr(ex, 'want_quotient', False):
        from .exec import Ambig
        ex.store_n(st, o, 8, ind(F, fits))
        w = ex.wobj(st, o)
        from .exec import poff
        ex.clear(st, w, poff(o) + 8, 32)
        w.cells[poff(o) + 8] = (32, Ambig('quotient'))
        put_total(ex, st, o + 40, rem)
        return [(st, None)]
    out = []
    for v, c in ((1, fits), (0, cneg_(fits))):
        if r is not None and r != v:
            continue
        s = st.fork()
        if r is None and not add_fact(s.F, c):
            continue
        ex.store_n(s, o, 8, v)
        if v:
            put_total(ex, s, o + 8, D)
        put_total(ex, s, o + 40, rem)
        out.append((s, None))
    return out


def u_from(u, ex, f):
    st = St()
    c1, p1 = new_words(ex, st, 'c1')
    c0, p0 = new_words(ex, st, 'c0')
    m, pm = new_words(ex, st, 'm')
    u.inputs = [(c1, 'c1'), (c0, 'c0'), (m, 'm')]
    v = padd(pmul(c1, m), c0)
    add_fact(st.F, cge(st.F, psub((1 << 512) - 1, v)))
    o = ex.new_obj(st, 64, 'out')
    for s, _ in paths(u, ex, st, f, [o, p1, p0, pm]):
        u.eq(ex, s, total(ex, s, o, 8), v, 'c1*m + c0')


def be_bytes(u, ex, st, nm, n):
    """an object of n free bytes: (pointer, big-endian value, bytes)"""
    p = ex.new_obj(st, n, nm)
    v = 0
    bs = []
    for k in range(n):
        b = T.var('%s%d' % (nm, k), 0, 255)
        ex.store_n(st, p + k, 1, b)
        u.inputs.append((b, '%s%d' % (nm, k)))
        v = padd(pscale(v, 256), b)
        bs.append(b)
    return p, v, bs


def c_interpret(ex, st, args, f):
    o, b = args[0], args[1]
    r = 0
    for k in range(64):
        x = ex.load_n(st, b + k, 1)
        if not isinstance(x, (int, T.Poly)):
            return NotImplemented
        r = padd(pscale(r, 256), x)
    if isinstance(r, T.Poly):
        from .exec import reg
        reg(st.F, r, (0, (1 << 512) - 1), (None, None) if st.F.iv else (0, (1 << 512) - 1))
    put_total(ex, st, o, r, 8)
    return [(st, None)]


def u_interpret(u, ex, f):
    st = St()
    b, v, bs = be_bytes(u, ex, st, 'b', 64)
    o = ex.new_obj(st, 64, 'out')
    for s, _ in paths(u, ex, st, f, [o, b]):
        u.eq(ex, s, total(ex, s, o, 8), v, 'big-endian value')


def verify512(V):
    V.unit('divrem', '<rabe_bn::arith::U512>::divrem', u_divrem, c_divrem, 200)


def verify_interpret(V):
    V.unit('U512::interpret', '<rabe_bn::arith::U512>::interpret', u_interpret, c_interpret)
