"""Contracts of the prime fields (src/fields/fp.rs) over canonical Montgomery words, and of Fq2 over its coordinates."""
import time

from . import fpoly as FP, merge, terms as T
from .exec import Ambig, AmbigUse, El, St, UNDEF, SIZES, decide, poff, reg
from .fpoly import FQ, FR, MONT, Q, R
from .terms import Poly, Unsupported, add_fact, ceq, cge, cneg, ind, iv, limbs, padd, psub, proves
from .unit import NotCanonical, W256, new_words, paths, put_total, total
from .words import bool_post

FP_ = 'rabe_bn::fields::fp::'
FE = 'rabe_bn::fields::FieldElement>::'
FLD = {'Fr': FR, 'Fq': FQ, 'Fq2': FQ}
MOD = {'Fr': R, 'Fq': Q}


def peek(ex, st, p, sort):
    """the whole element stored at p, if it is stored as one"""
    if isinstance(p, Ambig):
        raise AmbigUse(p.label)
    o = ex.obj(st, p)
    x = o.cells.get(poff(p))
    if x is not None and isinstance(x[1], El) and x[1].sort == sort:
        return x[1].v
    if x is not None and isinstance(x[1], Ambig):
        raise AmbigUse(x[1].label)
    return None


def explode_at(ex, st, p, sorts):
    """open up bigger elements that start at p"""
    while True:
        o = ex.obj(st, p)
        off = poff(p)
        x = o.cells.get(off)
        if x is not None and isinstance(x[1], El):
            if x[1].sort in sorts or x[1].sort == 'W':
                return
            o = ex.wobj(st, p)
            ex.explode(st, o, off)
            continue
        # p may lie inside a bigger element
        for k, (n, v) in o.cells.items():
            if k < off < k + n and isinstance(v, El):
                break
        else:
            return
        o = ex.wobj(st, p)
        ex.explode(st, o, k)


def get_fp(ex, st, p, sort):
    """value of the prime field element at p; its words must be canonical"""
    explode_at(ex, st, p, (sort,))
    v = peek(ex, st, p, sort)
    if v is not None:
        return v
    t = ex.simp(st, total(ex, st, p))
    m = MOD[sort]
    i = iv(st.F, t)
    if not (i[0] is not None and i[0] >= 0) and not proves(st.F, ('ge', t)):
        raise NotCanonical()
    if not (i[1] is not None and i[1] < m) and not proves(st.F, ('ge', psub(m - 1, t))):
        raise NotCanonical()
    return FP.of_raw(FLD[sort], t)


def put_el(ex, st, p, sort, v):
    o = ex.wobj(st, p)
    off = poff(p)
    n = SIZES[sort]
    ex.bounds(st, o, off, n, 'store')
    ex.clear(st, o, off, n)
    o.cells[off] = (n, El(sort, v))


def get_el(ex, st, p, sort):
    if sort in ('Fr', 'Fq'):
        return get_fp(ex, st, p, sort)
    if sort == 'Fq2':
        explode_at(ex, st, p, ('Fq2', 'Fq'))
        v = peek(ex, st, p, 'Fq2')
        if v is not None:
            return v
        return FP.join(get_fp(ex, st, p, 'Fq'), get_fp(ex, st, p + 32, 'Fq'))
    raise Unsupported('reading a ' + sort)


def fzero(v):
    """condition: the field value is zero"""
    if v.isconst():
        return int(not v.t)
    if all(len(m) <= 1 and (not m or T.ATOMS[m[0]].kind == 'v') for m in v.t) and not any(c[1] for c in v.t.values()):
        # a combination of raw words: the integers decide
        p = v.f.p
        t = {}
        for m, c in v.t.items():
            c = c[0] * MONT % p
            t[m] = c if c < p // 2 else c - p
        t = Poly(t)
        i = iv(T.NOFACTS, t)
        if None not in i and -p < i[0] and i[1] < p:
            return ceq(T.NOFACTS, t)
    return ('feq', FP.monic(v))


def fmul(a, b):
    from . import merge
    return merge.fmul(a, b)


# ---------------------------------------------------------------- contracts
def op_contract(sort, nin, fun):
    """out := fun(ins), everything by pointer"""
    def c(ex, st, args, f):
        try:
            ins = [get_el(ex, st, p, sort) for p in args[1:1 + nin]]
        except NotCanonical:
            return NotImplemented
        put_el(ex, st, args[0], sort, fun(*ins))
        return [(st, None)]
    return c


def const_contract(sort, val):
    def c(ex, st, args, f):
        put_el(ex, st, args[0], sort, val)
        return [(st, None)]
    return c


def pred_contract(sort, nin, fun):
    def c(ex, st, args, f):
        try:
            ins = [get_el(ex, st, p, sort) for p in args[:nin]]
        except NotCanonical:
            return NotImplemented
        return [(st, ind(st.F, fun(*ins)))]
    return c


# ---------------------------------------------------------------- harness
def fp_input(u, ex, st, nm, sort):
    a, p = new_words(ex, st, nm, MOD[sort] - 1)
    u.inputs.append((a, nm))
    return a, p, FP.of_raw(FLD[sort], a)


def canonical_post(u, ex, s, p, sort):
    """the words at p are below the modulus; returns their integer"""
    m = MOD[sort]
    v = peek(ex, s, p, sort)
    if v is not None:
        u.post(ex, s, 1, 'canonical')
        return FP.raw(v)
    t = ex.simp(s, total(ex, s, p))
    u.post(ex, s, cge(s.F, t) if isinstance(t, Poly) else t >= 0, 'canonical (not negative)')
    u.post(ex, s, cge(s.F, psub(m - 1, t)) if isinstance(t, Poly) else t < m, 'canonical (below the modulus)')
    return t


def fp_unit(sort, nin, fun, what):
    def unit(u, ex, f):
        st = St()
        ins = [fp_input(u, ex, st, 'abc'[k], sort) for k in range(nin)]
        o = ex.new_obj(st, 32, 'out')
        for s, r in paths(u, ex, st, f, [o] + [p for _, p, _ in ins]):
            t = canonical_post(u, ex, s, o, sort)
            want = fun(*[v for _, _, v in ins])
            field_eq(u, ex, s, sort, t, want, what)
    return unit


def field_facts(F, f):
    """with the integer equations read as equations of the field"""
    G = F.copy()
    for c in F.l:
        if c[0] == 'eq' and T.int_only(c):
            try:
                d = FP.from_int(f, c[1])
            except Unsupported:
                continue
            if not d.isconst():
                add_fact(G, ('feq', FP.monic(d)))
    return G


def field_eq(u, ex, s, sort, t, want, what):
    f = FLD[sort]
    try:
        e = T.expand_names(t, 200000)
    except Unsupported:
        e = t
    got = FP.of_raw(f, e)
    d = FP.sub(got, want)
    named = [i for i in FP.fatoms(d) if i >= 0 and T.ATOMS[i].kind == 'n']
    if named:
        d = FP.fsubst(d, {i: FP.from_int(f, T.expand_names(T.avar(T.ATOMS[i]))) for i in named})
    if not d.t:
        return u.post(ex, s, 1, what)
    # a path on which an input is known
    cst = {i: FP.const(f, v) for i, v in s.F.cst.items()}
    if cst:
        d = FP.fsubst(d, cst)
        if not d.t:
            return u.post(ex, s, 1, what)
    if decide(field_facts(s.F, f), ('feq', d)) == 1:
        return u.post(ex, s, 1, what)
    m = MOD[sort]
    w = FP.raw(want)
    # both canonical: equal iff the integers agree
    return u.post(ex, s, ceq(s.F, psub(t, w)), what)


def fp_pred(sort, nin, icond, what):
    def unit(u, ex, f):
        st = St()
        ins = [fp_input(u, ex, st, 'abc'[k], sort) for k in range(nin)]
        for s, r in paths(u, ex, st, f, [p for _, p, _ in ins]):
            bool_post(u, ex, s, r, icond(s.F, *[a for a, _, _ in ins]), what)
            for a, p, _ in ins:
                u.eq(ex, s, total(ex, s, p), a, 'frame')
    return unit


# ---------------------------------------------------------------- U256 operations modulo a field prime
PNUM = {R: FR, Q: FQ}
U256 = '<rabe_bn::arith::U256>::'


def mont_inv(p):
    return -pow(p, -1, 1 << 64) % (1 << 64)


def below(st, t, hi):
    """the integer t is known to lie in [0, hi]"""
    i = iv(st.F, t)
    if i[0] is not None and i[0] >= 0 and i[1] is not None and i[1] <= hi:
        return True
    return isinstance(t, Poly) and proves(st.F, ('ge', t)) and proves(st.F, ('ge', psub(hi, t)))


def montmul(f, a, b):
    """a*b/2^256 modulo the prime, as a canonical integer"""
    k = pow(MONT, -1, f.p)
    return FP.raw(FP.scale(FP.mul(FP.from_int(f, a), FP.from_int(f, b)), (k * k % f.p, 0)))


def mul_contract(primes):
    def c(ex, st, args, f):
        m = ex.simp(st, total(ex, st, args[2]))
        if m not in primes or args[3] != mont_inv(m):
            return NotImplemented
        a, b = ex.simp(st, total(ex, st, args[0])), ex.simp(st, total(ex, st, args[1]))
        if not (below(st, b, m - 1) or below(st, a, m - 1)):
            return NotImplemented
        put_total(ex, st, args[0], montmul(PNUM[m], a, b))
        return [(st, None)]
    return c


def mul_unit(primes):
    def unit(u, ex, f):
        for m in primes:
            fld = PNUM[m]
            sort = fld.name
            for ha, hb in ((W256 - 1, m - 1), (m - 1, W256 - 1)):
                st = St()
                a, pa = new_words(ex, st, 'a', ha)
                b, pb = new_words(ex, st, 'b', hb)
                u.inputs = [(a, 'a'), (b, 'b')]
                pm = ex.new_obj(st, 32, 'm')
                put_total(ex, st, pm, m)
                for s, r in paths(u, ex, st, f, [pa, pb, pm, mont_inv(m)]):
                    t = canonical_post(u, ex, s, pa, sort)
                    k = pow(MONT, -1, m)
                    field_eq(u, ex, s, sort, t, FP.scale(FP.mul(FP.from_int(fld, a), FP.from_int(fld, b)), (k * k % m, 0)), 'Montgomery product')
                    u.eq(ex, s, total(ex, s, pb), b, 'frame')
                    u.eq(ex, s, total(ex, s, pm), m, 'frame')
    return unit


def invert_contract(primes):
    def c(ex, st, args, f):
        m = ex.simp(st, total(ex, st, args[1]))
        if m not in primes:
            return NotImplemented
        a = ex.simp(st, total(ex, st, args[0]))
        if not below(st, a, m - 1):
            return NotImplemented
        fld = PNUM[m]
        v = FP.from_int(fld, a)
        nz = decide(st.F, ('fne', FP.monic(v))) if not v.isconst() else int(bool(v.t))
        if nz != 1:
            z = cneg(ceq(st.F, a)) if isinstance(a, Poly) else int(a != 0)
            if (decide(st.F, z) if isinstance(z, tuple) else z) != 1:
                return NotImplemented
        w, e = FP.finv(v)
        if e is not None:
            add_fact(st.F, ('feq', e))
        put_total(ex, st, args[0], FP.cint(w))
        return [(st, None)]
    return c


def invert_unit(primes):
    from . import loops
    from .diff import Case, I, O, opt
    from .spec import word

    def case(e):
        x = e['a']
        return Case('vp_fr_inverse', 'b', [I(word(x)), O(32)], opt(word(pow(x, -1, R) * MONT * MONT % R))) if 0 < x < R else None

    def unit(u, ex, f):
        for m in primes:
            if m == R:
                u.case = case
            loops.verify_inversion(u, ex, f, m, PNUM[m])
    return unit


def verify_mont(V, sorts):
    primes = [MOD[s] for s in sorts]
    V.unit('Montgomery product', U256 + 'mul', mul_unit(primes), mul_contract(primes))


def verify_invert(V, sorts):
    primes = [MOD[s] for s in sorts]
    # the loop has no bound: without its contract nothing can be said about its callers
    st = V.unit('modular inversion', U256 + 'invert', invert_unit(primes), invert_contract(primes), 100, 'Fr' in sorts)
    if st not in ('proved', 'absent'):
        def no(ex, st, args, f):
            raise Unsupported('U256::invert has no contract')
        V.contracts[U256 + 'invert'] = no


def inverse_unit(sort):
    def unit(u, ex, f):
        def run(st, p, each):
            o = ex.new_obj(st, 40, 'out')
            for s, _ in paths(u, ex, st, f, [o, p]):
                each(s, ex.load_n(s, o, 8), o + 8)

        def euclid():
            st = St()
            a, p, v = fp_input(u, ex, st, 'a', sort)
            run(st, p, lambda s, tag, o: inverse_posts(u, ex, s, sort, a, v, tag, o))
        euclid_or_fermat(u, ex, sort, euclid, run)
    return unit


def euclid_or_fermat(u, ex, sort, euclid, run):
    """the input as a number; failing that as a formal element, for an inverse computed as a power"""
    n = ex.nobj
    try:
        return euclid()
    except Unsupported as e:
        if ex.fails or u.fails or time.time() > ex.deadline - 5:
            raise
        err = e
    ex.nobj, ex.stack, u.paths = n, [], 0
    p = MOD[sort]
    b = FP.fvar(FLD[sort], 'a')
    (i,), = b.t
    st = St()
    q = ex.new_obj(st, 32, 'a')
    put_el(ex, st, q, sort, b)
    merge.POWBASE.add(i)

    def each(s, tag, o):
        z = decide(s.F, ('feq', b))
        if z is None or tag not in (0, 1):
            raise err
        u.post(ex, s, int(z == 1 - tag), 'an inverse exactly for a non-zero element')
        if tag:
            w = merge.power_parts(get_el(ex, s, o, sort))
            if w is None or not isinstance(w[1], int):
                raise err
            u.post(ex, s, int(w[1] % (p - 1) == p - 2), "the power that is the inverse (Fermat, the modulus is prime)")
        v = get_el(ex, s, q, sort)
        u.feq(ex, s, v, b, 'input unchanged')
    try:
        run(st, q, each)
    finally:
        merge.POWBASE.discard(i)


def inverse_posts(u, ex, s, sort, a, v, tag, o):
    from .loops import field_post
    if tag == 0:
        u.post(ex, s, ceq(s.F, a), 'no inverse only for zero')
        return
    if tag != 1:
        raise Unsupported('tag %r' % (tag,))
    u.post(ex, s, cneg(ceq(s.F, a)), 'an inverse only for a non-zero element')
    t = canonical_post(u, ex, s, o, sort)
    field_post(u, ex, s, FLD[sort], FP.sub(FP.mul(FP.of_raw(FLD[sort], t), v), FP.const(FLD[sort], 1)), 'product with the input is one')


def inverse_contract(sort):
    def c(ex, st, args, f):
        try:
            v = get_el(ex, st, args[1], sort)
        except NotCanonical:
            return NotImplemented
        z = fzero(v)
        r = decide(st.F, z) if isinstance(z, tuple) else z
        out = []
        for k in (1, 0):
            if r is not None and r != k:
                continue
            s = st.fork()
            if r is None and not add_fact(s.F, z if k else cneg(z)):
                continue
            if k:
                ex.store_n(s, args[0], 8, 0)
            else:
                nz = ('fne', FP.monic(v))
                if not v.isconst() and nz not in s.F.l:
                    add_fact(s.F, nz)
                w, e = FP.finv(v)
                if e is not None:
                    add_fact(s.F, ('feq', e))
                ex.store_n(s, args[0], 8, 1)
                put_el(ex, s, args[0] + 8, sort, w)
            out.append((s, None))
        return out
    return c


def verify_inverse(V, sorts):
    verify_invert(V, sorts)
    for S in sorts:
        V.unit(S + '::inverse', '<%s as %sinverse' % (FP_ + S, FE), inverse_unit(S), inverse_contract(S))


def verify_fp(V, sorts=('Fr', 'Fq')):
    verify_mont(V, sorts)
    for S in sorts:
        f = FLD[S]
        ty = FP_ + S
        for op, tr, n, g in (('add', 'Add', 2, FP.add), ('sub', 'Sub', 2, FP.sub), ('mul', 'Mul', 2, fmul), ('neg', 'Neg', 1, FP.neg)):
            V.unit('%s::%s' % (S, op), '<%s as core::ops::arith::%s>::%s' % (ty, tr, op), fp_unit(S, n, g, op + ' modulo the prime'), op_contract(S, n, g))
        sq = lambda a: fmul(a, a)
        V.unit(S + '::squared', '<%s as %ssquared' % (ty, FE), fp_unit(S, 1, sq, 'square modulo the prime'), op_contract(S, 1, sq))
        V.unit(S + '::zero', '<%s as %szero' % (ty, FE), fp_unit(S, 0, lambda f=f: FP.const(f, 0), 'zero'), const_contract(S, FP.const(f, 0)))
        V.unit(S + '::one', '<%s as %sone' % (ty, FE), fp_unit(S, 0, lambda f=f: FP.const(f, 1), 'one'), const_contract(S, FP.const(f, 1)))
        V.unit(S + '::eq', '<%s as core::cmp::PartialEq>::eq' % ty, fp_pred(S, 2, lambda F, a, b: ceq(F, psub(a, b)), 'equality'),
               pred_contract(S, 2, lambda a, b: fzero(FP.sub(a, b))))
        V.unit(S + '::ne', '<%s as core::cmp::PartialEq>::ne' % ty, fp_pred(S, 2, lambda F, a, b: cneg(ceq(F, psub(a, b))), 'inequality'),
               pred_contract(S, 2, lambda a, b: _not(fzero(FP.sub(a, b)))))
        V.unit(S + '::is_zero', '<%s as %sis_zero' % (ty, FE), fp_pred(S, 1, lambda F, a: ceq(F, a), 'zero test'),
               pred_contract(S, 1, fzero))


def _not(c):
    return cneg(c) if isinstance(c, tuple) else 1 - c
