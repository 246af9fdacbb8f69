"""Execution of one function with states joined at block entries: loops over concrete ranges whose bodies branch on
symbolic data are unrolled without forking.

At a join, words that differ become  v2 + t*(v1 - v2)  with t the 0/1 indicator of the branch condition; a pair of values
known to be the two candidates for a remainder modulo m becomes  U - m*floor(U/m).  Pointers and other values that cannot
be combined become Ambig; using one makes the run start again with that location kept apart (part of the control state)."""
import time
from fractions import Fraction
from math import gcd
from .irparse import parse_func
from . import terms as T, fpoly as FP
from .terms import ATOMS, Facts, NOFACTS, Poly, Unsupported, avar, ceq, cneg, ind, iv, padd, proves, pscale, psub, quo
from .exec import Ambig, AmbigUse, CmpRes, El, Obj, St, UNDEF, decide, fdiv, reg, _union

MAXITER = 1500


class Order:
    """weak topological order: loops contiguous, heads first"""

    def __init__(self, f):
        self.succ = {}
        for lab, ins in f.blocks.items():
            x = ins[-1]
            self.succ[lab] = {'jmp': lambda: [x[2]], 'br': lambda: [x[3], x[4]],
                              'switch': lambda: [x[4]] + [t for _, t in x[5]]}.get(x[0], lambda: [])()
        self.pos = {}
        self.heads = {}
        self.n = 0
        reach = self.reach(f.entry, None)
        self.comp([l for l in f.blocks if l in reach], f.entry, ())

    def reach(self, a, inside):
        seen = {a}
        w = [a]
        while w:
            for s in self.succ[w.pop()]:
                if s not in seen and (inside is None or s in inside):
                    seen.add(s)
                    w.append(s)
        return seen

    def comp(self, nodes, entry, heads):
        """SCCs in topological order (Tarjan, iterative)"""
        ns = set(nodes)
        idx, low, st, on, out = {}, {}, [], set(), []
        for root in ([entry] if entry in ns else []) + list(nodes):
            if root in idx:
                continue
            work = [(root, iter(self.succ[root]))]
            idx[root] = low[root] = len(idx)
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                for s in it:
                    if s not in ns:
                        continue
                    if s not in idx:
                        idx[s] = low[s] = len(idx)
                        st.append(s)
                        on.add(s)
                        work.append((s, iter(self.succ[s])))
                        break
                    if s in on:
                        low[v] = min(low[v], idx[s])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            x = st.pop()
                            on.discard(x)
                            c.append(x)
                            if x == v:
                                break
                        out.append(c)
        for c in reversed(out):
            h = c[-1]
            if len(c) == 1 and h not in self.succ[h]:
                self.pos[h] = self.n
                self.heads[h] = heads
                self.n += 1
                continue
            # the head is the member entered from outside (first discovered)
            cs = set(c)
            self.pos[h] = self.n
            self.heads[h] = heads + (h,)
            self.n += 1
            rest = [x for x in c if x != h]
            save = self.succ[h]
            sub = []
            # order the rest with the head removed, starting from its successors
            if rest:
                self.comp_rest(rest, save, heads + (h,))

    def comp_rest(self, rest, first, heads):
        entry = next((x for x in first if x in rest), rest[0])
        self.comp([entry] + [x for x in rest if x != entry], entry, heads)

    def key(self, lab, it):
        k = []
        for h in self.heads[lab]:
            k += [self.pos[h], it[h]]
        k.append(self.pos[lab])
        return tuple(k)

    def step(self, a, it, b):
        out = {}
        for h in self.heads[b]:
            if h in it:
                out[h] = it[h] + (1 if b == h else 0)
                if out[h] > MAXITER:
                    raise Unsupported('loop not bounded')
            else:
                out[h] = 0
        return out


def run(ex, st0, f, args):
    parse_func(f)
    k = (f.mod.path, f.name)
    order = ex.orders.get(k)
    if order is None:
        order = ex.orders[k] = Order(f)
    owner = (f.name, len(ex.stack), ex.nobj)
    control = ex.control.setdefault(owner, set())
    nobj, nf, no = ex.nobj, len(ex.fails), ex.obl
    quick = not ex.quick
    while True:
        save = st0.fork()
        try:
            old = ex.quick
            ex.quick = old or quick
            try:
                return attempt(ex, st0, f, args, order, owner, control)
            finally:
                ex.quick = old
        except Unsupported:
            if not quick:
                raise
            quick = False
            ex.nobj = nobj
            del ex.fails[nf:]
            ex.obl = no
            st0 = save
        except AmbigUse as e:
            if e.label[0] != owner or e.label[1:] in control:
                raise
            if ex.trace: print('control', e.label)
            control.add(e.label[1:])
            if len(control) > 40:
                raise Unsupported('control state too large')
            ex.nobj = nobj
            del ex.fails[nf:]
            ex.obl = no
            st0 = save


def attempt(ex, st0, f, args, order, owner, control):
    pool = {}
    base = set(st0.mem)

    def add(st, lab, it, regs, frame):
        k = (order.key(lab, it), lab)
        pool.setdefault(k, (it, []))[1].append((st, regs, frame))

    add(st0, f.entry, order.step(None, {}, f.entry), ex.entry(f, args), ())
    rets = []
    while pool:
        k = min(pool)
        it, states = pool.pop(k)
        lab = k[1]
        for st, regs, frame in grouped(ex, states, owner, control):
            if time.time() > ex.deadline:
                raise Unsupported('time limit')
            succ, rs = ex.block(st, f, lab, None, regs, frame)
            rets.extend(rs)
            for s2, l2, p2, r2, fr2, sp in succ:
                phis(ex, s2, f, l2, p2, r2)
                add(s2, l2, order.step(lab, it, l2), r2, fr2)
    # the returns are joined as well
    out = []
    states = []
    for st, v, frame in rets:
        for oid in frame:
            st.mem.pop(oid, None)
            st.own.discard(oid)
        for oid in st.own:
            if oid in st.mem:
                for n, x in st.mem[oid].cells.values():
                    if isinstance(x, Ambig) and x.tag and x.label[0] == owner:
                        raise AmbigUse(x.label)
        if isinstance(v, Ambig):
            raise AmbigUse(v.label)
        states.append((st, {'ret': v} if v is not None else {}, ()))
    for st, regs, _ in grouped(ex, states, owner, control, True):
        out.append((st, regs.get('ret')))
    return out


def phis(ex, st, f, lab, prev, regs):
    ins = f.blocks[lab]
    i = 0
    new = {}
    while ins[i][0] == 'phi':
        y = ins[i]
        for v, l in y[3]:
            if l == prev:
                try:
                    new[y[1]] = ex.ev(st, regs, v, y[2], f.mod)
                except AmbigUse as e:
                    new[y[1]] = Ambig(e.label)
        i += 1
    regs.update(new)


def cvalue(ex, st, regs, c):
    """value of a control location"""
    if c[0] == 'reg':
        v = regs.get(c[1])
    else:
        v = None
        o = st.mem.get(c[1])
        if o is not None:
            x = o.cells.get(c[2])
            v = x[1] if x is not None else None
    return v if isinstance(v, int) else repr(v)[:200] if isinstance(v, (Poly, El)) else type(v).__name__


def grouped(ex, states, owner, control, apart=False):
    if len(states) == 1:
        return states
    groups = {}
    cl = sorted(control, key=repr)
    for s in states:
        groups.setdefault(tuple(cvalue(ex, s[0], s[1], c) for c in cl), []).append(s)
    if len(groups) > 64:
        raise Unsupported('too many control states %r' % (control,))
    return [x for g in groups.values() for x in fold(ex, g, owner, apart)]


def opposite(a, b):
    """a fact of a whose negation is a fact of b"""
    bl = set(b.l)
    for c in reversed(a.l):
        try:
            if c not in bl and cneg(c) in bl:
                return c
        except Unsupported:
            pass
    return None


def fold(ex, g, owner, apart=False):
    """joins the states of g; with apart, those whose join would lose something stay separate"""
    done = []
    while len(g) > 1:
        hit = None
        for i in range(len(g)):
            for j in range(i + 1, len(g)):
                c = opposite(g[i][0].F, g[j][0].F)
                if c is not None:
                    # the two sides of one branch first: they agree on everything else
                    if len(g) == 2 or set(g[i][0].F.l) ^ set(g[j][0].F.l) == {c, cneg(c)}:
                        hit = (i, j, c)
                        break
                    hit = hit or (i, j, c)
            else:
                continue
            break
        if hit is None:
            for i in range(len(g)):
                for j in range(len(g)):
                    if i == j:
                        continue
                    gj = set(g[j][0].F.l)
                    for c in reversed(g[i][0].F.l):
                        if c not in gj and decide(g[j][0].F, c) == 0:
                            hit = (i, j, c)
                            break
                    if hit:
                        break
                if hit:
                    break
        if hit is None:
            hit = (0, 1, None)
        i, j, c = hit
        m = merge2(ex, g[i], g[j], c, owner, apart)
        if m is None:
            done.append(g[i])
            g = [x for k, x in enumerate(g) if k != i]
        else:
            g = [x for k, x in enumerate(g) if k not in (i, j)] + [m]
    return g + done


class Join:
    def __init__(self, ex, s1, s2, c, owner):
        self.ex, self.s1, self.s2, self.c, self.owner = ex, s1, s2, c, owner
        self.tt = None
        self.F = Facts()
        self.new_iv = []
        self.memo = {}

    def t(self):
        if self.tt is None:
            if self.c is None:
                return None
            self.tt = ind(NOFACTS, self.c)
        return self.tt

    def ints(self, a, b, pre=False):
        """a on path 1, b on path 2"""
        if a == b:
            return a
        k = (a, b)
        if k in self.memo:
            return self.memo[k]
        if pre:
            r = self.same(a, b)
            if r is None:
                r = self.remainder(a, b)
            if r is None:
                return None
            self.bound(r, a, b)
        else:
            r = self._ints(a, b)
        self.memo[k] = r
        return r

    def same(self, a, b):
        d = psub(a, b)
        for s, keep in ((self.s1, b), (self.s2, a)):
            x = self.ex.simp(s, d)
            if x == 0:
                return keep
        return None

    def _ints(self, a, b):
        r = self.same(a, b)
        if r is None and self.tt is None:
            r = self.remainder(a, b)
        if r is None:
            t = self.t()
            if t is None:
                return None
            r = padd(b, pmul_(t, psub(a, b)))
        self.bound(r, a, b)
        return r

    def bound(self, r, a, b):
        if isinstance(r, Poly):
            u = _union(iv(self.s1.F, a), iv(self.s2.F, b))
            self.new_iv.append((r, u))

    def remainder(self, a, b):
        """a and b congruent modulo m, both in [0, m) on their paths"""
        d = psub(a, b)
        for m in moduli(a, b, d):
            if isinstance(m, int):
                if any(c % m for c in T.terms(d).values()):
                    continue
            else:
                (mm,), = m.t
                if any(mm not in k for k in T.terms(d)):
                    continue
            if not all(self.below(st, v, m) for st, v in ((self.s1, a), (self.s2, b))):
                continue
            r = psub(a, pmul_(m, fdiv(NOFACTS, a, m)))
            # r = b + t*(a - b) and r = b - m*q2, so with a - b = s*m:  t = -q2/s
            if self.tt is None and (d == m or psub(0, d) == m):
                s = 1 if d == m else -1
                self.tt = pscale(fdiv(NOFACTS, b, m), -s)
                self.new_iv.append((self.tt, (0, 1)))
            return r
        return None

    def below(self, st, v, m):
        if not proves(st.F, ('ge', v) if isinstance(v, Poly) else int(v >= 0)):
            return False
        e = psub(psub(m, 1), v)
        return proves(st.F, ('ge', e)) if isinstance(e, Poly) else e >= 0

    def field(self, a, b):
        if a == b:
            return a
        f = a.f
        r = power_join(self, a, b)
        if r is not None:
            return r
        for s, keep in ((self.s1, b), (self.s2, a)):
            if s.F.cst:
                d = FP.sub(a, b)
                env = {i: FP.const(f, v) for i, v in s.F.cst.items()}
                if not FP.fsubst(d, env).t:
                    return keep
        t = self.t()
        if t is None:
            return None
        return FP.add(b, FP.mul(FP.from_int(f, t), FP.sub(a, b)))

    def value(self, a, b, label):
        if a is b:
            return a
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            if isinstance(a, int) and isinstance(b, int):
                if a == b:
                    return a
                if label[0] != 'W' and (max(a, b) < 256 or max(a, b) >> 52 == 0x7E5):
                    # counters, tags, pointers
                    r = Ambig((self.owner,) + label)
                    r.tag = True
                    return r
            r = self.ints(a, b)
            return Ambig((self.owner,) + label) if r is None else r
        if isinstance(a, El) and isinstance(b, El) and a.sort == b.sort:
            if a == b and not (isinstance(a.v, tuple) and a.v[0] == 'mul' and isinstance(a.v[2], int)):
                return a
            if a.sort == 'W':
                r = self.ints(a.v, b.v)
            elif isinstance(a.v, FP.FPoly) and isinstance(b.v, FP.FPoly):
                r = self.field(a.v, b.v)
            else:
                r = formal_join(self, a.v, b.v)
            return Ambig((self.owner,) + label) if r is None else El(a.sort, r)
        if isinstance(a, CmpRes) and isinstance(b, CmpRes) and a.cond == b.cond:
            return a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.value(x, y, label) for x, y in zip(a, b)]
        if a is UNDEF and b is UNDEF:
            return UNDEF
        return Ambig((self.owner,) + label)


def moduli(a, b, d):
    out = []
    for p in (a, b):
        if isinstance(p, Poly):
            for k in p.t:
                for i in k:
                    x = ATOMS[i]
                    if x.kind == 'q' and isinstance(x.data[0], Poly) and len(x.data[0].t) == 1:
                        (n, c), = x.data[0].t.items()
                        if len(n) == 1:
                            x = ATOMS[n[0]]
                    if x.kind == 'd' and x.data[1] not in out:
                        out.append(x.data[1])
    if not isinstance(d, Poly):
        if abs(d) >= 1 << 32 and abs(d) not in out:
            out.append(abs(d))
    elif len(d.t) == 1:
        (mm, c), = d.t.items()
        if len(mm) == 1 and abs(c) == 1 and ATOMS[mm[0]].kind == 'v' and Poly({mm: 1}) not in out:
            out.append(Poly({mm: 1}))
    return out


def pmul_(a, b):
    return T.pmul(a, b)


def power_parts(v, base=None):
    """(base atom id, exponent) when v is a formal power; base None for one"""
    if v.isconst():
        return (base, 0) if v.const() == (1, 0) else None
    if len(v.t) != 1:
        return None
    (m, c), = v.t.items()
    if c != (1, 0):
        return None
    bs = set()
    e = 0
    for i in m:
        a = ATOMS[i]
        if a.kind == 'p':
            bs.add(a.data[0])
            e = padd(e, a.data[1])
        elif a.kind == 'f':
            bs.add(i)
            e = padd(e, 1)
        else:
            return None
    if len(bs) != 1:
        return None
    return bs.pop(), e


POWBASE = set()         # atoms whose powers are kept formal


def power(f, base, e):
    if isinstance(e, int) and e >= 0:
        return FP.FPoly(f, {(base,) * e: (1, 0)}) if e < 64 else _patom(f, base, e)
    return _patom(f, base, e)


def _patom(f, base, e):
    return FP.fatom(f, T.new_atom('p', 'pow', None, None, (base, e), ('pow', base, e)))


def fmul(a, b):
    """product of field values, formal powers combined"""
    if POWBASE:
        x = power_parts(a)
        y = power_parts(b)
        if x and y:
            base = x[0] if x[0] is not None else y[0]
            if base in POWBASE and (y[0] is None or y[0] == base):
                return power(a.f, base, padd(x[1], y[1]))
        if any(ATOMS[i].kind == 'p' for p in (a, b) for m in p.t for i in m):
            raise Unsupported('a formal power used in another way')
    return FP.mul(a, b)


def power_join(J, a, b):
    if not POWBASE:
        return None
    x, y = power_parts(a), power_parts(b)
    if not x or not y:
        return None
    base = x[0] if x[0] is not None else y[0]
    if base not in POWBASE or (y[0] is not None and y[0] != base) :
        return None
    e = exponents(J, x[1], y[1])
    return None if e is None else power(a.f, base, e)


def exponents(J, a, b):
    """join of two exponents; the leading bits of the scalar are tried first, as they are what a loop over bits maintains"""
    if a == b and not isinstance(a, int):
        return a
    K = J.ex.scalar
    if K is not None:
        n = K[1]
        rows = {}
        for k in [n - 1, n, n + 1] + list(range(255, -1, -1)):
            if not 0 <= k < 256:
                continue
            c = quo(NOFACTS, K[0], k)
            for c in (c, psub(K[0], pscale(c, 1 << k))):
                for s, x in ((J.s1, a), (J.s2, b)):
                    d = J.ex.simp(s, psub(x, c))
                    if d != 0 and isinstance(d, Poly):
                        if s not in rows:
                            rows[s] = solved(s.F, K)
                        d = reduce(rows[s], d)
                    if d != 0:
                        break
                else:
                    K[1] = k
                    return c
    if a == b:
        return a
    r = J.ints(a, b)
    return None if isinstance(r, Poly) and len(r.t) > 6 else r


def solved(F, K=None):
    """the linear equations among the facts, in triangular form: monomial -> (its value as {monomial: coefficient})"""
    rows = {}

    def put(p):
        p = reduce(rows, p)
        if not isinstance(p, Poly):
            return
        lead = max(m for m in p.t if m)
        if len(p.t) > 12:
            return
        c = Fraction(p.t[lead])
        row = {m: -v / c for m, v in p.t.items() if m != lead}
        for m, r in rows.items():
            if lead in r:
                w = r.pop(lead)
                for x, v in row.items():
                    v = r.get(x, 0) + w * v
                    if v:
                        r[x] = v
                    else:
                        r.pop(x, None)
        rows[lead] = row
    for i, v in F.cst.items():
        put(psub(Poly({(i,): 1}), v))
    for i, (lo, hi) in F.iv.items():
        if lo is not None and lo == hi and isinstance(i, int):
            put(psub(Poly({(i,): 1}), lo))
    for f in F.l:
        if f[0] == 'eq':
            put(f[1])
        elif f[0] == 'feq' and isinstance(f[1], FP.FPoly) and not f[1].f.ext:
            v, c = single(f[1])
            if v is not None:
                put(psub(FP.cint(v), FP.cint(c)))
                put(psub(FP.raw(v), FP.raw(c)))
        elif f[0] == 'ne':
            p = reduce(rows, f[1])
            lo, hi = iv(F, p)
            w = shifted(rows, p)
            if w is not None:
                lo, hi = 0, 0
                put(psub(p, w))
            elif lo == 0:
                if hi == 1:
                    put(psub(f[1], 1))
            elif hi == 0 and lo == -1:
                put(padd(f[1], 1))
    if K is not None:
        m = reduce(rows, K[2])          # the Montgomery form of the scalar
        if isinstance(m, int):
            put(psub(K[0], m * pow(FP.MONT, -1, FP.R) % FP.R))
    return rows


def single(p):
    """(v, c) when p = 0 says that the variable v has the constant value c"""
    ms = [m for m in p.t if m]
    if len(ms) != 1 or len(ms[0]) != 1 or any(len(m) > 1 for m in p.t):
        return None, None
    k = FP.FPoly(p.f, {(): FP.cinv(p.f, p.t[ms[0]])})
    c = FP.FPoly(p.f, {(): p.t[()]}) if () in p.t else FP.const(p.f, 0)
    return FP.FPoly(p.f, {ms[0]: (1, 0)}), FP.mul(FP.neg(c), k)


def shifted(rows, p):
    """the non-zero value of p = +-(floor(a/2^k) - 2*floor(a/2^(k+1))) + c when the other value of p is 0"""
    if not isinstance(p, Poly):
        return None
    for m, c in p.t.items():
        if len(m) != 1 or abs(c) != 1:
            continue
        x = ATOMS[m[0]]
        h = quo(NOFACTS, x.data[0], x.data[1] + 1) if x.kind == 'q' else quo(NOFACTS, Poly({m: 1}), 1)
        if isinstance(h, Poly) and m in h.t:
            continue
        h = reduce(rows, h)
        v = reduce(rows, padd(psub(p, Poly({m: c})), pscale(h, 2 * c)))
        if isinstance(v, int):
            return v + c if v == 0 else v if v + c == 0 else None
    return None


def reduce(rows, p):
    """p with the solved monomials replaced; an integer, a Poly"""
    if not isinstance(p, Poly) or not any(m in rows for m in p.t):
        return p
    out = {}
    for m, c in p.t.items():
        for x, v in (rows[m].items() if m in rows else ((m, 1),)):
            v = out.get(x, 0) + c * v
            if v:
                out[x] = v
            else:
                out.pop(x, None)
    if not out:
        return 0
    d = 1
    for v in out.values():
        d = d * Fraction(v).denominator // gcd(d, Fraction(v).denominator)
    t = {m: int(v * d) for m, v in out.items()}
    return t[()] if list(t) == [()] else Poly(t)


def formal_join(J, a, b):
    """('mul', base, exponent) values of the groups"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'mul' and (a[1] == b[1] or None in (a[1], b[1])):
        e = exponents(J, a[2], b[2])
        return None if e is None else ('mul', a[1] if a[1] is not None else b[1], e)
    return None


def merge2(ex, x, y, c, owner, apart=False):
    if time.time() > ex.deadline:
        raise Unsupported('time limit')
    s1, r1, fr1 = x
    s2, r2, fr2 = y
    J = Join(ex, s1, s2, c, owner)
    regs = {}
    late = []
    F = Facts()
    # facts
    l2 = set(s2.F.l)
    F.l = [k for k in s1.F.l if k in l2]
    l1 = set(s1.F.l)
    for u, v, w in ((s1, s2, l2), (s2, s1, l1)):
        for k in u.F.l:
            if k not in w and T.int_only(k) and not (c is not None and (k == c or k == cneg(c))) and k not in ex.dropped:
                if proves(v.F, k, 300):
                    F.l.append(k)
                else:
                    ex.dropped.add(k)
    for k, i in s1.F.iv.items():
        j = s2.F.iv.get(k)
        if j is not None:
            u = _union(i, j)
            if u != (None, None):
                F.iv[k] = u
    F.cst = {k: v for k, v in s1.F.cst.items() if s2.F.cst.get(k) == v}
    st = St()
    st.F = F
    st.ghost = s1.ghost if s1.ghost == s2.ghost else {k: v for k, v in s1.ghost.items() if s2.ghost.get(k) == v}
    # memory, integers first so that a remainder fixes the indicator
    st.own = set()
    work = []
    for oid, o1 in s1.mem.items():
        o2 = s2.mem.get(oid)
        if o2 is None:
            continue
        if o1 is o2:
            st.mem[oid] = o1
            continue
        ks = set(o1.cells) | set(o2.cells)
        for k in list(ks):
            a, b = o1.cells.get(k), o2.cells.get(k)
            if a is not None and b is not None and a[0] == b[0]:
                if type(a[1]) is not type(b[1]) and (isinstance(a[1], El) or isinstance(b[1], El)) and \
                        not any(isinstance(x[1], Ambig) or x[1] is UNDEF or isinstance(x[1], El) and isinstance(x[1].v, tuple) and
                                x[1].v[0] == 'mul' for x in (a, b)):
                    align(ex, s1, s2, oid, k)
        o1, o2 = s1.mem[oid], s2.mem[oid]
        work.append((oid, o1, o2))
    jobs = []
    for oid, o1, o2 in work:
        o = Obj(o1.size, o1.name, {}, o1.fn)
        st.mem[oid] = o
        st.own.add(oid)
        done = set()
        for k, a in o1.cells.items():
            b = o2.cells.get(k)
            if b is not None and a[0] == b[0]:
                if apart and ex.scalar is not None and isinstance(a[1], El) and isinstance(a[1].v, tuple) and a[1].v[0] == 'mul':
                    jobs.append((o, oid, k, a[0], a[1], b[1]))      # a constant exponent may be the scalar on both paths
                elif a[1] is b[1] or (type(a[1]) is type(b[1]) and not isinstance(a[1], list) and a[1] == b[1]):
                    o.cells[k] = a
                else:
                    jobs.append((o, oid, k, a[0], a[1], b[1]))
            else:
                # one side undefined, or cut differently
                for j in range(a[0]):
                    done.add(k + j)
        for k, b in o2.cells.items():
            a = o1.cells.get(k)
            if a is None or a[0] != b[0]:
                for j in range(b[0]):
                    done.add(k + j)
        if done:
            recut(ex, J, s1, s2, oid, o, sorted(done), jobs)
    # two passes
    big = [j for j in jobs if isinstance(j[4], El) and j[4].sort == 'W' and isinstance(j[5], El) and j[5].sort == 'W']
    for j in big:           # a remainder fixes the indicator for the rest
        if J.tt is None and j[4].v != j[5].v:
            J.ints(j[4].v, j[5].v, True)
    for j in jobs:
        o, oid, k, n, a, b = j
        v = J.value(a, b, ('mem', oid, k))
        if apart and isinstance(v, Ambig):
            return None
        o.cells[k] = (n, v)
    for k, a in r1.items():
        if k in r2:
            b = r2[k]
            regs[k] = a if a is b or (type(a) is type(b) and isinstance(a, (int, Poly)) and a == b) else None
            if regs[k] is None:
                regs[k] = J.value(a, b, ('reg', k))
                if apart and isinstance(regs[k], Ambig):
                    return None
    for p, u in J.new_iv:
        if isinstance(p, Poly):
            if u[0] is None and u[1] is None:
                continue
            g = iv(NOFACTS, p)
            if g != u:
                T.set_piv(F, p, u)
    fr = fr1 if fr1 == fr2 else tuple(x for x in fr1 if x in fr2)
    return st, regs, fr


def align(ex, s1, s2, oid, k):
    """the same bytes stored as a whole element on one path and as something else on the other"""
    for s in (s1, s2):
        o = s.mem[oid]
        if isinstance(o.cells.get(k, (0, 0))[1], El):
            if oid not in s.own:
                o = Obj(o.size, o.name, dict(o.cells), o.fn)
                s.mem[oid] = o
                s.own.add(oid)
            ex.explode(s, o, k)


def recut(ex, J, s1, s2, oid, o, offs, jobs):
    """bytes stored in cells of different shapes on the two paths"""
    from .exec import mkptr
    # maximal runs
    runs = []
    for x in offs:
        if runs and runs[-1][1] == x:
            runs[-1][1] = x + 1
        else:
            runs.append([x, x + 1])
    for a, b in runs:
        k = a
        while k < b:
            n = 8 if k % 8 == 0 and b - k >= 8 else 1
            vs = []
            for s in (s1, s2):
                try:
                    vs.append(ex.load_n(s, mkptr(oid, k), n))
                except AmbigUse as e:
                    vs.append(Ambig(e.label))
                except Unsupported:
                    vs.append(UNDEF)
            if vs[0] is not UNDEF and vs[1] is not UNDEF:
                if isinstance(vs[0], (int, Poly)) and isinstance(vs[1], (int, Poly)):
                    if vs[0] == vs[1]:
                        o.cells[k] = (n, vs[0])
                    else:
                        jobs.append((o, oid, k, n, vs[0], vs[1]))
                else:
                    o.cells[k] = (n, Ambig((J.owner, 'mem', oid, k)))
            k += n
