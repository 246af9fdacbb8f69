"""Loops cut at invariants: unbounded loops whose number of iterations depends on the data.

A Cutter executes a function (callees through contracts or inline).  At the first arrival at a loop head the state is
havocked: only what the invariant says is kept; every later arrival is checked against the invariant and ends there.
Memory cells and registers that turn out to differ between arrivals are forgotten and the analysis starts again (they are
kept only while every arrival agrees on them)."""
import time

from . import fpoly as FP, terms as T
from .exec import Ambig, Dead, El, Ex, Obj, St, UNDEF, decide, isptr, pobj
from .irparse import parse_func
from .merge import Order, phis
from .terms import Poly, Unsupported, add_fact, ceq, cge, iv, padd, proves, pscale, psub


class Restart(Exception):
    pass


class Cutter:
    """one function invocation with its loops cut; `spec` supplies roles, invariants, lemmas and the measure"""

    def __init__(self, ex, f, spec, ghosts=None):
        self.ex, self.f, self.spec = ex, f, spec
        self.outer = ghosts or {}
        parse_func(f)
        self.order = Order(f)
        self.drop = {}          # head -> set of ('m', oid, off) / ('r', reg)

    def run(self, st0, args):
        ex = self.ex
        nobj, nf, no = ex.nobj, len(ex.fails), ex.obl
        for _ in range(200):
            try:
                return self.attempt(st0.fork(), args)
            except Restart:
                ex.nobj = nobj
                del ex.fails[nf:]
                ex.obl = no
        raise Unsupported('the loop analysis does not settle')

    def attempt(self, st, args):
        ex, f = self.ex, self.f
        base = set(st.mem)
        out = []
        self.heads = {}
        self.where = tuple(ex.stack)
        pend = [(st, f.entry, None, ex.entry(f, args), (), dict(self.outer))]
        F0 = st.F.copy()
        steps = 0
        while pend:
            s, lab, prev, regs, frame, ghosts = pend.pop()
            steps += 1
            if steps > 4000 or time.time() > ex.deadline:
                raise Unsupported('loop analysis limit')
            hs = self.order.heads[lab]
            if hs and hs[-1] == lab and self.order.pos[lab] == self.order.pos[hs[-1]]:
                phis(ex, s, f, lab, prev, regs)
                x = self.arrive(s, lab, regs, frame, ghosts, F0, base, hs)
                if x is None:
                    continue
                s, regs, frame, ghosts = x
                prev = None
            spec_, ex.cut = ex.cut, (self.spec, ghosts) if self.spec else ex.cut
            try:
                succ, rets = ex.block(s, f, lab, prev, regs, frame)
            finally:
                ex.cut = spec_
            for s2, v, fr in rets:
                for oid in fr:
                    s2.mem.pop(oid, None)
                    s2.own.discard(oid)
                out.append((s2, v))
            for s2, l2, p2, r2, fr2, sp in succ:
                pend.append((s2, l2, p2, r2, fr2, ghosts))
        return out

    def key(self, head):
        return (self.where, head)

    def arrive(self, s, head, regs, frame, ghosts, F0, base, hs):
        ex, spec = self.ex, self.spec
        drop = self.drop.setdefault(head, set())
        vals = spec.values(self, s, head)
        h = self.heads.get(head)
        # the cells and registers that are not roles
        cells = {}
        for oid, o in s.mem.items():
            for off, (n, v) in o.cells.items():
                if not spec.isrole(oid, off):
                    cells[('m', oid, off)] = (n, v)
        if h is None:
            spec.check(self, s, head, vals, ghosts, None, hs)
            st = St()
            st.F = F0.copy()
            st.ghost = dict(s.ghost)
            st.mem = {}
            st.own = set()
            for oid, o in s.mem.items():
                st.mem[oid] = Obj(o.size, o.name, {}, o.fn)
                st.own.add(oid)
            for k, (n, v) in cells.items():
                if k not in drop:
                    st.mem[k[1]].cells[k[2]] = (n, v)
            r2 = {}
            for k, v in regs.items():
                if ('r', k) not in drop:
                    r2[k] = v
            g2 = spec.havoc(self, st, head, {k: v for k, v in ghosts.items() if k in {self.key(x) for x in hs[:-1]} | set(self.outer)})
            self.heads[head] = dict(cells={k: v for k, v in cells.items() if k not in drop}, regs=dict(r2), ghost=g2, base=base)
            g = dict(ghosts)
            keep = {self.key(x) for x in hs} | set(self.outer)
            g = {k: v for k, v in g.items() if k in keep}
            g[self.key(head)] = g2
            return st, r2, frame, g
        change = False
        for k, v in h['cells'].items():
            if cells.get(k) is None or not same(cells[k], v):
                if k[1] in base and self.unchanged(s, k, v):
                    continue
                if k[1] in base:
                    raise Unsupported('a loop writes to memory that is not local')
                drop.add(k)
                change = True
        for oid in base:
            o = s.mem.get(oid)
            if o is not None:
                for off in o.cells:
                    k = ('m', oid, off)
                    if not spec.isrole(oid, off) and k not in h['cells'] and k not in drop and not \
                            any(a[1] == oid and a[2] <= off < a[2] + n for a, (n, _) in h['cells'].items()):
                        raise Unsupported('a loop writes to memory that is not local')
        for k, v in h['regs'].items():
            if k not in regs or not same(regs[k], v):
                drop.add(('r', k))
                change = True
        if change:
            raise Restart()
        spec.check(self, s, head, vals, ghosts, h['ghost'] if self.key(head) in ghosts else None, hs)
        return None


    def unchanged(self, s, k, v):
        """the same value stored in another shape"""
        from .exec import mkptr
        from .unit import total
        n, x = v
        if not isinstance(x, El) or n % 8:
            return False
        want = x.v if x.sort == 'W' else FP.raw(x.v) if x.sort in ('Fr', 'Fq') else None
        return want is not None and psub(total(self.ex, s, mkptr(k[1], k[2]), n // 8), want) == 0


class Inversion:
    """binary extended Euclid on (u, v) with cofactors (b, c) modulo the prime p"""

    def __init__(self, unit, ex, p, f, A, roles, houdini):
        self.u, self.ex, self.p, self.f, self.A, self.houdini = unit, ex, p, f, A, houdini
        self.roles = roles              # [(oid, off)] for u, v, b, c, known at the first loop head
        self.choice = None
        self.fA = FP.from_int(f, A)

    def isrole(self, oid, off):
        return any(o == oid and r <= off < r + 32 for o, r in self.roles or ())

    def locate(self, cut, s, base):
        """where the four numbers live: told apart by their initial values"""
        from .exec import mkptr
        from .unit import total
        want = [self.A, self.p, 1, 0]
        found = [[], [], [], []]
        for oid, o in s.mem.items():
            if o.size is None or o.size > 4096:
                continue
            for off in range(0, o.size - 31, 8):
                if off not in o.cells:
                    continue
                try:
                    t = total(self.ex, s.fork(), mkptr(oid, off))
                except Exception:
                    continue
                for k, w in enumerate(want):
                    if psub(t, w) == 0:
                        found[k].append((oid in base, (oid, off)))
        self.found = [[x for _, x in sorted(l)] for l in found]

    def values(self, cut, s, head):
        from .exec import mkptr
        from .unit import total
        if self.roles is None:
            self.locate(cut, s, self.base)
            raise Locate(self.found)
        return [self.ex.simp(s, total(self.ex, s, mkptr(o, r))) for o, r in self.roles]

    def cands(self, v):
        u, w = v[0], v[1]
        return {'u>=1': cge(T.NOFACTS, psub(u, 1)), 'v>=1': cge(T.NOFACTS, psub(w, 1))}

    def check(self, cut, s, head, v, ghosts, g0, hs):
        U, ex, p = self.u, self.ex, self.p
        post = lambda c, what: U.post(ex, s, c, what)
        for k, (nm, hi) in enumerate((('u', p), ('v', p), ('b', p - 1), ('c', p - 1))):
            post(cge(s.F, v[k]), 'loop invariant: %s is not negative' % nm)
            post(cge(s.F, psub(hi, v[k])), 'loop invariant: %s is bounded' % nm)
        for x, y, what in ((v[2], v[0], 'b*a = u'), (v[3], v[1], 'c*a = v')):
            field_post(U, ex, s, self.f, FP.sub(FP.mul(FP.from_int(self.f, x), self.fA), FP.from_int(self.f, y)),
                       'loop invariant: %s modulo the prime' % what)
        self.bezout(s, v)
        hk = self.houdini.setdefault(cut.key(head), set())
        for k, c in self.cands(v).items():
            if k not in hk and not (decide(s.F, c) == 1 if isinstance(c, tuple) else c):
                hk.add(k)
                raise Restart()
        m = padd(v[0], v[1])
        keep = {cut.key(x) for x in hs} | set(cut.outer)
        for k, g in ghosts.items():
            if k in keep:
                post(cge(s.F, psub(g if k != cut.key(head) else psub(g, 1), m)),
                     'loop measure decreases' if k == cut.key(head) else 'loop measure does not grow')

    def bezout(self, s, v):
        """gcd(u, v) = 1: the previous pair is an integer combination of this one"""
        x = s.ghost.get('bez')
        for t in x:
            for a in (1, 0, 2, -1, 4, -2):
                for b in (0, 1, 2, -1, 4, -2):
                    d = psub(t, padd(pscale(v[0], a), pscale(v[1], b)))
                    if decide(s.F, ceq(s.F, self.ex.simp(s, d))) == 1:
                        break
                else:
                    continue
                break
            else:
                return self.u.post(self.ex, s, 0, 'loop invariant: gcd(u, v) = 1')
        return self.u.post(self.ex, s, 1, 'loop invariant: gcd(u, v) = 1')

    def havoc(self, cut, st, head, ghosts):
        from .exec import mkptr
        from .unit import put_total
        p = self.p
        v = [T.var(nm, 0, hi) for nm, hi in (('u', p), ('v', p), ('b', p - 1), ('c', p - 1))]
        for (o, r), x in zip(self.roles, v):
            put_total(self.ex, st, mkptr(o, r), x)
        F = st.F
        for x, y in ((v[2], v[0]), (v[3], v[1])):
            add_fact(F, ('feq', FP.sub(FP.mul(FP.from_int(self.f, x), self.fA), FP.from_int(self.f, y))))
        hk = self.houdini.setdefault(cut.key(head), set())
        for k, c in self.cands(v).items():
            if k not in hk:
                add_fact(F, c)
        # consequences of s*u + t*v = 1
        N = T.NOFACTS
        for c in (T.cor(cge(N, psub(v[0], 1)), ceq(N, psub(v[1], 1))), T.cor(cge(N, psub(v[1], 1)), ceq(N, psub(v[0], 1))),
                  T.cor(T.cneg(ceq(N, psub(v[0], v[1]))), ceq(N, psub(v[0], 1)))):
            add_fact(F, c)
        st.ghost['bez'] = (v[0], v[1])
        m = padd(v[0], v[1])
        for g in ghosts.values():
            add_fact(F, cge(F, psub(g, m)))
        return m


class Locate(Exception):
    pass


def field_post(u, ex, st, f, d, what):
    """d = 0 in the field, from the field facts and the integer equations of the path"""
    import os
    r = field_zero(st, f, d)
    if not r and os.environ.get('VP_DBG'):
        print('FIELD', what, d)
        for c in st.F.l: print('    ', c)
        print(st.F.cst)
    return u.post(ex, st, r, what)


def field_zero(st, f, d):
    from .exec import feqs
    if not d.t:
        return 1
    eqs = list(feqs(st.F, f))
    for c in st.F.l:
        if c[0] == 'eq':
            e = FP.from_int(f, c[1])
            if e.t:
                eqs.append(e)
        elif c[0] in ('ne', 'ge'):
            i = iv(st.F, c[1])
            if i[0] is not None and i[0] == i[1]:
                eqs.append(FP.from_int(f, psub(c[1], i[0])))
    for i, x in st.F.cst.items():
        eqs.append(FP.sub(FP.fatom(f, T.ATOMS[i]), FP.const(f, x)))
    for i in FP.fatoms(d):
        a = T.ATOMS[i]
        if a.kind == 'q' and a.data[1] == 1:
            low = psub(a.data[0], pscale(T.avar(a), 2))
            for x in (0, 1):
                c = ceq(st.F, psub(low, x))
                if (decide(st.F, c) if isinstance(c, tuple) else c) == 1:
                    eqs.append(FP.from_int(f, psub(low, x)))
    h, rest = FP.linear_elim(d, eqs)
    if h.t and rest:
        h = FP.reduce(h, rest)
    return int(not h.t)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, Poly, El)):
        return a == b
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def nested(ex, st, f, args):
    """a callee with a loop that works on the numbers of the invariant"""
    spec, ghosts = ex.cut
    if spec.roles is None or not any(isptr(a) and (pobj(a), 0) and any(o == pobj(a) for o, _ in spec.roles) for a in args):
        return None
    c = Cutter(ex, f, spec, ghosts)
    if not any(c.order.heads[l] for l in c.order.heads):
        return None
    return c.run(st, args)


def verify_inversion(u, ex, f, p, fld):
    """U256::invert: 0 < a < p, p prime"""
    from itertools import product
    from .unit import new_words, total
    st = St()
    A, pa = new_words(ex, st, 'a', p - 1, 4, 1)
    u.inputs = [(A, 'a')]
    P = ex.new_obj(st, 32, 'modulus')
    from .unit import put_total
    put_total(ex, st, P, p)
    add_fact(st.F, ('fne', FP.from_int(fld, A)))
    st.ghost['bez'] = (A, p)

    nobj = ex.nobj

    def attempt(roles):
        ex.nobj = nobj
        spec = Inversion(u, ex, p, fld, A, roles, {})
        spec.base = set(st.mem)
        return Cutter(ex, f, spec).run(st.fork(), [pa, P])
    def find(F, c):
        return loop_witness(u, p, F, c)
    u.find = find
    try:
        attempt(None)
        raise Unsupported('no loop')
    except Locate as e:
        found = e.args[0]
    if not all(found):
        raise Unsupported('the numbers of the algorithm were not found')
    first = None
    for n, roles in enumerate(product(*found)):
        if len(set(roles)) < 4 or n > 24:
            continue
        cnt, nf = u.count, len(u.fails)
        try:
            res = attempt(list(roles))
            for s, r in res:
                u.paths += 1
                t = ex.simp(s, total(ex, s, pa))
                u.post(ex, s, cge(s.F, t), 'inverse not negative')
                u.post(ex, s, cge(s.F, psub(p - 1, t)), 'inverse below the modulus')
                field_post(u, ex, s, fld, FP.sub(FP.mul(FP.from_int(fld, t), FP.from_int(fld, A)), FP.const(fld, 1)),
                           'inverse times input is one modulo the prime')
                u.eq(ex, s, total(ex, s, P), p, 'modulus unchanged')
            bad = u.fails[nf:]
        except Unsupported as e:
            bad = e
        if not bad and not ex.fails:
            return
        if first is None or (isinstance(first[0], Unsupported) and not isinstance(bad, Unsupported)):
            first = (bad, list(ex.fails))
        del u.fails[nf:]
        del ex.fails[:]
    bad, fl = first
    if isinstance(bad, Unsupported):
        raise bad
    u.fails += bad
    ex.fails += fl


def loop_witness(u, p, F, c):
    """inputs likely to reach a failing loop state: the state before the first iteration has u = a, v = p, b = 1, c = 0"""
    from . import witness
    import random
    ids = {}
    for x in list(F.l) + [c]:
        stack = [x]
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                stack += [z for z in y[1:]]
            elif isinstance(y, Poly):
                for i in T.atoms_of(y):
                    a = T.ATOMS[i]
                    while a.kind in 'qn':
                        b = a.data[0] if a.kind == 'q' else a.data
                        l = [j for j in T.atoms_of(b)]
                        for j in l[1:]:
                            stack.append(T.avar(T.ATOMS[j]))
                        if not l:
                            break
                        a = T.ATOMS[l[0]]
                    if a.kind == 'v' and a.name in 'uvbc' and i >= 0:
                        ids.setdefault(a.name, set()).add(a.id)
    last = {k: max(v) for k, v in ids.items()}
    if 'u' not in last:
        return []
    start = {'v': p, 'b': 1, 'c': 0}
    rnd = random.Random(3)
    cand = []

    def model(fix):
        e = witness.z3_models(F, c, list(last.values()), {last[k]: x for k, x in fix.items() if k in last}, 3000)
        if e is not None:
            cand.append(e[last['u']])
    model(start)
    for _ in range(6):
        model(dict(start, u=rnd.randrange(1, p)))
    for k in range(4):
        model({'v': p})
        model({})
    out = []
    for x in cand:
        for y in (x, 2 * x, p - x, 4 * x, x * pow(2, -1, p) % p, pow(x, -1, p) if x % p else 0):
            if 0 < y < p:
                k = u.case({'a': y}) if u.case else None
                if k is not None:
                    out.append(k)
    return out[:60]
