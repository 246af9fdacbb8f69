"""Symbolic execution of LLVM IR functions over the term algebra: the verification condition generator.

Every function reached from a verified function is either replaced by its contract or executed in turn; loops with
concrete bounds are executed to their end; the only cut loops are those with an invariant (loops.py)."""
import time
from . import irparse as ir
from .irparse import t_size, field_off, parse_func
from . import terms as T
from .terms import (_reg as T_reg, Poly, ATOMS, padd, psub, pscale, pmul, iv, quo, lowpart, limbs, bit, name, avar, new_atom, set_giv, set_piv,
                    NOFACTS, Facts, cneg, cand, cor, cge, ceq, ind, add_fact, check, proves, Unsupported, norm, iadd, iscale, imul, _mn)
from . import fpoly as FP

TAG = 0x7E5 << 52
OFFB = 24

def mkptr(oid, off=0):
    return TAG | (oid << OFFB) | off

def isptr(v):
    return type(v) is int and (v >> 52) == 0x7E5

def pobj(v):
    return (v >> OFFB) & ((1 << 28) - 1)

def poff(v):
    return v & ((1 << OFFB) - 1)

class _Undef:
    def __repr__(self):
        return 'UNDEF'
UNDEF = _Undef()

class Ambig:
    """a cell on which merged paths disagree; using it is an error that makes the merge more careful"""
    __slots__ = ('label', 'tag')
    def __init__(self, label):
        self.label = label
        self.tag = False

class AmbigUse(Exception):
    def __init__(self, label):
        self.label = label

class CmpRes:
    """result of memcmp/bcmp: zero iff cond"""
    __slots__ = ('cond',)
    def __init__(self, cond):
        self.cond = cond

class El:
    """a whole field element, tower element or group element stored in one cell"""
    __slots__ = ('sort', 'v')
    def __init__(self, sort, v):
        self.sort = sort
        self.v = v
    def __eq__(self, o):
        return isinstance(o, El) and self.sort == o.sort and self.v == o.v
    def __hash__(self):
        return hash((self.sort, self.v))
    def __repr__(self):
        return 'El(%s,%r)' % (self.sort, self.v)

SIZES = {'Fr': 32, 'Fq': 32, 'Fq2': 64, 'Fq6': 192, 'Fq12': 384, 'G1': 96, 'G2': 192}

class Split(Exception):
    def __init__(self, p):
        self.p = p

class SplitCond(Exception):
    def __init__(self, c):
        self.c = c

class PathLimit(Exception):
    pass

class Dead(Exception):
    """the path is infeasible or has ended in a recorded failure"""

class Failure:
    def __init__(self, kind, msg, F, where, hint=None):
        self.kind = kind
        self.msg = msg
        self.F = F
        self.where = where
        self.hint = hint
    def __repr__(self):
        return 'Failure(%s: %s at %s)' % (self.kind, self.msg, self.where)

class Obj:
    __slots__ = ('size', 'cells', 'name', 'fn')
    def __init__(self, size, name, cells=None, fn=None):
        self.size = size
        self.cells = cells if cells is not None else {}
        self.name = name
        self.fn = fn

class St:
    __slots__ = ('mem', 'own', 'F', 'ghost')
    def __init__(self):
        self.mem = {}
        self.own = set()
        self.F = Facts()
        self.ghost = {}
    def fork(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.F = self.F.copy()
        s.ghost = dict(self.ghost)
        return s

def reg(F, p, ivf, ivg):
    """record the interval computed for p from its operands"""
    if isinstance(p, Poly):
        if ivg[0] is not None or ivg[1] is not None:
            g = iv(NOFACTS, p)
            if (ivg[0] is not None and (g[0] is None or ivg[0] > g[0])) or (ivg[1] is not None and (g[1] is None or ivg[1] < g[1])):
                set_giv(p, ivg)
        if F.iv:
            c = iv(F, p)
            if (ivf[0] is not None and (c[0] is None or ivf[0] > c[0])) or (ivf[1] is not None and (c[1] is None or ivf[1] < c[1])):
                set_piv(F, p, ivf)
    return p

def everywhere(F, r):
    """r, when a value computed here has that range in every state: not when facts of this path shaped it"""
    return (None, None) if F.iv else r

def wordname(F, p):
    if not isinstance(p, Poly) or len(p.t) == 1:
        return p
    g = iv(NOFACTS, p)
    a = name(p, 'w', g[0], g[1])
    if F.iv:
        f = iv(F, p)
        if f != g:
            set_piv(F, a, f)
    return a

class Ex:
    def __init__(self, prog, contracts=None, deadline=None, trace=False):
        self.prog = prog
        self.contracts = contracts or {}
        self.carries = {}
        self.cuts = {}
        self.deadline = deadline or time.time() + 600
        self.nobj = 16
        self.ngobj = 1 << 24     # globals are numbered apart: nobj is set back when a run starts again
        self.gobj = {}          # oid -> Obj
        self.gmut = set()       # statics that can change while the program runs
        self.gkey = {}
        self.fails = []
        self.obl = 0            # obligations met
        self.stack = []
        self.used = {}          # contracts applied
        self.inlined = {}
        self.cut = None
        self.mergefns = set()
        self.control = {}
        self.steps = 0
        self.trace = trace
        self.forklimit = 24
        self.assumed = set()
        self.heapn = {}
        self.pcache = {}
        self.orders = {}
        self.quick = False
        self.scalar = None      # [integer, bit position] of the exponent of a formal power
        self.dropped = set()    # facts that did not survive a join
        self.opaque = set()     # objects standing for a position: how they compare is not known
        self.symgep = {}        # pointer -> (symbolic offset, resulting pointer)

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, size, name):
        self.nobj += 1
        oid = self.nobj
        st.mem[oid] = Obj(size, name)
        st.own.add(oid)
        return mkptr(oid)

    def obj(self, st, p):
        if isinstance(p, Ambig):
            raise AmbigUse(p.label)
        if not isptr(p):
            if isinstance(p, Poly):
                v = self.concrete(st, p)
                return self.obj(st, v)
            raise Unsupported('not a pointer: %r' % (p,))
        oid = pobj(p)
        o = st.mem.get(oid)
        if o is None:
            o = self.gobj.get(oid)
            if o is None:
                raise Unsupported('dangling pointer')
            if oid in self.gmut:
                raise Unsupported('mutable static ' + o.name)    # what it holds depends on the calls made before
        return o

    def wobj(self, st, p):
        o = self.obj(st, p)
        oid = pobj(p)
        if oid not in st.own:
            o = Obj(o.size, o.name, dict(o.cells), o.fn)
            st.mem[oid] = o
            st.own.add(oid)
        return o

    def bounds(self, st, o, off, nb, what):
        if off < 0 or off + nb > o.size:
            raise Unsupported('out of bounds %s of %d bytes at %d in %s (size %d)' % (what, nb, off, o.name, o.size))

    def explode(self, st, o, off):
        nb, e = o.cells[off]
        del o.cells[off]
        for d, n, v in explode_el(st.F, e, nb):
            o.cells[off + d] = (n, v)

    def overlapping(self, o, off, nb):
        c = o.cells
        r = []
        if len(c) > 2 * (nb + 8):
            for k in range(off, off + nb):
                if k in c:
                    r.append(k)
            for k in range(max(0, off - 384), off):
                x = c.get(k)
                if x is not None and k + x[0] > off:
                    r.append(k)
        else:
            for k, x in c.items():
                if k < off + nb and k + x[0] > off:
                    r.append(k)
        r.sort()
        return r

    def load_n(self, st, p, nb):
        o = self.obj(st, p)
        off = poff(p)
        self.bounds(st, o, off, nb, 'load')
        x = o.cells.get(off)
        if x is not None and x[0] == nb and not isinstance(x[1], El):
            return self.simp(st, x[1])
        while True:
            ks = self.overlapping(o, off, nb)
            e = [k for k in ks if isinstance(o.cells[k][1], El)]
            if not e:
                break
            o = self.wobj(st, p)
            for k in e:
                self.explode(st, o, k)
        if not ks:
            return UNDEF
        if len(ks) == 1:
            k = ks[0]
            n, v = o.cells[k]
            if k <= off and k + n >= off + nb:
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, Ambig):
                    raise AmbigUse(v.label)
                if isinstance(v, (CmpRes, list)):
                    raise Unsupported('part of a special value')
                if k == off and n == nb:
                    return self.simp(st, v)
                return self.extract(st, v, 8 * (off - k), 8 * nb, 8 * n)
        r = 0
        pos = off
        lo = hi = 0
        glo = ghi = 0
        for k in ks:
            n, v = o.cells[k]
            if k < off or k + n > off + nb:
                a = max(k, off)
                b = min(k + n, off + nb)
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, Ambig):
                    raise AmbigUse(v.label)
                v = self.extract(st, v, 8 * (a - k), 8 * (b - a), 8 * n)
                k, n = a, b - a
            if k != pos or v is UNDEF:
                return UNDEF
            if isinstance(v, Ambig):
                raise AmbigUse(v.label)
            if isinstance(v, (CmpRes, list)):
                raise Unsupported('part of a special value')
            s = 8 * (k - off)
            i = iv(st.F, v)
            g = iv(NOFACTS, v)
            r = padd(r, pscale(v, 1 << s))
            lo, hi = (lo + (i[0] << s)), (hi + (i[1] << s))
            glo, ghi = (glo + (g[0] << s)) if g[0] is not None else 0, (ghi + (g[1] << s)) if g[1] is not None and ghi is not None else None
            pos = k + n
        if pos != off + nb:
            return UNDEF
        if len(ks) == nb > 1 and all(o.cells[k][0] == 1 for k in ks):
            T.from_bytes([o.cells[k][1] for k in ks])
        return reg(st.F, r, (lo, hi), (glo, ghi))

    def extract(self, st, v, sh, w, total):
        if sh + w >= total:
            r = quo(st.F, v, sh)
            i = iv(st.F, v)
            g = iv(NOFACTS, v)
            return reg(st.F, r, _shr(i, sh), _shr(g, sh))
        return lowpart(st.F, quo(st.F, v, sh), w)

    def store_n(self, st, p, nb, v):
        o = self.wobj(st, p)
        off = poff(p)
        self.bounds(st, o, off, nb, 'store')
        x = o.cells.get(off)
        if x is None or x[0] != nb:
            self.clear(st, o, off, nb)
        o.cells[off] = (nb, v)

    def clear(self, st, o, off, nb):
        """remove the cells inside [off, off+nb), splitting those that straddle"""
        while True:
            again = False
            for k in self.overlapping(o, off, nb):
                n, v = o.cells[k]
                if k >= off and k + n <= off + nb:
                    del o.cells[k]
                elif isinstance(v, El):
                    self.explode(st, o, k)
                    again = True
                    break
                else:
                    del o.cells[k]
                    if v is UNDEF or isinstance(v, Ambig):
                        for j in range(n):
                            if not off <= k + j < off + nb:
                                o.cells[k + j] = (1, v)
                    else:
                        if isinstance(v, (CmpRes, list)):
                            raise Unsupported('part of a special value')
                        bs = limbs(st.F, v, n, 8)
                        for j in range(n):
                            if not off <= k + j < off + nb:
                                o.cells[k + j] = (1, bs[j])
            if not again:
                return

    def copy(self, st, dst, src, n):
        if n == 0:
            return
        so = self.obj(st, src)
        a = poff(src)
        self.bounds(st, so, a, n, 'copy from')
        # split straddling source cells
        ks = self.overlapping(so, a, n)
        bad = [k for k in ks if k < a or k + so.cells[k][0] > a + n]
        while bad:
            so = self.wobj(st, src)
            for k in bad:
                m, v = so.cells[k]
                if isinstance(v, El):
                    self.explode(st, so, k)
                else:
                    del so.cells[k]
                    if v is UNDEF or isinstance(v, Ambig):
                        for j in range(m):
                            so.cells[k + j] = (1, v)
                    else:
                        for j, x in enumerate(limbs(st.F, v, m, 8)):
                            so.cells[k + j] = (1, x)
            ks = self.overlapping(so, a, n)
            bad = [k for k in ks if k < a or k + so.cells[k][0] > a + n]
        items = [(k - a, so.cells[k]) for k in ks]
        do = self.wobj(st, dst)
        b = poff(dst)
        self.bounds(st, do, b, n, 'copy to')
        self.clear(st, do, b, n)
        for k, x in items:
            do.cells[b + k] = x

    def load_t(self, st, p, t, mod):
        if t[0] in ('i', 'ptr'):
            v = self.load_n(st, p, t_size(t, mod))
            if t[0] == 'i' and t[1] % 8 and isinstance(v, (int, Poly)):
                v = lowpart(st.F, v, t[1])
            return v
        if t[0] == 'named':
            return self.load_t(st, p, mod.types[t[1]], mod)
        n = len(t[1]) if t[0] == 'st' else t[1]
        out = []
        for k in range(n):
            off, et = field_off(t, k, mod)
            out.append(self.load_t(st, p + off, et, mod))
        return out

    def store_t(self, st, p, t, v, mod):
        if t[0] in ('i', 'ptr'):
            self.store_n(st, p, t_size(t, mod), v)
            return
        if t[0] == 'named':
            return self.store_t(st, p, mod.types[t[1]], v, mod)
        n = len(t[1]) if t[0] == 'st' else t[1]
        for k in range(n):
            off, et = field_off(t, k, mod)
            self.store_t(st, p + off, et, UNDEF if v is UNDEF else v[k], mod)

    def gptr(self, mod, nm):
        k = (mod.path, nm)
        if k in self.gkey:
            return self.gkey[k]
        f = self.prog.resolve(mod, nm)
        if nm not in mod.globals:
            key = ('fn', f.name if f is not None else nm)
            if key in self.gkey:
                p = self.gkey[key]
            else:
                self.ngobj += 1
                p = mkptr(self.ngobj)
                self.gobj[self.ngobj] = Obj(0, nm, {}, (f, nm))
                self.gkey[key] = p
            self.gkey[k] = p
            return p
        if 'external' in mod.globals[nm].split()[:4]:
            for m in self.prog.mods:
                if m is not mod and nm in m.globals and 'external' not in m.globals[nm].split()[:4]:
                    p = self.gptr(m, nm)
                    self.gkey[k] = p
                    return p
            raise Unsupported('external global ' + nm)
        self.ngobj += 1
        p = mkptr(self.ngobj)
        self.gkey[k] = p
        txt = mod.globals[nm]
        c = ir.Cur(txt)
        while True:
            w = c.peekword()
            if w in ('constant', 'global'):
                if w == 'global':
                    self.gmut.add(self.ngobj)
                c.word()
                break
            if w is None:
                raise Unsupported('global ' + txt[:60])
            if w in ('thread_local',):
                raise Unsupported('thread local')
            c.word()
            if c.peek('('):
                ir.skip_parens(c)
        t = ir.parse_type(c)
        v = ir.parse_value(c, t)
        o = Obj(t_size(t, mod), nm)
        self.gobj[self.ngobj] = o
        self.ginit(o, 0, t, v, mod)
        return p

    def ginit(self, o, off, t, v, mod):
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif v[0] == 'z':
            for i in range(t_size(t, mod)):
                o.cells[off + i] = (1, 0)
        elif v[0] == 'u':
            pass
        elif v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                d, _ = field_off(t, i, mod)
                self.ginit(o, off + d, et, ev, mod)
        else:
            o.cells[off] = (t_size(t, mod), self.ev(None, None, v, t, mod))

    # ---------------------------------------------------------------- values
    def simp(self, st, v):
        c = st.F.cst
        if c and isinstance(v, Poly):
            return T.subst_const(v, c)
        return v

    def ev(self, st, regs, v, t, mod):
        k = v[0]
        if k == 'r':
            x = regs[v[1]]
            if isinstance(x, Ambig):
                raise AmbigUse(x.label)
            return x
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.gptr(mod, v[1])
        if k == 'u':
            return UNDEF
        if k == 'z':
            if t[0] in ('i', 'ptr'):
                return 0
            if t[0] == 'named':
                return self.ev(st, regs, v, mod.types[t[1]], mod)
            n = len(t[1]) if t[0] == 'st' else t[1]
            return [self.ev(st, regs, v, t[1][i] if t[0] == 'st' else t[2], mod) for i in range(n)]
        if k == 'agg':
            return [self.ev(st, regs, x, et, mod) for et, x in v[1]]
        if k == 'cgep':
            return self.gep(st, regs, v[1], v[2], mod)
        if k == 'ccast':
            return self.ev(st, regs, v[3], v[2], mod)
        if k == 'cbin':
            a = self.ev(st, regs, v[3], v[2], mod)
            b = self.ev(st, regs, v[4], v[2], mod)
            w = v[2][1]
            r = a + b if v[1] == 'add' else a - b if v[1] == 'sub' else a * b
            return r & ((1 << w) - 1)
        raise Unsupported('operand %r' % (v,))

    def concrete(self, st, p, limit=600):
        """a concrete value for p, splitting the path when it has several"""
        if isinstance(p, int):
            return p
        if p is UNDEF:
            raise Unsupported('undefined value used')
        if isinstance(p, Ambig):
            raise AmbigUse(p.label)
        p = self.simp(st, p)
        lo, hi = iv(st.F, p)
        if lo is not None and lo == hi:
            return lo
        if lo is None or hi is None or hi - lo > limit:
            raise Unsupported('symbolic address or length %r in %r' % (p, (lo, hi)))
        raise Split(p)

    def gep(self, st, regs, t, ops, mod):
        p = self.ev(st, regs, ops[0][1], ops[0][0], mod)
        if p is UNDEF:
            return UNDEF
        off = 0
        for n, (ot, o) in enumerate(ops[1:]):
            i = self.ev(st, regs, o, ot, mod)
            if n == 0:
                sz = t_size(t, mod)
                if not isinstance(i, int):
                    if sz == 0:
                        continue
                    e = self.symgep.get(p) if sz == 1 and isptr(p) and not isinstance(i, Ambig) and len(ops) == 2 else None
                    if e is not None and psub(i, e[0]) == 0:
                        return e[1]
                    i = self.concrete(st, i)
                if ot[0] == 'i' and i >> (ot[1] - 1):
                    i -= 1 << ot[1]
                off += i * sz
            else:
                i = self.concrete(st, i)
                d, t = field_off(t, i, mod)
                off += d
        if isinstance(p, Poly):
            return op_add(st.F, p, off & ((1 << 64) - 1), 64)
        return (p + off) & ((1 << 64) - 1)

    def truth(self, st, v):
        if v is UNDEF:
            raise Unsupported('branch on undefined value')
        if isinstance(v, int):
            return v & 1
        if isinstance(v, Ambig):
            raise AmbigUse(v.label)
        return to_cond(st.F, v)

    def decide(self, st, c):
        return decide(st.F, c)

    # ---------------------------------------------------------------- failures
    def fail(self, st, kind, msg, hint=None):
        self.fails.append(Failure(kind, msg, st.F.copy(), ' < '.join(reversed(self.stack[-4:])), hint))

    def require(self, st, c, kind, msg):
        """an obligation; the path goes on as if it held"""
        self.obl += 1
        r = decide(st.F, c)
        if r == 1:
            return True
        self.fail(st, kind, msg, cneg(c) if isinstance(c, tuple) else None)
        raise Dead()

    # ---------------------------------------------------------------- functions
    def call(self, st, f, nm, args, mod):
        """-> list of (state, value)"""
        pretty = f.pretty if f is not None else self.prog.demangle(nm)
        if f is None or pretty.startswith(PANICS):
            r = self.builtin(st, nm, pretty, args)
            if r is not NotImplemented:
                return r
        c = self.contracts.get(pretty)
        if c is not None and not (self.stack and False):
            r = c(self, st, args, f)
            if r is not NotImplemented:
                self.used[pretty] = self.used.get(pretty, 0) + 1
                return r
        if f is None:
            raise Unsupported('no body for ' + pretty)
        self.inlined[pretty] = self.inlined.get(pretty, 0) + 1
        return self.function(st, f, args)

    def function(self, st, f, args):
        parse_func(f)
        if len(self.stack) > 120:
            raise Unsupported('call depth')
        self.stack.append(f.pretty)
        try:
            cut = self.cuts.get(f.pretty)
            if cut is not None:
                r = cut(self, st, f, args)
                if r is not NotImplemented:
                    return r
            if self.cut is not None:
                from .loops import nested
                r = nested(self, st, f, args)
                if r is not None:
                    return r
            if f.name in self.mergefns:
                return self.merged(st, f, args)
            save = st.fork()
            nf = len(self.fails)
            no = self.obl
            try:
                return self.run_paths(st, f, args)
            except PathLimit:
                pass
            del self.fails[nf:]
            self.obl = no
            self.mergefns.add(f.name)
            return self.merged(save, f, args)
        finally:
            self.stack.pop()

    def merged(self, st, f, args):
        from . import merge
        return merge.run(self, st, f, args)

    def entry(self, f, args):
        regs = {}
        for (t, nm, sret), a in zip(f.params, args):
            if nm is not None:
                regs[nm] = a
        return regs

    def run_paths(self, st, f, args):
        out = []
        work = [(st, f.entry, None, self.entry(f, args), (), 0)]
        total = 0
        while work:
            s, lab, prev, regs, frame, nf = work.pop()
            if nf > self.forklimit:
                raise PathLimit()
            succ, rets = self.block(s, f, lab, prev, regs, frame)
            for s2, v, fr in rets:
                for oid in fr:
                    s2.mem.pop(oid, None)
                    s2.own.discard(oid)
                out.append((s2, v))
            total += 1
            if len(out) + len(work) > 3000:
                raise PathLimit()
            d = 1 if len(succ) > 1 else 0
            for s2, l2, p2, r2, fr2, sp in succ:
                work.append((s2, l2, p2, r2, fr2, nf + d))
        return out

    def block(self, st, f, lab, prev, regs, frame):
        """execute one block: -> ([(st, label, prev, regs, frame, split?)], [(st, value, frame)])"""
        succ = []
        rets = []
        work = [(st, 0, regs, frame, False)]
        ins = f.blocks[lab]
        mod = f.mod
        while work:
            st, i, regs, frame, sp = work.pop()
            try:
                while True:
                    x = ins[i]
                    op = x[0]
                    self.steps += 1
                    if self.steps & 63 == 0 and time.time() > self.deadline:
                        raise Unsupported('time limit')
                    if op == 'jmp':
                        succ.append((st, x[2], lab, regs, frame, sp))
                        break
                    if op == 'ret':
                        v = None if x[2] is None or x[3] is None else self.ev(st, regs, x[3], x[2], mod)
                        rets.append((st, v, frame))
                        break
                    if op == 'br':
                        v = self.ev(st, regs, x[2], ('i', 1), mod)
                        c = self.truth(st, self.simp(st, v))
                        r = decide(st.F, c, self.quick and not self.panicky(f, x[3]) and not self.panicky(f, x[4])) if isinstance(c, tuple) else c
                        if r is not None and self.panicky(f, x[4] if r else x[3]):
                            self.obl += 1
                        if r is None:
                            s2 = st.fork()
                            if add_fact(s2.F, cneg(c)):
                                succ.append((s2, x[4], lab, dict(regs), frame, sp))
                            if add_fact(st.F, c):
                                succ.append((st, x[3], lab, regs, frame, sp))
                        else:
                            succ.append((st, x[3] if r else x[4], lab, regs, frame, sp))
                        break
                    if op == 'switch':
                        v = self.simp(st, self.ev(st, regs, x[3], x[2], mod))
                        if isinstance(v, int):
                            t = dict(x[5]).get(v, x[4])
                            succ.append((st, t, lab, regs, frame, sp))
                            break
                        if not isinstance(v, Poly):
                            raise Unsupported('switch on %r' % (v,))
                        rest = st
                        for cv, t in x[5]:
                            c = ceq(rest.F, psub(v, cv))
                            r = decide(rest.F, c)
                            if r == 0:
                                continue
                            if r == 1:
                                succ.append((rest, t, lab, regs, frame, sp))
                                rest = None
                                break
                            s2 = rest.fork()
                            if add_fact(s2.F, c):
                                succ.append((s2, t, lab, dict(regs), frame, sp))
                            if not add_fact(rest.F, cneg(c)):
                                rest = None
                                break
                        if rest is not None and check(rest.F, []) != 'unsat':
                            succ.append((rest, x[4], lab, regs, frame, sp))
                        break
                    if op == 'unreachable':
                        if check(st.F, []) != 'unsat':
                            self.fail(st, 'unreachable', 'code declared unreachable is reached')
                        break
                    if op == 'call':
                        callee = x[3]
                        if callee[0] == 'g':
                            nm = callee[1]
                            fn = self.prog.resolve(mod, nm)
                        else:
                            p = self.ev(st, regs, callee, ('ptr',), mod)
                            o = self.obj(st, p)
                            if o.fn is None:
                                raise Unsupported('call through data')
                            fn, nm = o.fn
                        args = [self.ev(st, regs, v, t, mod) if t[0] != 'metadata' else None for t, v in x[4]]
                        res = self.call(st, fn, nm, args, mod)
                        if not res:
                            break
                        i += 1
                        for s2, v in res[1:]:
                            r2 = dict(regs)
                            if x[1] is not None:
                                r2[x[1]] = v
                            work.append((s2, i, r2, frame, sp))
                        st, v = res[0]
                        if len(res) > 1:
                            regs = dict(regs)
                        if x[1] is not None:
                            regs[x[1]] = v
                        continue
                    if op == 'phi' and prev is None:
                        while ins[i][0] == 'phi':       # already evaluated on the edge
                            i += 1
                        continue
                    if op == 'phi':
                        # all phis of the block read the old values
                        new = {}
                        while ins[i][0] == 'phi':
                            y = ins[i]
                            for v, l in y[3]:
                                if l == prev:
                                    new[y[1]] = self.ev(st, regs, v, y[2], mod)
                            i += 1
                        regs.update(new)
                        continue
                    if op == 'alloca':
                        n = t_size(x[2], mod)
                        if x[3] is not None:
                            raise Unsupported('dynamic alloca')
                        p = self.new_obj(st, n, (f.name, x[1]))
                        frame = frame + (pobj(p),)
                        regs[x[1]] = p
                    else:
                        regs[x[1]] = self.instr(st, f, op, x, regs, mod) if op != 'store' else self.do_store(st, x, regs, mod)
                    i += 1
            except Dead:
                pass
            except Split as e:
                lo, hi = iv(st.F, e.p)
                for v in range(hi, lo - 1, -1):
                    s2 = st.fork()
                    c = ceq(s2.F, psub(e.p, v))
                    if decide(s2.F, c) == 0 or not add_fact(s2.F, c):
                        continue
                    work.append((s2, i, dict(regs), frame, True))
            except SplitCond as e:
                for c in (e.c, cneg(e.c)):
                    s2 = st.fork()
                    if add_fact(s2.F, c):
                        work.append((s2, i, dict(regs), frame, sp))
        return succ, rets

    def panicky(self, f, lab):
        """the block only reports a panic"""
        k = (f.mod.path, f.name, lab)
        r = self.pcache.get(k)
        if r is None:
            r = False
            for x in f.blocks[lab]:
                if x[0] == 'call' and x[3][0] == 'g':
                    fn = self.prog.resolve(f.mod, x[3][1])
                    r = r or (fn.pretty if fn is not None else self.prog.demangle(x[3][1])).startswith(PANICS)
            self.pcache[k] = r
        return r

    def do_store(self, st, x, regs, mod):
        p = self.ev(st, regs, x[4], ('ptr',), mod)
        v = regs[x[3][1]] if x[3][0] == 'r' else self.ev(st, regs, x[3], x[2], mod)
        self.store_t(st, p, x[2], v, mod)

    def instr(self, st, f, op, x, regs, mod):
        F = st.F
        if op == 'load':
            p = self.ev(st, regs, x[3], ('ptr',), mod)
            return self.load_t(st, p, x[2], mod)
        if op == 'gep':
            return self.gep(st, regs, x[2], x[3], mod)
        if op == 'icmp':
            a = self.ev(st, regs, x[4], x[3], mod)
            b = self.ev(st, regs, x[5], x[3], mod)
            if self.opaque and isptr(a) and isptr(b) and a != b and (pobj(a) in self.opaque or pobj(b) in self.opaque):
                raise Unsupported('comparison of positions in a text')
            return op_icmp(F, x[2], self.simp(st, a), self.simp(st, b), x[3][1] if x[3][0] == 'i' else 64)
        if op in BIN:
            a = self.simp(st, self.ev(st, regs, x[3], x[2], mod))
            b = self.simp(st, self.ev(st, regs, x[4], x[2], mod))
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if x[2][0] != 'i':
                raise Unsupported('vector operation')
            if self.opaque and op != 'and' and (isptr(a) and pobj(a) in self.opaque or isptr(b) and pobj(b) in self.opaque):
                raise Unsupported('arithmetic on a position in a text: %s' % ' < '.join(reversed(self.stack[-5:])) + str(x))
            return BIN[op](self, st, a, b, x[2][1])
        if op in ('zext', 'trunc', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
            v = self.ev(st, regs, x[3], x[2], mod)
            if v is UNDEF:
                return UNDEF
            if op == 'trunc':
                if isinstance(v, CmpRes):
                    raise Unsupported('trunc of comparison')
                return lowpart(F, self.simp(st, v), x[4][1])
            if op == 'sext':
                w, W = x[2][1], x[4][1]
                s = bit(F, v, w - 1) if isinstance(v, Poly) else (v >> (w - 1)) & 1
                return padd(v, pscale(s, (1 << W) - (1 << w)))
            if op == 'zext' and x[4][1] > 8 and isinstance(v, Poly) and len(v.t) == 1:
                return carry_of(self, F, v)
            return v
        if op == 'select':
            c = self.truth(st, self.simp(st, self.ev(st, regs, x[2], ('i', 1), mod)))
            r = c if not isinstance(c, tuple) else decide(F, c)
            if r is None:
                a = regs.get(x[4][1]) if x[4][0] == 'r' else self.ev(st, regs, x[4], x[3], mod)
                b = regs.get(x[5][1]) if x[5][0] == 'r' else self.ev(st, regs, x[5], x[3], mod)
                if x[3][0] == 'ptr' or x[3] == ('i', 8) or not isinstance(a, (int, Poly)) or not isinstance(b, (int, Poly)):
                    raise SplitCond(c)
                return choice(F, ind(F, c), a, b)
            return self.ev(st, regs, x[4] if r else x[5], x[3], mod)
        if op == 'extractvalue':
            v = self.ev(st, regs, x[3], x[2], mod)
            for k in x[4]:
                if v is UNDEF:
                    return UNDEF
                v = v[k]
            if isinstance(v, Ambig):
                raise AmbigUse(v.label)
            return v
        if op == 'insertvalue':
            v = self.ev(st, regs, x[3], x[2], mod)
            e = self.ev(st, regs, x[5], x[4], mod)
            return insertv(v, e, x[6], x[2], mod)
        if op == 'freeze':
            v = self.ev(st, regs, x[3], x[2], mod)
            if v is UNDEF:
                raise Unsupported('freeze of undefined value')
            return v
        raise Unsupported('instruction %s' % (x,))

    # ---------------------------------------------------------------- external functions
    def builtin(self, st, nm, pretty, args):
        F = st.F
        if pretty.startswith(PANICS):
            self.obl += 1
            if check(F, [], 8000) == 'unsat':
                return []
            if not field_feasible(F) or field_absurd(F):
                return []
            msg = pretty
            self.fail(st, 'panic', 'panic reachable: ' + msg)
            return []
        if nm.startswith('llvm.'):
            b = nm[5:]
            if b.startswith(('memcpy', 'memmove')):
                self.copy(st, args[0], args[1], self.concrete(st, args[2], 1100))
                return [(st, None)]
            if b.startswith('memset'):
                n = self.concrete(st, args[2], 1100)
                v = args[1]
                o = self.wobj(st, args[0]) if n else None
                off = poff(args[0])
                if n:
                    self.bounds(st, o, off, n, 'memset')
                    self.clear(st, o, off, n)
                    if v == 0:
                        k = 0
                        while k < n:
                            m = 8 if (off + k) % 8 == 0 and n - k >= 8 else 1
                            o.cells[off + k] = (m, 0)
                            k += m
                    else:
                        for k in range(n):
                            o.cells[off + k] = (1, v)
                return [(st, None)]
            if b.startswith(('lifetime', 'dbg', 'experimental.noalias', 'invariant')):
                return [(st, None)]
            if b.startswith('assume'):
                return [(st, None)]
            if b.startswith('expect'):
                return [(st, args[0])]
            if b.startswith('is.constant'):
                return [(st, 0)]
            w = int(b.rsplit('.i', 1)[1]) if '.i' in b and b.rsplit('.i', 1)[1].isdigit() else None
            if '.with.overflow' in b:
                a, c = self.simp(st, args[0]), self.simp(st, args[1])
                return [(st, with_overflow(self, st, b[0], b[1:4], a, c, w))]
            if b.startswith('bswap'):
                v = args[0]
                if v is UNDEF:
                    return [(st, UNDEF)]
                bs = limbs(F, v, w // 8, 8)
                r = T.from_bytes(bs[::-1])
                return [(st, reg(F, r, (0, (1 << w) - 1), everywhere(F, (0, (1 << w) - 1))))]
            if b.startswith('ctpop'):
                v = args[0]
                if isinstance(v, int):
                    return [(st, bin(v).count('1'))]
                raise Unsupported('ctpop of a symbolic value')
            if b.startswith(('umax', 'umin')):
                a, c = args
                k = cge(F, psub(a, c))
                r = k if not isinstance(k, tuple) else decide(F, k)
                if r is None:
                    raise SplitCond(k)
                return [(st, (a if r else c) if b.startswith('umax') else (c if r else a))]
            if b.startswith(('ucmp', 'scmp')):
                a, c = self.simp(st, args[0]), self.simp(st, args[1])
                if a is UNDEF or c is UNDEF:
                    return [(st, UNDEF)]
                for pred, r in (('lt', (1 << int(b.split('.i')[1])) - 1), ('eq', 0)):
                    t = self.truth(st, op_icmp(F, pred if pred == 'eq' else b[0] + pred, a, c, w))
                    d = t if not isinstance(t, tuple) else decide(F, t)
                    if d is None:
                        raise SplitCond(t)
                    if d:
                        return [(st, r)]
                return [(st, 1)]
            if b.startswith(('fshl', 'fshr')):
                n = self.concrete(st, args[2]) % w
                v = padd(pscale(args[0], 1 << w), args[1])
                return [(st, lowpart(F, quo(F, v, w - n if b.startswith('fshl') else n), w))]
            if b.startswith(('uadd.sat', 'usub.sat')):
                a, c = args
                k = cge(F, psub(a, c)) if b.startswith('usub') else cge(F, psub((1 << w) - 1, padd(a, c)))
                r = k if not isinstance(k, tuple) else decide(F, k)
                if r is None:
                    raise SplitCond(k)
                if b.startswith('usub'):
                    return [(st, psub(a, c) if r else 0)]
                return [(st, padd(a, c) if r else (1 << w) - 1)]
            raise Unsupported('intrinsic ' + nm)
        if nm in ('memcmp', 'bcmp'):
            n = self.concrete(st, args[2], 1100)
            return [(st, CmpRes(self.memeq(st, args[0], args[1], n)))]
        if '__rust_alloc_zeroed' in nm or pretty.endswith('__rust_alloc_zeroed'):
            n = self.concrete(st, args[0], 4096)
            p = self.heap(st, n)
            self.builtin(st, 'llvm.memset.', 'llvm.memset', [p, 0, n, 0])
            return [(st, p)]
        if '__rust_realloc' in nm or pretty.endswith('__rust_realloc'):
            n = self.concrete(st, args[3], 1 << 20)
            old = self.concrete(st, args[1], 1 << 20)
            p = self.heap(st, n)
            self.copy(st, p, args[0], min(n, old))
            st.mem.pop(pobj(args[0]), None)
            return [(st, p)]
        if '__rust_alloc' in nm or pretty.endswith('__rust_alloc'):
            n = self.concrete(st, args[0], 4096)
            return [(st, self.heap(st, n))]
        if '__rust_dealloc' in nm or pretty.endswith('__rust_dealloc'):
            st.mem.pop(pobj(args[0]), None)
            return [(st, None)]
        if '__rust_no_alloc_shim' in nm or '__rust_no_alloc_shim' in pretty:
            return [(st, None)]
        return NotImplemented

    def heap(self, st, n):
        return self.new_obj(st, n, ('heap',))

    def memeq(self, st, a, b, n):
        """condition: the n bytes agree"""
        F = st.F
        k = 0
        cs = []
        da = db = 0
        while k < n:
            m = 8 if n - k >= 8 else 1
            x = self.load_n(st, a + k, m)
            y = self.load_n(st, b + k, m)
            if x is UNDEF or y is UNDEF:
                raise Unsupported('comparison of undefined bytes')
            da = padd(da, pscale(x, 1 << (8 * k)))
            db = padd(db, pscale(y, 1 << (8 * k)))
            k += m
        return ceq(F, psub(da, db))

PANICS = ('core::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'alloc::raw_vec::handle_error', 'core::slice::index::slice_', 'alloc::alloc::handle_alloc_error', 'alloc::raw_vec::capacity_overflow',
          'std::panicking::', 'std::process::abort', '<[_]>::copy_from_slice::len_mismatch_fail', 'core::slice::copy_from_slice_impl::len_mismatch_fail',
          'core::panic', 'core::cell::panic', 'core::str::slice_error_fail', 'std::rt::begin_panic')

def _shr(i, k):
    return (None if i[0] is None else i[0] >> k, None if i[1] is None else i[1] >> k)

def insertv(v, e, idx, t, mod):
    while t[0] == 'named':
        t = mod.types[t[1]]
    n = len(t[1]) if t[0] == 'st' else t[1]
    v = [UNDEF] * n if v is UNDEF else list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        et = t[1][idx[0]] if t[0] == 'st' else t[2]
        v[idx[0]] = insertv(v[idx[0]], e, idx[1:], et, mod)
    return v

def choice(F, t, a, b):
    """a if t else b"""
    if a == b:
        return a
    if not isinstance(t, Poly):
        return a if t else b
    d = psub(a, b)
    r = padd(b, pmul(t, d))
    i, j = iv(F, a), iv(F, b)
    u = _union(i, j)
    return reg(F, r, u, _union(iv(NOFACTS, a), iv(NOFACTS, b)))

def _union(i, j):
    return (None if i[0] is None or j[0] is None else min(i[0], j[0]), None if i[1] is None or j[1] is None else max(i[1], j[1]))

# ---------------------------------------------------------------- word operations
def op_add(F, a, b, w):
    M = 1 << w
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & (M - 1)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int) and b >= M // 2:
        return op_sub(F, a, M - b, w)
    return wrap(F, padd(a, b), iadd(iv(F, a), iv(F, b)), iadd(iv(NOFACTS, a), iv(NOFACTS, b)), w)

def wrap(F, s, i, g, w):
    M = 1 << w
    if not isinstance(s, Poly):
        return s & (M - 1)
    reg(F, s, i, g)
    i = iv(F, s)
    if i[0] is not None and i[1] is not None:
        if 0 <= i[0] and i[1] < M:
            return s
        if -4 * M < i[0] and i[1] < 4 * M:
            lo = i[0] >= 0 or proves(F, ('ge', s))
            if lo and (i[1] < M or proves(F, ('ge', psub(M - 1, s)))):
                set_piv(F, s, (0, M - 1))
                return s
    return lowpart(F, s, w)

def op_sub(F, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << w) - 1)
    return wrap(F, psub(a, b), iadd(iv(F, a), iscale(iv(F, b), -1)), iadd(iv(NOFACTS, a), iscale(iv(NOFACTS, b), -1)), w)

def op_mul(F, a, b, w, full=False):
    if isinstance(a, int) and isinstance(b, int):
        return a * b if full else (a * b) & ((1 << w) - 1)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if min(len(a.t), len(b.t)) > 1 or max(len(a.t), len(b.t)) > 1:
            i = (0, 1)
            if iv(F, a) != i and iv(F, b) != i:
                a = wordname(F, a)
                b = wordname(F, b)
    p = pmul(a, b)
    i = imul(iv(F, a), iv(F, b))
    g = imul(iv(NOFACTS, a), iv(NOFACTS, b))
    if isinstance(p, Poly):
        reg(F, p, i, g)
    if full:
        return p
    if i[1] is not None and i[1] < (1 << w):
        return p
    return lowpart(F, p, w)

def b_add(ex, st, a, b, w):
    return op_add(st.F, a, b, w)
def b_sub(ex, st, a, b, w):
    return op_sub(st.F, a, b, w)
def b_mul(ex, st, a, b, w):
    return op_mul(st.F, a, b, w)

def b_shl(ex, st, a, b, w):
    n = ex.concrete(st, b)
    if n >= w:
        raise Unsupported('oversized shift')
    if isinstance(a, int):
        return (a << n) & ((1 << w) - 1)
    F = st.F
    s = pscale(a, 1 << n)
    reg(F, s, iscale(iv(F, a), 1 << n), iscale(iv(NOFACTS, a), 1 << n))
    return lowpart(F, s, w)

def b_lshr(ex, st, a, b, w):
    n = ex.concrete(st, b)
    if n >= w:
        raise Unsupported('oversized shift')
    if isinstance(a, int):
        return a >> n
    F = st.F
    r = quo(F, a, n)
    return reg(F, r, _shr(iv(F, a), n), _shr(iv(NOFACTS, a), n))

def b_ashr(ex, st, a, b, w):
    i = iv(st.F, a)
    if i[1] is not None and i[1] < 1 << (w - 1):
        return b_lshr(ex, st, a, b, w)
    if isinstance(a, int) and isinstance(b, int):
        return ((a - (1 << w)) >> b) & ((1 << w) - 1)
    raise Unsupported('ashr')

def divisible(a, k):
    if isinstance(a, int):
        return a % (1 << k) == 0
    return all(c % (1 << k) == 0 for c in a.t.values())

def tzc(a):
    if isinstance(a, int):
        return (a & -a).bit_length() - 1 if a else 1000
    return min((c & -c).bit_length() - 1 for c in a.t.values())

def b_and(ex, st, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    F = st.F
    if w == 1 and isinstance(b, Poly):
        return ind(F, cand(to_cond(F, a), to_cond(F, b)))
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        # runs of ones
        r = 0
        k = 0
        runs = []
        while b >> k:
            if (b >> k) & 1:
                j = k
                while (b >> j) & 1:
                    j += 1
                runs.append((k, j))
                k = j
            else:
                k += 1
        if len(runs) > 4:
            raise Unsupported('mask %x' % b)
        for k, j in runs:
            x = quo(F, a, k)
            reg(F, x, _shr(iv(F, a), k), _shr(iv(NOFACTS, a), k))
            if j < w:
                x = lowpart(F, x, j - k)
            r = padd(r, pscale(x, 1 << k))
        return reg(F, r, (0, b), everywhere(F, (0, b)))
    for x, y in ((a, b), (b, a)):
        i = iv(F, y)
        if i == (0, 1) and w > 1:
            return pmul(y, bit(F, x, 0))
    return andatom(F, a, b, w)

def andatom(F, a, b, w):
    """the bitwise conjunction of two words as an atom; or = a + b - and, xor = a + b - 2*and"""
    if a == b:
        return a
    i, j = iv(NOFACTS, a), iv(NOFACTS, b)
    h = min(x for x in (i[1], j[1], (1 << w) - 1) if x is not None)
    k = ('and',) + ((a, b) if repr(a) <= repr(b) else (b, a))
    ok = all(y[0] is not None and y[0] >= 0 and y[1] is not None and y[1] < (1 << w) for y in (i, j))
    if not ok:
        h = (1 << w) - 1
    x = avar(new_atom('b', 'and', 0, h, (a, b), k))
    for e in (psub(padd(a, b), x), psub(padd(a, b), pscale(x, 2))):
        T_reg(F, e, ok, (0, (1 << w) - 1))
    return x

def b_or(ex, st, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    F = st.F
    if w == 1:
        return ind(F, cor(to_cond(F, a), to_cond(F, b)))
    if a == 0:
        return b
    if b == 0:
        return a
    for x, y in ((a, b), (b, a)):
        z = tzc(x)
        if z:
            i = iv(F, y)
            if i[0] is not None and i[0] >= 0 and i[1] < (1 << min(z, w)):
                return reg(F, padd(a, b), iadd(iv(F, a), iv(F, b)), iadd(iv(NOFACTS, a), iv(NOFACTS, b)))
    # lower part of x below z bits known by path facts
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and bin(y).count('1') <= 4:
            r = x
            for k in range(w):
                if (y >> k) & 1:
                    r = padd(r, pscale(psub(1, bit(F, x, k)), 1 << k))
            return reg(F, r, (0, (1 << w) - 1), everywhere(F, (0, (1 << w) - 1)))
        if isinstance(y, Poly):
            # y = t * 2^k with t a bit
            z = tzc(y)
            t = quo(F, y, z)
            if iv(F, t) == (0, 1):
                bx = bit(F, x, z)
                r = padd(x, pscale(pmul(t, psub(1, bx)), 1 << z))
                return reg(F, r, (0, (1 << w) - 1), everywhere(F, (0, (1 << w) - 1)))
    # a word whose low bits vanish: x = 2^k * quo(x, k) when the low part is provably zero
    for x, y in ((a, b), (b, a)):
        i = iv(F, y)
        if i[1] is not None and i[0] >= 0:
            k = i[1].bit_length()
            if k < w:
                lp = lowpart(F, x, k)
                if lp == 0 or proves(F, ('eq', lp)):
                    return reg(F, padd(a, b), (0, (1 << w) - 1), everywhere(F, (0, None)))
    x = andatom(F, a, b, w)
    return reg(F, psub(padd(a, b), x), (0, (1 << w) - 1), everywhere(F, (0, (1 << w) - 1)))

def b_xor(ex, st, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    F = st.F
    if isinstance(a, int):
        a, b = b, a
    if b == 0:
        return a
    if b == (1 << w) - 1:
        return psub(b, a) if w > 1 else ind(F, cneg(to_cond(F, a)))
    if w == 1:
        x = a
        y = b
        r = psub(padd(x, y), pscale(pmul(x, y), 2))
        return reg(F, r, (0, 1), everywhere(F, (0, 1)))
    if a == b:
        return 0
    if isinstance(b, int) and bin(b).count('1') <= 4:
        r = a
        for k in range(w):
            if (b >> k) & 1:
                r = padd(r, pscale(psub(1, pscale(bit(F, a, k), 2)), 1 << k))
        return reg(F, r, (0, (1 << w) - 1), everywhere(F, (0, (1 << w) - 1)))
    if iv(F, a) == (0, 1) and iv(F, b) == (0, 1):
        r = psub(padd(a, b), pscale(pmul(a, b), 2))
        return reg(F, r, (0, 1), everywhere(F, (0, 1)))
    x = andatom(F, a, b, w)
    return reg(F, psub(padd(a, b), pscale(x, 2)), (0, (1 << w) - 1), everywhere(F, (0, (1 << w) - 1)))

def b_udiv(ex, st, a, b, w):
    if isinstance(b, int):
        if b == 0:
            raise Unsupported('division by zero')
        if isinstance(a, int):
            return a // b
        if b & (b - 1) == 0:
            return b_lshr(ex, st, a, b.bit_length() - 1, w)
        return fdiv(st.F, a, b)
    raise Unsupported('symbolic divisor')

def b_urem(ex, st, a, b, w):
    if isinstance(b, int):
        if b == 0:
            raise Unsupported('division by zero')
        if isinstance(a, int):
            return a % b
        if b & (b - 1) == 0:
            return lowpart(st.F, a, b.bit_length() - 1)
        return reg(st.F, psub(a, pscale(fdiv(st.F, a, b), b)), (0, b - 1), everywhere(st.F, (0, b - 1)))
    raise Unsupported('symbolic divisor')

def b_sdiv(ex, st, a, b, w):
    h = 1 << (w - 1)
    if iv(st.F, a)[1] < h and isinstance(b, int) and b < h:
        return b_udiv(ex, st, a, b, w)
    raise Unsupported('sdiv')

def b_srem(ex, st, a, b, w):
    h = 1 << (w - 1)
    if iv(st.F, a)[1] < h and isinstance(b, int) and b < h:
        return b_urem(ex, st, a, b, w)
    raise Unsupported('srem')

BIN = {'add': b_add, 'sub': b_sub, 'mul': b_mul, 'shl': b_shl, 'lshr': b_lshr, 'ashr': b_ashr, 'and': b_and, 'or': b_or, 'xor': b_xor,
       'udiv': b_udiv, 'urem': b_urem, 'sdiv': b_sdiv, 'srem': b_srem}

def fdiv(F, p, m):
    """floor(p / m), m a positive int or atom polynomial"""
    if isinstance(p, int) and isinstance(m, int):
        return p // m
    if isinstance(m, int):
        A = {}
        B = {}
        for k, c in p.t.items():
            q, r = divmod(c, m)
            if q:
                A[k] = q
            if r:
                B[k] = r
        A, B = T.mk(A), T.mk(B)
    else:
        (ma,), = [k for k in m.t]
        A = {}
        B = {}
        for k, c in terms_of(p).items():
            if ma in k:
                l = list(k)
                l.remove(ma)
                A[tuple(l)] = c
            else:
                B[k] = c
        A, B = T.mk(A), T.mk(B)
    if isinstance(B, int) and isinstance(m, int):
        return padd(A, B // m)
    if isinstance(B, Poly) and len(B.t) == 1:
        (k, c), = B.t.items()
        if c == 1 and len(k) == 1 and ATOMS[k[0]].kind == 'q':
            D, n = ATOMS[k[0]].data
            return padd(A, quo(NOFACTS, fdiv(F, D, m), n))
    i = iv(NOFACTS, B)
    mi = iv(NOFACTS, m)
    lo = hi = None
    if i[0] is not None and i[0] >= 0:
        lo = i[0] // mi[1] if mi[1] else 0
        if i[1] is not None:
            hi = i[1] // max(1, mi[0] or 1)
            if lo == hi:
                return padd(A, lo)
    a = new_atom('d', 'd', lo, hi, (B, m), ('d', B, m))
    r = psub(B, pmul(m, avar(a)))
    set_giv(r, (0, mi[1] - 1 if mi[1] is not None else None))
    if isinstance(m, Poly):
        set_giv(psub(psub(m, 1), r), (0, None))
    return padd(A, avar(a))

def terms_of(p):
    return T.terms(p)

def zero_one_cond(F, p):
    """P >= 0 when one 0/1 atom decides it: that atom's condition"""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and (best is None or abs(c) > abs(p.t[best])):
            best = m
    if best is None:
        return None
    x = Poly({best: 1})
    if iv(F, x) != (0, 1):
        return None
    C = p.t[best]
    R = psub(p, pscale(x, C))
    i = iv(F, R)
    if i[0] is None or i[1] is None:
        return None
    a = 1 if i[0] >= 0 else 0 if i[1] < 0 else None
    b = 1 if i[0] + C >= 0 else 0 if i[1] + C < 0 else None
    if a is None or b is None:
        return None
    if a == b:
        return a
    return x if b else psub(1, x)

def op_icmp(F, pred, a, b, w):
    if isinstance(a, Ambig) or isinstance(b, Ambig):
        raise AmbigUse((a if isinstance(a, Ambig) else b).label)
    if isinstance(a, CmpRes) or isinstance(b, CmpRes):
        c = a if isinstance(a, CmpRes) else b
        o = b if isinstance(a, CmpRes) else a
        if o != 0 or pred not in ('eq', 'ne'):
            raise Unsupported('ordering by memcmp')
        r = ind(F, c.cond)
        return r if pred == 'eq' else psub(1, r)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's':
            h = 1 << (w - 1)
            a, b = (a ^ h), (b ^ h)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if len(pred) == 2 else pred[1:]])
    if pred == 'eq':
        return ind(F, ceq(F, psub(a, b)))
    if pred == 'ne':
        c = ceq(F, psub(a, b))
        return ind(F, cneg(c))
    if pred[0] == 's':
        h = 1 << (w - 1)
        def sg(x):
            if isinstance(x, int):
                return x - (1 << w) if x >= h else x
            i = iv(F, x)
            if i[1] is not None and i[1] < h:
                return x
            return psub(x, pscale(bit(F, x, w - 1), 1 << w))
        a, b = sg(a), sg(b)
    p = pred[1:]
    if p == 'lt':
        d = psub(psub(b, a), 1)
    elif p == 'le':
        d = psub(b, a)
    elif p == 'gt':
        d = psub(psub(a, b), 1)
    else:
        d = psub(a, b)
    if not isinstance(d, Poly):
        return int(d >= 0)
    c = cge(F, d)
    if not isinstance(c, tuple):
        return c
    z = zero_one_cond(F, d)
    if z is not None:
        return z
    return ind(F, c)

def with_overflow(ex, st, sign, op, a, b, w):
    F = st.F
    M = 1 << w
    if a is UNDEF or b is UNDEF:
        return [UNDEF, UNDEF]
    if sign == 's':
        h = M // 2
        if isinstance(a, int) and isinstance(b, int):
            x = a - M if a >= h else a
            y = b - M if b >= h else b
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return [r % M, int(not -h <= r < h)]
        ia, ib = iv(F, a), iv(F, b)
        if ia[1] < h and ib[1] < h and op in ('add', 'mul'):
            p = padd(a, b) if op == 'add' else op_mul(F, a, b, w, True)
            i = iv(F, p)
            if i[1] is not None and i[1] < h:
                return [p, 0]
        raise Unsupported('signed overflow')
    p = padd(a, b) if op == 'add' else psub(a, b) if op == 'sub' else op_mul(F, a, b, w, True)
    if not isinstance(p, Poly):
        return [p % M, int(not 0 <= p < M)]
    if op == 'sub':
        r = op_sub(F, a, b, w)
    elif op == 'add':
        r = op_add(F, a, b, w)
    else:
        i = iv(F, p)
        r = p if i[1] is not None and i[1] < M else lowpart(F, p, w)
    if r == p:
        return [r, 0]
    if op == 'sub':
        c = cge(F, psub(psub(b, a), 1))
    else:
        c = cge(F, psub(p, M))
    f = ind(F, c)
    if op != 'mul' and isinstance(f, Poly) and len(f.t) == 1:
        ex.carries[f] = (op, a, b, w)
    return [r, f]

def carry_of(ex, F, v):
    """a carry taken as a number: the quotient, so that sums of limbs telescope"""
    k = ex.carries.get(v)
    if k is None:
        return v
    op, a, b, w = k
    p = padd(a, b) if op == 'add' else psub(a, b)
    q = quo(F, p, w)
    if op == 'sub':
        q = pscale(q, -1)
    T_reg(F, q, not F.iv, (0, 1))
    return q

# ---------------------------------------------------------------- conditions
def to_cond(F, v):
    """condition of a 0/1 word"""
    if not isinstance(v, Poly):
        return v & 1
    i = iv(F, v)
    if i[0] is not None and i[0] == i[1]:
        return i[0] & 1
    if len(v.t) == 1:
        (m, c), = v.t.items()
        if c == 1 and len(m) == 1 and ATOMS[m[0]].kind == 'i':
            return ATOMS[m[0]].data
    if len(v.t) == 2 and v.t.get(()) == 1:
        (m, c), = [x for x in v.t.items() if x[0]]
        if c == -1 and len(m) == 1 and ATOMS[m[0]].kind == 'i':
            return cneg(ATOMS[m[0]].data)
    return ceq(F, psub(v, 1))

def decide(F, c, quick=False):
    """1, 0 or None; quick: without the solver"""
    if not isinstance(c, tuple):
        return 1 if c else 0
    if c in F.l:
        return 1
    n = cneg(c)
    if n in F.l:
        return 0
    k = c[0]
    if k == 'ge':
        x = cge(F, c[1])
        if not isinstance(x, tuple):
            return x
        c = x
    elif k in ('eq', 'ne'):
        x = ceq(F, c[1])
        if not isinstance(x, tuple):
            return x if k == 'eq' else 1 - x
        # equal to a fact up to scaling
        c = x if k == 'eq' else cneg(x)
    if c in F.l:
        return 1
    n = cneg(c)
    if n in F.l:
        return 0
    if k in ('feq', 'fne'):
        r = field_decide(F, c[1])
        if r is None:
            return None
        return r if k == 'feq' else 1 - r
    if k in DECIDERS:
        return DECIDERS[k](F, c)
    if k in ('and', 'or') and not T.int_only(c):
        rs = [decide(F, x) for x in c[1:]]
        if k == 'and':
            return 0 if 0 in rs else 1 if all(r == 1 for r in rs) else None
        return 1 if 1 in rs else 0 if all(r == 0 for r in rs) else None
    if c[0] == 'ge':
        if T.lin_ge(F, c[1]):
            return 1
        if T.lin_ge(F, n[1]):
            return 0
    if quick:
        return None
    if check(F, [n]) == 'unsat':
        return 1
    if check(F, [c]) == 'unsat':
        return 0
    return None

DECIDERS = {}

def feqs(F, f):
    out = []
    for c in F.l:
        if c[0] == 'feq' and c[1].f is f:
            out.append(c[1])
            cj = FP.conj(c[1])
            if cj != c[1]:
                out.append(cj)
    return out

def fnes(F, f):
    out = []
    for c in F.l:
        if c[0] == 'fne' and c[1].f is f:
            out.append(c[1])
            cj = FP.conj(c[1])
            if cj != c[1]:
                out.append(cj)
    return out

def field_decide(F, g):
    """1 if g is zero, 0 if it is not"""
    if g.isconst():
        return 0 if g.t else 1
    eqs = feqs(F, g.f)
    try:
        r = FP.reduce(g, eqs) if eqs else g
    except Unsupported:
        r = g
    if r.isconst():
        return 0 if r.t else 1
    nes = [FP.reduce(x, eqs) if eqs else x for x in fnes(F, g.f)]
    nes = [x for x in nes if not x.isconst()]
    again = True
    while again and not r.isconst():
        again = False
        for n in nes:
            q = exact_div(r, n)
            if q is not None:
                r = q
                again = True
                break
    if r.isconst():
        return 0 if r.t else 1
    # equations with the factors that are not zero divided out
    if eqs and nes:
        more = divided(eqs, nes)
        if more:
            if any(e.isconst() for e in more):
                return 1            # the facts contradict one another
            try:
                h = FP.reduce(r, eqs + more)
            except Unsupported:
                h = r
            if h.isconst():
                return 0 if h.t else 1
    # both g zero and g nonzero could still be refuted by elimination
    if eqs:
        h, rest = FP.linear_elim(g, eqs)
        if h.isconst():
            return 0 if h.t else 1
    return None

GB = [0.0, 0]       # seconds spent on bases and how many were computed

def or_absurd(F):
    """a disjunction of field facts of which every member is refuted"""
    for c in F.l:
        if c[0] == 'or' and all(x[0] in ('feq', 'fne') for x in c[1:]):
            if all(decide(F, x) == 0 for x in c[1:]):
                return True
    return False

def field_absurd(F):
    """the field facts contradict one another"""
    if or_absurd(F):
        return True
    for f in set(c[1].f for c in F.l if c[0] == 'fne'):
        eqs = feqs(F, f)
        nes = [c[1] for c in F.l if c[0] == 'fne' and c[1].f is f]
        if not eqs:
            continue
        if absurd(eqs, nes):
            return True
        # without the inverses
        inv = inverses(eqs)
        if inv:
            eqs = [e for e in (FP.clear(e, inv) for e in eqs) if e.t]
            nes = [FP.clear(e, inv) for e in nes]
            if any(not n.t for n in nes) or any(e.isconst() for e in eqs) or absurd(eqs, nes):
                return True
        if GB[0] < 40:
            t = time.time()
            try:
                cj = [FP.conj(x) for x in nes]
                if FP.inconsistent(eqs, nes + [x for x, y in zip(cj, nes) if x != y], min(8, 40 - GB[0])):
                    return True
            finally:
                GB[0] += time.time() - t
                GB[1] += 1
    return False

def inverses(eqs):
    """atoms defined by the facts as the inverse of a polynomial"""
    out = {}
    known = set(FP.monic(e) for e in eqs)
    for e in eqs:
        for i in FP.fatoms(e):
            w = FP.FINV.get(i)
            if w is not None and i not in out and i not in FP.fatoms(w):
                d = FP.sub(FP.mul(FP.fatom(e.f, FP.ATOMS[i]), w), FP.const(e.f, 1))
                if FP.monic(d) in known:
                    out[i] = w
    return out

def absurd(eqs, nes):
    for n in nes:
        others = []
        for o in nes:
            if o == n:
                continue
            for x in (o, FP.conj(o)):
                if x != n and x != FP.conj(n):
                    x = FP.reduce(x, eqs)
                    if not x.isconst() and x not in others:
                        others.append(x)
        more = divided(eqs, others)
        if any(e.isconst() for e in more) or not FP.reduce(n, eqs + more).t:
            return True
    return False

def divided(eqs, nes):
    if len(eqs) > 8 or len(nes) > 8 or sum(len(x.t) for x in eqs) > 200:
        return []
    out = []
    for k, e in enumerate(eqs):
        try:
            r = FP.reduce(e, eqs[:k] + eqs[k + 1:]) if len(eqs) > 1 else e
        except Unsupported:
            continue
        if r.isconst() or FP.monic(r) in out:
            continue
        hit = False
        again = True
        while again and not r.isconst():
            again = False
            for n in nes:
                q = exact_div(r, n)
                if q is not None:
                    r = q
                    hit = again = True
                    break
        if hit:
            out.append(FP.monic(r))
    return out

def exact_div(a, b):
    """a / b if exact"""
    f = a.f
    lm = FP.lead(b)
    lc = FP.cinv(f, b.t[lm])
    q = {}
    n = 0
    while a.t:
        m = FP.lead(a)
        r = FP.mdiv(m, lm)
        if r is None:
            return None
        k = FP.cmul(f, a.t[m], lc)
        q[r] = k
        a = FP.sub(a, FP.scale(FP.mul(b, FP.FPoly(f, {r: (1, 0)})), k))
        n += 1
        if n > 400:
            return None
    return FP.FPoly(f, q)

def field_feasible(F):
    """False if the field facts of the path contradict each other"""
    for c in F.l:
        if c[0] == 'fne':
            eqs = feqs(F, c[1].f)
            if eqs:
                try:
                    if not FP.reduce(c[1], eqs).t:
                        return False
                except Unsupported:
                    pass
        elif c[0] == 'feq' and c[1].isconst() and c[1].t:
            return False
    return True

# ---------------------------------------------------------------- exploding elements
def explode_el(F, e, nb):
    """[(offset, size, value)] one level down"""
    if e.sort == 'W':
        return [(8 * k, 8, x) for k, x in enumerate(limbs(F, e.v, nb // 8))]
    if e.sort in ('Fr', 'Fq'):
        return [(8 * k, 8, x) for k, x in enumerate(limbs(F, FP.raw(e.v), 4))]
    if e.sort == 'Fq2':
        a, b = FP.parts(e.v)
        return [(0, 32, El('Fq', a)), (32, 32, El('Fq', b))]
    h = EXPLODERS.get(e.sort)
    if h is None:
        raise Unsupported('looking inside a ' + e.sort)
    return h(F, e)

EXPLODERS = {}
