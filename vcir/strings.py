"""Text: a string is an unknown sequence of characters of unknown length.  The contract of core's character iterator hands
out the next character; the value of the digits read so far is a ghost field value, and the loop that reads the characters
is cut at the invariant that a cell of the function holds that value."""
from . import fpoly as FP, merge, terms as T, witness
from .diff import Case, O, S, opt
from .exec import El, Obj, St, decide, pobj
from .fields import canonical_post, field_eq, get_el
from .fpoly import FR, R
from .loops import Cutter, Restart, same
from .merge import phis
from .spec import enc_r, from_str
from .terms import Poly, Unsupported, add_fact, ceq, cge, psub
from .unit import paths

ITER = '<core::slice::iter::Iter<u8> as core::iter::traits::iterator::Iterator>::next'
READS = ('<core::str::iter::', '<core::iter::adapters::', '<core::slice::iter::Iter<u8>')
START = {'cur': FP.const(FR, 0), 'state': 'first', 'rest': ()}       # and 'digits': the text is known to have no other character
TAIL = (0x80, 0xBF)
# the first byte of a character and the bytes that follow it, as UTF-8 (and so the type str) has it
LEAD = [(48, 57, ()), (0, 47, ()), (58, 127, ()), (0xC2, 0xDF, (TAIL,)), (0xE0, 0xE0, ((0xA0, 0xBF), TAIL)), (0xE1, 0xEC, (TAIL, TAIL)),
        (0xED, 0xED, ((0x80, 0x9F), TAIL)), (0xEE, 0xEF, (TAIL, TAIL)), (0xF0, 0xF0, ((0x90, 0xBF), TAIL, TAIL)),
        (0xF1, 0xF3, (TAIL, TAIL, TAIL)), (0xF4, 0xF4, ((0x80, 0x8F), TAIL, TAIL))]


def position(ex, st, nm):
    p = ex.new_obj(st, 0, nm)
    ex.opaque.add(pobj(p))
    return p


class Text:
    """a text of n bytes; how far it has been read is part of the state"""

    def __init__(self, ex, st, n, u):
        self.n, self.u = n, u
        self.ptr, self.end = position(ex, st, 'text'), position(ex, st, 'end of the text')
        ex.symgep[self.ptr] = (n, self.end)
        st.ghost.update(START, pos=self.ptr, digits=False)

    def byte(self, ex, st, args, b):
        """the iterator hands out a pointer to byte b and stands behind it"""
        e = ex.new_obj(st, 1, 'byte')
        ex.store_n(st, e, 1, b)
        st.ghost['pos'] = position(ex, st, 'position')
        ex.store_n(st, args[0], 8, st.ghost['pos'])
        return (st, e)

    def var(self, lo, hi):
        if lo == hi:
            return lo
        c = T.var('c', lo, hi)
        self.u.inputs.append((c, 'c%d' % len(self.u.inputs)))
        return c

    def next(self, ex, st, args, f):
        g = st.ghost
        if g['state'] == 'end' and g['pos'] != self.ptr and ex.load_n(st, args[0], 8) == self.ptr:
            # from the start again: the same text, which is known to consist of digits
            g.update(START, pos=self.ptr, digits=True)
        if ex.load_n(st, args[0], 8) != g['pos'] or ex.load_n(st, args[0] + 8, 8) != self.end:
            return NotImplemented
        if g['rest']:
            (lo, hi), g['rest'] = g['rest'][0], g['rest'][1:]
            return [self.byte(ex, st, args, self.var(lo, hi))]
        if g['state'] == 'end':
            return [(st, 0)]
        out = []
        for ended in (1, 0):
            s = st.fork()
            if g['state'] == 'first' and not add_fact(s.F, ceq(s.F, self.n) if ended else cge(s.F, psub(self.n, 1))):
                continue
            if ended:
                if g['state'] != 'bad':
                    s.ghost['state'] = 'end'
                out.append((s, 0))
                continue
            for lo, hi, rest in LEAD[:1] if g['digits'] else LEAD:
                s2 = s.fork()
                c = self.var(lo, hi)
                if g['state'] == 'bad':
                    pass
                elif (lo, hi) == (48, 57):
                    s2.ghost['cur'] = FP.add(FP.mul(FP.const(FR, 10), g['cur']), FP.from_int(FR, psub(c, 48)))
                    s2.ghost['state'] = 'on'
                else:
                    s2.ghost['state'] = 'bad'
                s2.ghost['rest'] = rest
                out.append(self.byte(ex, s2, args, c))
        return out


def iter_unit(u, ex, f):
    """slice::Iter<u8>::next: at the end nothing and the iterator stays; otherwise the element it stands at, and it moves on by
    one (whether the end comes right behind it or anywhere later)"""
    for case in ('end', 'last', 'more'):
        st = St()
        e = ex.new_obj(st, 1, 'element')
        b = T.var('b', 0, 255)
        ex.store_n(st, e, 1, b)
        p = ex.new_obj(st, 16, 'iterator')
        end = e if case == 'end' else e + 1 if case == 'last' else ex.new_obj(st, 0, 'end')
        ex.store_n(st, p, 8, e)
        ex.store_n(st, p + 8, 8, end)
        for s, r in paths(u, ex, st, f, [p]):
            u.post(ex, s, int(r == (0 if case == 'end' else e)), 'the element it stands at, or nothing at the end')
            u.post(ex, s, int(ex.load_n(s, p, 8) == (e if case == 'end' else e + 1)), 'moves on by one')
            u.post(ex, s, int(ex.load_n(s, p + 8, 8) == end), 'the end stays')
            u.eq(ex, s, ex.load_n(s, e, 1), b, 'the element stays')


def equal(s, v, w):
    d = FP.sub(v, w)
    if not d.t:
        return True
    cst = {i: FP.const(FR, x) for i, x in s.F.cst.items()}
    if cst:
        d = FP.fsubst(d, cst)
        if not d.t:
            return True
    return decide(s.F, ('feq', d)) == 1


def isfr(y):
    return y is not None and isinstance(y[1], El) and y[1].sort == 'Fr'


def isread(fn):
    return fn.startswith(READS) and fn.endswith('::next')


class Reader(Cutter):
    """only the loops that read characters are cut"""

    def __init__(self, ex, f):
        Cutter.__init__(self, ex, f, None)
        self.role = {}          # (head, cell) -> 'same' | 'lost'; value cells are those not listed
        reads = [l for l, ins in f.blocks.items() if any(x[0] == 'call' and x[3][0] == 'g' and isread(ex.prog.demangle(x[3][1])) for x in ins)]
        self.cutheads = {h for l in reads for h in self.order.heads[l]}

    def arrive(self, s, head, regs, frame, ghosts, F0, base, hs):
        ex, g = self.ex, s.ghost
        if head not in self.cutheads or g['state'] == 'end':
            return s, regs, frame, ghosts
        head = (head, 'bad' if g['state'] == 'bad' else 'on', g['digits'])
        cells = {(oid, off): x for oid, o in s.mem.items() for off, x in o.cells.items()}
        h = self.heads.get(head)
        cur = s.ghost['cur']
        if g['rest']:
            raise Unsupported('a loop inside a character')
        if h is None:
            A = FP.fvar(FR, 'A')
            st = St()
            st.F = F0.copy()
            kept = {}
            for oid, o in s.mem.items():
                st.mem[oid] = Obj(o.size, o.name, {}, o.fn)
                st.own.add(oid)
            st.ghost = dict(g, cur=A, state=head[1], pos=position(ex, st, 'position'))
            for k, (n, v) in cells.items():
                r = self.role.get((head, k))
                if r == 'lost':
                    continue
                if r == 'any':
                    v = El('Fr', FP.fvar(FR, 'any'))
                    kept[k] = 'any'
                    st.mem[k[0]].cells[k[1]] = (n, v)
                    continue
                if r is None and isinstance(v, El) and v.sort == 'Fr' and equal(s, v.v, cur):
                    v = El('Fr', A)
                    kept[k] = 'value'
                elif r is None and isinstance(v, int) and v == s.ghost['pos']:
                    v = st.ghost['pos']
                    kept[k] = 'pos'
                else:
                    kept[k] = (n, v)
                st.mem[k[0]].cells[k[1]] = (n, v)
            r2 = {k: v for k, v in regs.items() if (head, k) not in self.role}
            self.heads[head] = (kept, dict(r2), A)
            return st, r2, frame, ghosts
        kept, r2, A = h
        change = False
        for k, x in kept.items():      # a cell the loop leaves alone does not hold the value read so far
            y = cells.get(k)
            if x == 'value' and y is not None and isinstance(y[1], El) and y[1].sort == 'Fr' and equal(s, y[1].v, A) and not equal(s, A, cur):
                self.role[(head, k)] = 'same'
                change = True
        if change:
            raise Restart()
        for k, x in kept.items():
            y = cells.get(k)
            if x == 'value':
                if y is None or not isinstance(y[1], El) or y[1].sort != 'Fr' or not equal(s, y[1].v, cur):
                    self.role[(head, k)] = 'same'
                    change = True
            elif x == 'pos':
                if y is None or not isinstance(y[1], int) or y[1] != s.ghost['pos']:
                    self.role[(head, k)] = 'same'
                    change = True
            elif y is None or not (isfr(y) if x == 'any' else same(x, y)):
                if k[0] in base:
                    raise Unsupported('a loop writes to memory that is not local')
                self.role[(head, k)] = 'any' if x != 'any' and isinstance(x[1], El) and isfr(y) and x[1].sort == 'Fr' else 'lost'
                change = True
        for oid in base:
            for off in (s.mem[oid].cells if oid in s.mem else ()):
                if (oid, off) not in kept and (head, (oid, off)) not in self.role:
                    raise Unsupported('a loop writes to memory that is not local')
        for k, v in r2.items():
            if k not in regs or not same(regs[k], v):
                self.role[(head, k)] = 'lost'
                change = True
        if change:
            raise Restart()
        return None


def readers(ex):
    """functions whose loops read characters"""
    def cut(ex, st, f, args):
        return Reader(ex, f).run(st, args)
    from .irparse import parse_func
    for fs in list(ex.prog.bypretty.values()):
        for f in fs:
            if any('4next' in l for l in f.text):
                parse_func(f)
                if Reader(ex, f).cutheads:
                    ex.cuts[f.pretty] = cut


def lengths(u, F, n):
    """texts of the lengths F allows"""
    (m, _), = n.t.items()
    lo, hi = T.iv(F, n)
    ns = {lo, lo + 1, hi}
    env = witness.z3_models(F, 1, {m[0]: 'n'}, {}, 5000)
    if env:
        ns.add(env[m[0]])
    out = []
    for k in sorted(x for x in ns if x is not None and 0 < x <= 1 << 21):
        for s in ('0' * (k - 1) + '5', '9' * k, '4' * (k - 1) + 'x', 'x' + '4' * (k - 1)):
            v = from_str(s)
            out.append(Case('vp_fr_from_str', 'b', [S(s.encode()), O(32)], opt(None if v is None else enc_r(v))))
    return out


def str_root(u, ex, f):
    st = St()
    n = T.var('n', 0, (1 << 63) - 1)
    t = Text(ex, st, n, u)
    p = t.ptr

    early = []      # what is known of the text where the function returns without reading it all

    def find(F, c):
        out = []
        for G in early:
            out += lengths(u, G, n)
        pre = ['', '0', '7', '20', '9' * 40, str(R), str(R - 1), '1' + '0' * 90]
        chars = [v for env in witness.find(u, F, c, 4) for k, v in env.items() if k[0] == 'c'] + [48, 57, 47, 58, 0x660, 97, 0xFF11, 0x1D7D9]
        for ch in chars[:40]:
            for a in pre:
                for b in ('', '3'):
                    s = a + chr(ch) + b
                    v = from_str(s)
                    out.append(Case('vp_fr_from_str', 'b', [S(s.encode('utf8', 'surrogatepass')), O(32)], opt(None if v is None else enc_r(v))))
        return out
    u.find = find
    ex.contracts = dict(ex.contracts)
    ex.contracts[ITER] = t.next
    readers(ex)
    o = ex.new_obj(st, 32, 'out')
    for s, r in paths(u, ex, st, f, [p, n, o]):
        state = s.ghost['state']
        if state not in ('end', 'bad'):
            if state != 'first' or decide(s.F, ceq(s.F, n)) != 1:
                early.append(s.F.copy())
                raise Unsupported('a result before the end of the text')
        u.eq(ex, s, r, int(state != 'bad'), 'text is refused exactly for a character that is not a digit')
        if state != 'bad' and r == 1:
            k = canonical_post(u, ex, s, o, 'Fr')
            field_eq(u, ex, s, 'Fr', k, s.ghost['cur'], 'the scalar is the decimal value modulo r')
