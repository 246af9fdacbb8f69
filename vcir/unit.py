"""Verification units: one function (or public root) under contract, executed symbolically over every input that
satisfies its precondition; every panic, every callee precondition and every postcondition is an obligation."""
import os
import random
import time
import traceback

from . import fpoly as FP, terms as T
from .exec import field_absurd, AmbigUse, Ambig, Dead, El, Ex, Failure, PathLimit, St, UNDEF, decide, isptr, poff, SIZES
from .terms import Facts, NOFACTS, Poly, Unsupported, add_fact, cneg, limbs, padd, proves, pscale, psub

M64 = (1 << 64) - 1
W256 = 1 << 256


class NotCanonical(Exception):
    pass


def total(ex, st, p, n=4):
    """the integer held by n little-endian words at p"""
    o = ex.obj(st, p)
    x = o.cells.get(poff(p))
    if x is not None and x[0] == 8 * n:
        v = x[1]
        if isinstance(v, Ambig):
            raise AmbigUse(v.label)
        if isinstance(v, El):
            if v.sort == 'W':
                return ex.simp(st, v.v)
            if v.sort in ('Fr', 'Fq'):
                return FP.raw(v.v)
    r = 0
    for k in range(n):
        v = ex.load_n(st, p + 8 * k, 8)
        if v is UNDEF:
            raise Unsupported('uninitialised word read')
        if isinstance(v, Ambig):
            raise AmbigUse(v.label)
        if not isinstance(v, (int, Poly)):
            raise Unsupported('word %r' % (v,))
        r = padd(r, pscale(v, 1 << (64 * k)))
    return r


def put_total(ex, st, p, v, n=4):
    """store an integer known to be in [0, 2^(64n))"""
    o = ex.wobj(st, p)
    off = poff(p)
    ex.bounds(st, o, off, 8 * n, 'store')
    ex.clear(st, o, off, 8 * n)
    o.cells[off] = (8 * n, El('W', v))


def new_words(ex, st, nm, hi=None, n=4, lo=0):
    """an object of n words holding a fresh integer in [lo, hi]"""
    N = T.var(nm, lo, (1 << (64 * n)) - 1 if hi is None else hi)
    p = ex.new_obj(st, 8 * n, nm)
    put_total(ex, st, p, N, n)
    return N, p


class Ob:
    """outcome of one unit (one function or root under contract)"""
    __slots__ = ('name', 'status', 'detail', 'conditions', 'open', 'root', 'seconds', 'cases', 'fn', 'model', 'executed')

    def __init__(self, name, status, detail, conditions, root, seconds, cases=()):
        self.name, self.status, self.detail, self.conditions, self.root, self.seconds = name, status, detail, conditions, root, seconds
        self.cases = list(cases)
        self.fn, self.model, self.executed = None, None, set()


class Unit:
    """collects the obligations met while verifying one function"""

    def __init__(self, ver, name, fn):
        self.ver, self.name, self.fn = ver, name, fn
        self.count = 0
        self.fails = []        # (what, Facts, condition that may hold though it must not, detail)
        self.paths = 0
        self.inputs = []       # (atom or poly, name): what a witness assigns
        self.finputs = []      # (atom id, name) of field inputs
        self.fcase = None      # {name: pair} -> native case, or None
        self.points = []       # ids of the coordinates of the input points
        self.find = None       # (facts, condition) -> more native cases
        self.case = None       # {name: value} -> native case, or None

    def post(self, ex, st, c, what):
        """c must hold at this point"""
        self.count += 1
        r = decide(st.F, c) if isinstance(c, tuple) else (1 if c else 0)
        if r == 1:
            return True
        if proves(st.F, c, 20000, True):
            return True
        try:
            if field_absurd(st.F):
                return True
        except Unsupported:
            pass
        self.fails.append((what, st.F.copy(), cneg(c) if isinstance(c, tuple) else 1, 'postcondition "%s" not established' % what))
        return False

    def eq(self, ex, st, a, b, what):
        """two integers agree"""
        d = psub(a, b)
        if not isinstance(d, Poly):
            return self.post(ex, st, int(d == 0), what)
        d = ex.simp(st, d)
        if not isinstance(d, Poly):
            return self.post(ex, st, int(d == 0), what)
        try:
            e = T.expand_names(d, 20000)
        except Unsupported:
            e = d
        if e == 0:
            return self.post(ex, st, 1, what)
        return self.post(ex, st, T.ceq(st.F, d), what)

    def feq(self, ex, st, a, b, what):
        """two field elements agree"""
        d = FP.sub(a, b)
        if not d.t:
            return self.post(ex, st, 1, what)
        return self.post(ex, st, ('feq', d), what)


class Verifier:
    def __init__(self, prog, config, deadline):
        self.prog, self.config, self.deadline = prog, config, deadline
        self.contracts = {}
        self.results = []          # Ob
        self.status = {}           # unit -> proved|refuted|undecided|absent
        self.under = []            # functions under contract
        self.times = {}
        self.inlined = set()
        self.used = {}
        self.undecided_paths = []

    def executor(self, budget):
        ex = Ex(self.prog, self.contracts, deadline=min(self.deadline, time.time() + budget))
        return ex

    def find(self, pretty):
        l = self.prog.bypretty.get(pretty, [])
        return l

    def unit(self, name, fn, body, contract=None, budget=60, root=False, need=True):
        """body(u, ex, f): sets the inputs up, calls f and checks; every instance of fn in the program is verified.
        A helper whose contract fails is executed in its callers instead; a root decides a property."""
        fs = self.find(fn)
        if not fs:
            self.status[name] = 'absent'
            if root:
                self.results.append(Ob(name, 'undecided', 'no function ' + fn, 0, root, 0))
            return 'absent'
        t0 = time.time()
        status, detail, cases = 'proved', '', []
        saved = self.contracts.pop(fn, None)
        nob = npath = 0
        model, executed = None, set()
        for f in fs:
            control, until = {}, None
            for again in range(8):
                u = Unit(self, name, fn)
                ex = self.executor(budget)
                ex.control = control
                until = ex.deadline = min(ex.deadline, until or ex.deadline)
                T.DEADLINE[0] = ex.deadline
                try:
                    body(u, ex, f)
                except AmbigUse as e:
                    err = e
                    # a place that was joined is read after the function that joined it: keep it apart there
                    if isinstance(e.label, tuple) and e.label[0] in control and e.label[1:] not in control[e.label[0]]:
                        control[e.label[0]].add(e.label[1:])
                        continue
                except (Unsupported, PathLimit, RecursionError, MemoryError, NotCanonical) as e:
                    err = e
                else:
                    err = None
                break
            try:
                if err is not None:
                    raise err
                if u.count + ex.obl == 0:
                    raise Unsupported('no obligation was generated')
                if not u.paths:
                    raise Unsupported('no path returns')
            except (Unsupported, PathLimit, AmbigUse, RecursionError, MemoryError) as e:
                if status == 'proved':
                    status = 'undecided'
                    detail = '%s: %s' % (type(e).__name__, e)
                if os.environ.get('VP_TRACE'):
                    traceback.print_exc()
                    print('  in', ' < '.join(reversed(ex.stack[-6:])))
            except NotCanonical:
                status, detail = 'undecided', 'an operand is not known to be canonical'
            finally:
                T.DEADLINE[0] = float('inf')
            self.inlined.update(ex.inlined)
            executed.update(ex.inlined)
            for k, n in ex.used.items():
                self.used[k] = self.used.get(k, 0) + n
            fails = [(fl.kind, fl.F, fl.hint if fl.hint is not None else 1, '%s at %s' % (fl.msg, fl.where)) for fl in ex.fails] + u.fails
            nob += u.count + ex.obl
            npath += u.paths
            wend = time.time() + 30
            for what, F, c, d in fails:
                if status != 'failed':
                    status, detail = 'failed', '%s: %s' % (what, d)
                if not root and model is None and time.time() < wend:
                    m = self.model(u, F, c)
                    if m is not None:
                        model = dict(m, condition='%s: %s' % (what, d))
                if (u.case or u.fcase or u.find) and len(cases) < 40 and time.time() < wend:
                    cases += self.witness(u, F, c)
        sec = time.time() - t0
        if status == 'proved':
            detail = '%d conditions on %d paths' % (nob, npath)
            self.under.append(fn)
            if contract is not None:
                self.contracts[fn] = contract
        elif status == 'failed' and again:
            # the joins that were kept apart lost more than the condition needs: no verdict without an input
            status, detail = 'undecided', 'after a restart: ' + detail
        if status != 'proved' and root and (u.case or u.fcase or u.find) and not cases:
            cases += self.witness(u, NOFACTS, 1)
        o = Ob('%s: %s' % (name, fn), status, detail[:1500], nob, root, sec, cases)
        o.fn, o.model, o.executed = fn, model if status == 'failed' else None, executed
        self.results.append(o)
        self.status[name] = status
        self.times[name] = sec
        return status

    def root(self, name, fn, body, budget=120):
        return self.unit(name, fn, body, None, budget, True)

    def model(self, u, F, c):
        from . import witness
        try:
            return witness.counterexample(u, F, c)
        except (Unsupported, ValueError, ZeroDivisionError, KeyError):
            return None

    def witness(self, u, F, c):
        from . import witness
        out = []
        try:
            if u.find is not None:
                out += u.find(F, c)
            if u.fcase is not None:
                for env in witness.ffind(u, F, c):
                    out += cases_of(u.fcase(env))
            for env in witness.find(u, F, c) if u.case else ():
                out += cases_of(u.case(env))
        except (Unsupported, ValueError, ZeroDivisionError, KeyError):
            pass
        return out


def cases_of(k):
    return [] if k is None else k if isinstance(k, list) else [k]


def paths(u, ex, st, f, args):
    """run f; yields the final states"""
    res = ex.function(st, f, args)
    u.paths += len(res)
    return res
