"""Runs the contracts of one property on the IR of every build configuration it must hold in."""
import json
import os
import resource
import tempfile
import multiprocessing
import time
import traceback

from . import ground, roots
from .native import Native

BUDGET = {'quick': 420, 'thorough': 3000}
NATIVE = {'ir': 'native', 'ir-nodebug': 'native-nodebug', 'ir-borsh': 'native-borsh'}


def configs(pid, tier):
    return roots.CONFIGS.get(pid, [])


def confirm(cases, nat):
    """the first case on which the compiled code misbehaves"""
    from .diff import run
    for c in cases:
        bad, _ = run(nat, [c])
        if bad:
            c, r, m, _ = bad[0]
            return dict(c.json(), got=r if isinstance(r, str) else [r[0], [o.hex() for o in r[1]]], message=m)
    return None


def one(pid, tier, cfg, files, so, rng, res):
    from . import terms as T, unit
    from .irparse import Program
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    out = {'config': cfg, 'units': [], 'violations': [], 'error': None}
    try:
        P = Program(files)
        V = unit.Verifier(P, cfg, t0 + BUDGET[tier])
        V.tier = tier
        try:
            roots.PROPS[pid](V)
        except Exception:
            out['error'] = traceback.format_exc()
        nat = None
        for o in V.results:
            out['units'].append({'name': '%s [%s]' % (o.name, cfg), 'status': o.status, 'detail': o.detail, 'conditions': o.conditions,
                                 'root': o.root, 'seconds': round(o.seconds, 2)})
            if o.status != 'proved':
                v = None
                if o.cases and so:
                    nat = nat or Native(so, rng)
                    v = confirm(o.cases, nat)
                if v is not None:
                    out['units'][-1]['status'] = 'refuted'
                    out['violations'].append(('native', dict(v, config=NATIVE[cfg], obligation=o.name)))
                elif o.root and o.status == 'failed':
                    out['violations'].append(('nofail', {'obligation': o.name, 'config': cfg, 'message': o.detail,
                                                         'verifier_output': o.detail}))
        # a function whose contract is refuted by concrete values, in an entry point that could not be proved without it
        for o in V.results:
            if o.root or not o.model:
                continue
            for r in V.results:
                if r.root and r.status not in ('proved', 'absent') and o.fn in r.executed:
                    out['violations'].append(('nofail', {'obligation': o.name, 'config': cfg, 'message': o.detail, 'entry_point': r.name,
                                                         'values': o.model, 'verifier_output': o.detail}))
                    break
        if nat:
            nat.close()
        out['under'] = sorted(set(V.under))
        out['used'] = V.used
        out['inlined'] = sorted(V.inlined)
        out['assumed'] = sorted(getattr(V, 'assumed', ()))
        out['stats'] = dict(T.STATS)
    except Exception:
        out['error'] = traceback.format_exc()
    out['seconds'] = round(time.time() - t0, 1)
    with open(res + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(res + '.tmp', res)


TRUSTED = [
    'rustc 1.99 as a translator to LLVM IR at opt-level 0 (the IR that is verified) and its backend (the code that runs)',
    'the symbolic semantics of LLVM IR in vcir/exec.py, vcir/terms.py, vcir/merge.py and the polynomial arithmetic of vcir/fpoly.py',
    'z3 4.8 for linear integer side conditions',
    'the specification: vcir/spec.py and the contracts in vcir/*.py',
]


def run(pid, tier, built, stop=lambda: False):
    ctx = multiprocessing.get_context('fork')
    cfgs = configs(pid, tier)
    rs = []
    with tempfile.TemporaryDirectory(prefix='vcir') as tmp:
        ps = []
        for c in cfgs:
            f = os.path.join(tmp, c)
            p = ctx.Process(target=one, args=(pid, tier, c, built[c], built.get(NATIVE[c]), built['rng'], f))
            p.start()
            ps.append((c, p, f))
        end = time.time() + BUDGET[tier] + 90
        stopped = False
        while any(p.is_alive() for _, p, _ in ps) and time.time() < end and not stopped:
            time.sleep(0.2)
            stopped = stop()
        for c, p, f in ps:
            if p.is_alive():
                p.kill()
            p.join()
            if os.path.exists(f):
                rs.append(json.load(open(f)))
            else:
                rs.append({'config': c, 'units': [], 'violations': [], 'seconds': 0,
                           'error': 'stopped: the native run already found a failing input' if stopped else
                           'the verifier process ended without a result (exit code %s)' % p.exitcode})
    rs.sort(key=lambda r: cfgs.index(r['config']))
    obl = []
    viol = []
    for r in rs:
        if r['error']:
            obl.append({'name': 'verifier [%s]' % r['config'], 'status': 'undecided', 'detail': r['error'][-1500:], 'root': True, 'conditions': 0})
        obl += r['units']
        viol += r['violations']
    facts = ground.check(pid)
    obl += [{'name': 'ground fact: ' + k, 'status': 'proved' if ok else 'failed', 'detail': 'computation', 'root': False, 'conditions': 1} for k, ok, _ in facts]
    roots_ = [o for o in obl if o['root']]
    return {
        'obligations': obl, 'violations': viol,
        'coverage': {
            'roots': len(roots_), 'roots_proved': sum(o['status'] == 'proved' for o in roots_),
            'functions_under_contract': {r['config']: r.get('under', []) for r in rs},
            'contracts_dropped': [o['name'] + ': ' + o['detail'][:200] for o in obl if not o['root'] and o['status'] not in ('proved',)],
            'bodies_executed': len(set().union(*[r.get('inlined', []) for r in rs])),
            'solver': {r['config']: r.get('stats') for r in rs},
            'prover_s': {r['config']: r['seconds'] for r in rs},
            'units': [{k: o[k] for k in ('name', 'status', 'detail', 'conditions')} for o in obl],
            'trusted_base': TRUSTED,
        },
        'assumptions': ground.TEXTBOOK.get(pid, []) + sorted(set(a for r in rs for a in r.get('assumed', []))),
    }
