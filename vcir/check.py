"""The check of one property:  python3-vt -m vcir.check C01 [--thorough] [--skip-native|--skip-proof]

1. builds the IR and the native libraries from the repository's working tree,
2. discharges the obligations of the property's contracts on that IR (prove.py),
3. runs the property's cases on the native code: it confirms failed obligations on a concrete input, and it is the
   bounded stand-in for obligations the prover leaves undecided.
Exit 0, or 1 with a VIOLATION line; anything else is a failure of the check itself."""
import argparse
import json
import multiprocessing
import os
import queue
import random
import sys
import time
import traceback

from . import build, diff
from .native import Native

HERE = build.HERE
LEVEL = {}
EVID = os.environ.get('VP_EVIDENCE', os.path.join(HERE, 'evidence'))


def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:'):
                out.append(l)
    return out


def native_run(pid, seed, scale, built, cfgs, q):
    """in a child process: the native cases; puts a summary"""
    res = []
    gen, n = diff.PROPS[pid]
    for cfg in cfgs:
        t = time.time()
        nat = Native(built[cfg], built['rng'])
        try:
            cases = diff.again(random.Random(seed), gen(random.Random(seed), int(n * scale)))
            if cfg.endswith('borsh'):       # the second format is serde's
                cases = [c for c in cases if not c.fn.startswith('vp_rth_')]
            bad, k = diff.run(nat, cases)
        finally:
            nat.close()
        res.append({'config': cfg, 'cases': k, 'distinct': len({json.dumps(c.json(), sort_keys=True) for c in cases[:k]}),
                    'seconds': round(time.time() - t, 1),
                    'samples': [c.json() for c in random.Random(seed).sample(cases, min(3, len(cases)))],
                    'bad': [dict(c.json(), config=cfg, got=r if isinstance(r, str) else [r[0], [o.hex() for o in r[1]]], message=m,
                                     before=[b.json() for b in h])
                            for c, r, m, h in bad]})
    q.put(res)


def guarded(f, *a):
    q = a[-1]
    try:
        f(*a)
    except Exception:
        q.put('ERROR ' + traceback.format_exc())


def write_replay(pid, name, data):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, name))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--skip-proof', action='store_true')
    ap.add_argument('--skip-native', action='store_true')
    ap.add_argument('--no-build', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        from . import prove
    except ImportError:
        prove = None
    ncfg = diff.CONFIGS.get(pid, ['native', 'native-nodebug'])
    icfg = prove.configs(pid, tier) if prove and not a.skip_proof else []
    if a.no_build:
        built = build.existing(ncfg + icfg)
    else:
        built = build.build(ncfg + icfg)
    built['rng'] = build.rng_lib()
    tb = time.time() - t0
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    child = None
    if not a.skip_native:
        child = ctx.Process(target=guarded, args=(native_run, pid, seed if tier == 'quick' else seed + 1000,
                                                  1 if tier == 'quick' else 12, built, ncfg, q))
        child.start()
    proof = None
    native = []
    early = []

    def stop():
        """a failing input settles the property: no need to wait for the proof attempt"""
        if child and not early:
            try:
                early.append(q.get_nowait())
            except queue.Empty:
                pass
        return bool(early) and not isinstance(early[0], str) and any(r['bad'] for r in early[0])
    if icfg:
        proof = prove.run(pid, tier, built, stop)
    if child:
        native = early[0] if early else None
        end = time.time() + (300 if tier == 'quick' else 3000)
        while native is None and time.time() < end:
            try:
                native = q.get(timeout=1)
            except queue.Empty:
                if not child.is_alive():
                    try:
                        native = q.get(timeout=1)
                    except queue.Empty:
                        native = 'ERROR the native run ended without a result'
        if child.is_alive():
            child.kill()
        child.join()
        if native is None or isinstance(native, str):
            print(native or 'ERROR the native run hit its time limit')
            native = []
    violations = []
    for r in native:
        for b in r['bad']:
            violations.append(('native', b))
    obligations = proof['obligations'] if proof else []
    if proof:
        violations += [(k, d) for k, d in proof['violations']]
    violations.sort(key=lambda v: v[0] == 'nofail')       # an input that fails comes first
    lines = []
    if violations:
        kind, data = violations[0]
        failed = [o for o in obligations if o['root'] and o['status'] != 'proved']
        data = dict(data, failed_obligations=[{k: o[k] for k in ('name', 'status', 'detail')} for o in failed][:20],
                    how='python3-vt -m vcir.replay <this file> runs the call on the code built from /repo')
        p = write_replay(pid, 'violation', data)
        tail = ' no-failing-input-found' if kind == 'nofail' else ''
        for o in failed[:5]:
            print('failed obligation: %s: %s' % (o['name'], str(o['detail'])[:400]))
        if kind != 'nofail':
            print('failing input: %s' % json.dumps({k: data[k] for k in ('fn', 'args', 'rng', 'note', 'config', 'message') if k in data})[:1500])
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, p, tail))
    for k in known():
        if 'property=%s ' % pid in k:
            print(k)
    wall = time.time() - t0
    ncases = sum(r['cases'] for r in native)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'wall_s': round(wall, 1), 'violations': len(violations)}
    if proof:
        ev['level'] = LEVEL.get(pid, 'proof')
        ev['coverage'] = dict(proof['coverage'])
        nob = sum(o['conditions'] for o in obligations)
        ev['coverage'].update({
            'obligations': nob, 'discharged': sum(o['conditions'] for o in obligations if o['status'] == 'proved'),
            'undecided': [o['name'] for o in obligations if o['root'] and o['status'] == 'undecided'],
            'refuted': [o['name'] for o in obligations if o['root'] and o['status'] in ('refuted', 'failed')],
            'checker_cmd': 'python3-vt -m vcir.check %s' % pid,
            'bounded_stand_in': 'native runs below; they decide nothing that is counted as discharged',
            'native_cases': ncases, 'native': [{k: r[k] for k in ('config', 'cases', 'distinct', 'seconds')} for r in native]})
        ev['assumptions'] = proof['assumptions']
    else:
        ev['level'] = 'exploration'
        ev['coverage'] = {'evaluations': ncases, 'distinct_nontrivial': sum(r['distinct'] for r in native),
                          'rule': 'structured inputs (limb patterns, group-law corner cases, extreme exponents) on the natively compiled '
                                  'public API against the big-integer specification; distinct = different call or arguments',
                          'samples': [s for r in native for s in r['samples']][:3],
                          'configs': [{k: r[k] for k in ('config', 'cases', 'distinct', 'seconds')} for r in native]}
    ev['coverage']['build_s'] = round(tb, 1)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if proof:
        for o in [o for o in obligations if o['root'] and o['status'] == 'undecided'][:5]:
            print('undecided: %s: %s' % (o['name'], str(o['detail'])[:300]))
        c = ev['coverage']
        print('%s: %d of %d roots proved, %d of %d conditions, %d undecided, %d refuted; %d native cases; %.0f s' % (
            pid, c['roots_proved'], c['roots'], c['discharged'], c['obligations'], len(c['undecided']), len(c['refuted']), ncases, wall))
    else:
        print('%s: %d native cases; %.0f s' % (pid, ncases, wall))
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


if __name__ == '__main__':
    main()
