#!/usr/bin/env python
"""
check.py <property id> [--tier quick|thorough]      (run with /opt/venv/bin/python; see ./run)

1. parses /repo's current source, generates and discharges the obligations of the property's contracts (vc/);
2. runs the property's bounded stand-in / counterexample search on the real code (CPython, real numpy/iris), with the
   inputs taken from the verifier's models first;
3. reports.  Exit 0: held.  Exit 1: VIOLATION line.
"""
import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
import vc  # noqa
sys.setrecursionlimit(5000)

EVID = os.path.join(HERE, 'evidence')


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower())


def _unit_task(args):
    pid, i, cross, scale = args
    from vc import api
    try:
        u = load_prop(pid).UNITS[i]
        return api.run_unit(u, cross, scale)
    except BaseException as e:
        return dict(unit='%s[%d]' % (pid, i), status='undecided', error='engine: %r' % e, obligations=[], axioms=[],
                    functions=[], contracts=[], covers={}, paths=0, completed=0, solver_s=0, wall_s=0)


class Failure(Exception):
    """A concrete case on which the real code breaks the property."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg, self.sig = msg, sig


def run_case(mod, case):
    """None if the property holds on this case, else (message, signature)"""
    import numpy as np
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                r = mod.check(case)
    except MemoryError:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/cis/' in f.filename]
        return ('%s: %s raised (%s)' % (type(e).__name__, e, '%s:%s' % (os.path.basename(where[-1].filename),
                where[-1].name) if where else 'harness %s:%d' % (tb[-1].filename, tb[-1].lineno)),
                'raise:%s' % type(e).__name__)
    if r is None or r is True:
        return None
    if isinstance(r, tuple):
        return r
    return (str(r), None)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(pid, msg, sig):
    for f in known_findings():
        if f.get('property') == pid and f.get('status') == 'open' and sig is not None and f.get('signature') == sig:
            return f
    return None


def _search_task(args):
    """one shard of the bounded stand-in"""
    pid, shard, nshards, seed, tier, limit_s, scale = args
    t0 = time.time()
    out = dict(evaluations=0, nontrivial=0, keys=[], samples=[], failures=[], known={}, error=None)
    keys = set()
    try:
        mod = load_prop(pid)
        rng = random.Random('%s/%s/%s' % (pid, seed, shard))
        gen = mod.cases(rng, tier, scale)
        for n, case in enumerate(gen):
            if getattr(mod, 'ENUMERATED', False) and n % nshards != shard:
                continue
            if time.time() - t0 > limit_s:
                break
            out['evaluations'] += 1
            key = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
            if key not in keys and getattr(mod, 'nontrivial', lambda c: True)(case):
                keys.add(key)
                if len(out['samples']) < 2:
                    out['samples'].append(case)
            r = run_case(mod, case)
            if r is not None:
                k = match_known(pid, *r)
                if k is not None:
                    out['known'][k['signature']] = r[0]
                    continue
                out['failures'].append((case, r[0], r[1]))
                if len(out['failures']) >= 3:
                    break
    except BaseException as e:
        out['error'] = '%r\n%s' % (e, traceback.format_exc()[-2000:])
    out['keys'] = sorted(keys)
    out['wall_s'] = time.time() - t0
    return out


def main():
    if '--setup' in sys.argv:
        import z3
        from vc import shadow
        print('z3', z3.get_version_string(), '; cvc5:', os.popen('cvc5 --version').readline().strip())
        shadow.load('cis.data_io.gridded_data')
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--no-search', action='store_true')
    ap.add_argument('--units', default=None, help='only units whose name contains this')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property.upper(), 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    mod = load_prop(pid)
    if hasattr(mod, 'setup'):
        mod.setup()
    # import everything once, before forking
    if getattr(mod, 'UNITS', None):
        from vc import shadow
        for u in mod.UNITS:
            for f in u.functions:
                try:
                    shadow.load(f.split(':')[0])
                except BaseException as e:
                    print('note: cannot load %s: %r' % (f, e))
    nw = min(8, os.cpu_count() or 4)
    cross = tier == 'thorough'
    units = getattr(mod, 'UNITS', [])
    sel = [i for i, u in enumerate(units) if (a.units is None or any(x in u.name for x in a.units.split(","))) and
           (tier == 'thorough' or u.tier == 'quick')]
    nsh = getattr(mod, 'SHARDS', 4)
    limit = getattr(mod, 'LIMIT_S', 40) if tier == 'quick' else getattr(mod, 'LIMIT_THOROUGH_S', 240)
    scale = 1 if tier == 'quick' else 8
    has_search = hasattr(mod, 'cases') and not a.no_search
    ctx = mp.get_context('fork')
    with ctx.Pool(nw, maxtasksperchild=1) as pool:
        sr = [pool.apply_async(_search_task, ((pid, s, nsh, a.seed, tier, limit, scale),))
              for s in range(nsh)] if has_search else []
        ur = [pool.apply_async(_unit_task, ((pid, i, cross, 1.0 if tier == 'quick' else 3.0),)) for i in sel]
        results, shards = [], []
        end = t0 + 740
        while time.time() < end and not all(r.ready() for r in ur + sr):
            time.sleep(0.2)
            if end > time.time() + 90 and any(r.ready() and r.successful() and r.get()['failures'] for r in sr):
                end = time.time() + 90      # a failing input is known: the other units may stay undecided
        for i, r in zip(sel, ur):
            try:
                results.append(r.get(timeout=0.1))
            except mp.TimeoutError:
                results.append(dict(unit=units[i].name, status='undecided', error='timeout', obligations=[], axioms=[],
                                    functions=units[i].functions, contracts=[], covers={}, paths=0, completed=0,
                                    solver_s=0, wall_s=0))
        for r in sr:
            try:
                shards.append(r.get(timeout=0.1))
            except mp.TimeoutError:
                shards.append(dict(evaluations=0, keys=[], samples=[], failures=[], known={}, error='timeout'))
        # obligations which only ran out of solver time (the machine was busy): once more, on their own and for longer
        again = [k for k, r in enumerate(results) if r['status'] == 'undecided' and not r['error'] and
                 r['wall_s'] < 150 and any(o['status'] == 'unknown' for o in r['obligations'])]
        if again and len(again) <= 6 and time.time() - t0 < 400 and not any(s['failures'] for s in shards):
            rr = [(k, pool.apply_async(_unit_task, ((pid, sel[k], cross, 3.0),))) for k in again]
            for k, r in rr:
                try:
                    results[k] = r.get(timeout=max(5, 700 - (time.time() - t0)))
                except mp.TimeoutError:
                    pass
        pool.terminate()
    # counterexamples of refuted obligations, replayed on the real code
    refuted = [(r, o) for r in results for o in r['obligations'] if o['status'] == 'refuted']
    failures = []
    if hasattr(mod, 'from_model'):
        for r, o in refuted[:12]:
            try:
                cs = mod.from_model(r['unit'], o['name'], o['model'] or {})
            except Exception as e:
                cs = []
                if a.v:
                    traceback.print_exc()
            for case in cs or []:
                f = run_case(mod, case)
                if f is not None and match_known(pid, *f) is None:
                    failures.append((case, f[0], f[1], o['name']))
    for s in shards:
        failures += [tuple(f) + (None,) for f in s['failures']]
    problem = [r for r in results if r['status'] != 'discharged']
    if not failures and (refuted or problem) and has_search:
        # a failed (or undecided) obligation: search harder for an input that shows it
        with ctx.Pool(nw, maxtasksperchild=1) as pool:
            more = pool.map(_search_task, [(pid, 100 + s, nw, a.seed + 1, 'thorough', min(90, limit * 2), 6)
                                           for s in range(nw)])
        shards += more
        for s in more:
            failures += [tuple(f) + (None,) for f in s['failures']]
    known = {}
    for s in shards:
        known.update(s['known'])
    errors = [s['error'] for s in shards if s['error']]
    violations = 1 if failures or refuted else 0
    write_evidence(pid, tier, a.seed, mod, results, shards, violations, time.time() - t0, errors)
    for r in results:
        if a.v or r['status'] != 'discharged':
            print('unit %-60s %s  %d/%d obligations, %d paths, %.1fs %s' % (
                r['unit'], r['status'].upper(), sum(o['status'] == 'discharged' for o in r['obligations']),
                len(r['obligations']), r['paths'], r['wall_s'], (r['error'] or '')[:1500 if a.v else 300]))
            for o in r['obligations']:
                if o['status'] != 'discharged':
                    print('    %s: %s [%s]' % (o['name'], o['status'], o['backend']))
    for f in known_findings():
        if f.get('property') == pid and f.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for e in errors:
        print('search error: %s' % e)
    n_ob = sum(len(r['obligations']) for r in results)
    n_ok = sum(o['status'] == 'discharged' for r in results for o in r['obligations'])
    print('%s: %d/%d obligations discharged in %d units; %d concrete cases; %.1fs' % (
        pid, n_ok, n_ob, len(results), sum(s['evaluations'] for s in shards), time.time() - t0))
    if failures:
        case, msg, sig, ob = failures[0]
        ob = ob or (refuted[0][1]['name'] if refuted else None)
        path = write_replay(pid, dict(property=pid, case=case, failure=msg, signature=sig, obligation=ob,
                                      failed_obligations=[o for _, o in refuted][:5],
                                      undecided=[(r['unit'], r['error']) for r in problem]))
        print('failed: %s' % msg[:700])
        if ob:
            print('failed obligation: %s' % ob)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if refuted:
        path = write_replay(pid, dict(property=pid, case=None, obligation=refuted[0][1]['name'],
                                      failed_obligations=[o for _, o in refuted][:10]))
        print('failed obligation: %s' % refuted[0][1]['name'])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    if sel and a.units is None and n_ob == 0 and not has_search:
        print('no obligations generated')
        return 3
    if errors:
        return 3
    return 0


def write_replay(pid, d):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    s = json.dumps(d, indent=1, default=str)
    p = os.path.join(EVID, 'replay', '%s-%s.json' % (pid, hashlib.md5(s.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(s)
    return p


def write_evidence(pid, tier, seed, mod, results, shards, violations, wall, errors):
    os.makedirs(EVID, exist_ok=True)
    obl = [o for r in results for o in r['obligations']]
    backends = {}
    for o in obl:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    keys = set()
    for s in shards:
        keys.update(s['keys'])
    samples = [c for s in shards for c in s['samples']][:3]
    ev = sum(s['evaluations'] for s in shards)
    bounded = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=getattr(mod, 'RULE', ''), samples=samples,
                   functions=getattr(mod, 'BOUNDED_FUNCTIONS', []), label='bounded: never counted as proved',
                   errors=errors)
    from vc import shadow
    level = mod.LEVEL
    proof = dict(
        obligations=len(obl), discharged=sum(o['status'] == 'discharged' for o in obl),
        checker_cmd='./run %s --tier %s -v' % (pid, tier),
        trusted_base=sorted({x for r in results for x in r['axioms']}) + [
            'z3 %s (cvc5 1.1.2 for queries z3 leaves open%s)' % (_z3v(), '; both on every query' if tier == 'thorough'
                                                               else ''),
            'the VC generator /verif/vc (AST transformation, models of numpy/numpy.ma/math)', 'CPython 3.12'],
        functions_under_contract=sorted({f for r in results for f in r['functions']}),
        callee_contracts=sorted({f for r in results for f in r['contracts']}),
        backends=backends, solver_s=round(sum(r['solver_s'] for r in results), 2),
        units=[dict(unit=r['unit'], status=r['status'], obligations=len(r['obligations']),
                    discharged=sum(o['status'] == 'discharged' for o in r['obligations']), paths=r['paths'],
                    reachable=r['covers'], error=(r['error'] or '')[:400]) for r in results],
        named_obligations=sorted({o['name'] for o in obl})[:200],
        sources={k: v[:16] for k, v in sorted(shadow.SOURCES.items())
                 if any(f.split(':')[0] == k for r in results for f in r['functions'])})
    if level == 'proof':
        cov = dict(proof, bounded=bounded)
    elif level in ('exploration', 'fault_enumeration'):
        cov = dict(bounded, proof=proof)
    else:
        cov = dict(explanation=mod.NOTE, proof=proof, bounded=bounded)
    d = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=violations)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
