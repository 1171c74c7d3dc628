#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough] [--replay FILE]

Re-extracts the functions under contract from /repo's current source, generates
and discharges every proof obligation, runs the executable contracts on the
real code, writes evidence/<PROP>.json and prints the verdict.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = sys.executable
TRUSTED = [
    'CPython executes the instrumented functions as it executes the originals (pyvc/instr.py lists the only rewrites)',
    'pyvc: path exploration, symbolic values and the arithmetic axioms of pyvc/core.py (powers of two, Euclidean division, products, bitwise or)',
    'SMT solvers z3 and cvc5 (an unsat answer)',
    'Python integers are mathematical integers; object identity and hashing behave as documented',
]


T_END = [None]


def run_job(job):
    kind, name, limit = job
    if T_END[0]:
        limit = min(limit, max(8, T_END[0] - time.time()))
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(TimeLimit()))
    signal.alarm(int(limit))
    t0 = time.time()
    try:
        if kind == 'unit':
            u = [x for x in MOD.UNITS if x.name == name][0]
            r = u.run(deadline=time.time() + limit - 5)
            r['kind'] = 'unit'
            return r
        from pyvc.contract import Lemma
        obls = Lemma.ALL[name].prove()
        return dict(kind='lemma', unit='lemma ' + name, error=None, paths=0, wall=time.time() - t0,
                    solver_time=sum(o.secs for o in obls), covers={}, called=[], applied=[], trusted=[], loops_cut=[],
                    targets=[], lemmas=[],
                    obls=[dict(name=o.name, status=o.status, secs=o.secs, backend=o.backend, detail=o.detail,
                               model=None, where='') for o in obls])
    except TimeLimit:
        return dict(kind=kind, unit=name, error='time limit of %d s' % limit, paths=0, wall=time.time() - t0, obls=[],
                    covers={}, called=[], applied=[], trusted=[], loops_cut=[], targets=[], lemmas=[], solver_time=0)
    except BaseException as e:
        return dict(kind=kind, unit=name, error='error: %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:]),
                    paths=0, wall=time.time() - t0, obls=[],
                    covers={}, called=[], applied=[], trusted=[], loops_cut=[], targets=[], lemmas=[], solver_time=0)
    finally:
        signal.alarm(0)


class TimeLimit(BaseException):
    pass


MOD = None


def run_jobs(jobs, nproc=8):
    if not jobs:
        return []
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(run_job, jobs))


def prove(prop, tier):
    global MOD
    from pyvc import instr, hooks, core
    instr.install(hooks._V, hooks.BUILTINS)
    err = None
    try:
        for m in ('hachoir.stream', 'hachoir.field', 'hachoir.core.bits', 'hachoir.core.dict', 'hachoir.core.tools'):
            importlib.import_module(m)
        MOD = importlib.import_module('contracts.' + prop.lower())
        for m in getattr(MOD, 'IMPORTS', []):
            importlib.import_module(m)
        for s in getattr(MOD, 'SETUP', []):
            s()
    except BaseException as e:
        return None, 'the module under proof cannot be loaded: %s: %s' % (type(e).__name__, e)
    limit = 420 if tier == 'quick' else 500
    T_END[0] = time.time() + (540 if tier == 'quick' else 660)
    if tier != 'quick':
        core.RT.timeout = 20000
    units = run_jobs([('unit', u.name, limit) for u in MOD.UNITS])
    from pyvc.contract import Lemma
    need = set()
    for u in units:
        need |= set(u['lemmas'])
    need |= set(getattr(MOD, 'LEMMAS', []))
    # lemmas used by lemmas: prove every lemma of the same content/family
    fam = {n.split(':')[0] for n in need}
    need |= {n for n in Lemma.ALL if n.split(':')[0] in fam}
    lem = run_jobs([('lemma', n, 60) for n in sorted(need)])
    return units + lem, None


def concrete(prop, seed, budget, tier, hints=None, nproc=1, replay=None):
    env = dict(os.environ, PYTHONPATH=HERE + ':' + REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
    procs = []
    hf = None
    if hints:
        hf = os.path.join(HERE, 'evidence', '.%s.hints.json' % prop)
        with open(hf, 'w') as f:
            json.dump(hints, f, default=str)
    for k in range(nproc):
        cmd = [PY, '-m', 'pyvc.concrete', prop, '--seed', str(seed + 1000 * k), '--budget', str(budget), '--tier', tier]
        if hf:
            cmd += ['--hints', hf]
        if replay:
            cmd += ['--replay', replay]
        procs.append(subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
    outs = []
    for p in procs:
        try:
            o, _ = p.communicate(timeout=budget * 3 + 120)
            outs.append(json.loads(o.decode().strip().splitlines()[-1]))
        except Exception as e:
            p.kill()
            outs.append(dict(evaluations=0, distinct=0, failures=[], samples=[], kinds={}, known_hits={},
                             crashed='%s: %s' % (type(e).__name__, e)))
    if hf:
        os.unlink(hf)
    return outs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if a.replay:
        r = json.load(open(a.replay))
        if 'case' not in r:
            print('the replay file names failed obligations, re-running the proofs')
        else:
            o = concrete(prop, seed, 60, a.tier, replay=a.replay)[0]
            if o['failures']:
                print('VIOLATION property=%s replay=%s' % (prop, a.replay))
                print(o['failures'][0]['message'])
                return 1
            print('the case no longer fails')
            return 0
    t0 = time.time()
    has_exe = os.path.exists(os.path.join(HERE, 'exe', prop.lower() + '.py'))
    results, err = prove(prop, a.tier)
    t_proof = time.time() - t0
    failed = []
    obl = dis = 0
    backends = {}
    funcs, assumed, applied, lem_used, loops = set(), set(), set(), set(), set()
    hints = []
    secs = 0.0
    if results is None:
        failed.append(dict(name='extraction', status='error', detail=err))
        results = []
    for r in results:
        if r['error']:
            failed.append(dict(name=r['unit'], status='unsupported', detail=r['error']))
            hints.append(dict(unit=r['unit'], model={}))
        n = len(r['obls'])
        if n == 0 and not r['error']:
            failed.append(dict(name=r['unit'], status='vacuous', detail='no obligation was generated'))
        for k, v in r['covers'].items():
            if v == 'unsat':
                failed.append(dict(name=k, status='vacuous', detail='this point is unreachable under the precondition'))
        for o in r['obls']:
            obl += 1
            if o['status'] == 'proved':
                dis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                failed.append(o)
                hints.append(dict(unit=r['unit'], model=o['model'] or {}, name=o['name']))
        funcs |= set(r['targets']) | set(r['called'])
        assumed |= set(r['trusted'])
        applied |= set(r['applied'])
        loops |= set(r['loops_cut'])
        secs += r['solver_time']
    exe = []
    if has_exe:
        quick = a.tier == 'quick'
        if failed:
            exe = concrete(prop, seed, 45 if quick else 120, a.tier, hints, nproc=8)
        else:
            exe = concrete(prop, seed, 12 if quick else 90, a.tier, None, nproc=2 if quick else 8)
    viol = None
    crashed = [o['crashed'] for o in exe if o.get('crashed')]
    for o in exe:
        for f in o['failures']:
            viol = viol or f
    known_hits = {}
    for o in exe:
        known_hits.update(o.get('known_hits') or {})
    wall = time.time() - t0
    replay = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
    mod = MOD
    ev = dict(property=prop, tier=a.tier, seed=seed, level='proof',
              coverage=dict(
                  obligations=obl, discharged=dis,
                  checker_cmd='python3-vt check.py %s --tier %s' % (prop, a.tier),
                  trusted_base=TRUSTED + ['assumed contract: ' + x for x in sorted(assumed)] +
                  list(getattr(mod, 'ASSUMPTIONS', [])),
                  backends=backends, solver_seconds=round(secs, 2),
                  functions_under_contract=sorted(funcs),
                  callees_used_by_contract=sorted(applied),
                  loops_with_invariant=sorted(loops),
                  proof_units=[dict(unit=r['unit'], paths=r['paths'], obligations=len(r['obls']),
                                    wall_s=round(r['wall'], 2), error=r['error'], reachable=r['covers'])
                               for r in results if r.get('kind') == 'unit'],
                  lemmas=[r['unit'] for r in results if r.get('kind') == 'lemma'],
                  executable_contract=dict(
                      note='the same contracts evaluated on the real code; cross-check and search for a failing input, never counted as proved',
                      evaluations=sum(o['evaluations'] for o in exe),
                      distinct_nontrivial=sum(o['distinct'] for o in exe),
                      kinds={k: sum(o['kinds'].get(k, 0) for o in exe) for o in exe for k in o['kinds']},
                      samples=[s for o in exe for s in o['samples']][:3]),
                  bounded=list(getattr(mod, 'BOUNDED', []))),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              violations=0, wall_s=round(wall, 2))
    rc = 0
    if viol or failed or crashed:
        rc = 1
    ev['violations'] = 1 if rc else 0
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)).get('findings', []):
            if k['property'] == prop and (k['key'] in known_hits):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if a.v or rc:
        for r in results:
            if r.get('kind') == 'unit':
                print('  unit %-40s paths %4d obligations %4d %6.1fs %s' % (
                    r['unit'], r['paths'], len(r['obls']), r['wall'], (r['error'] or '').splitlines()[:1]))
    print('%s: %d obligations, %d discharged (%s), %d functions, proof %.1fs, solver %.1fs; executable contracts: %d cases' % (
        prop, obl, dis, backends, len(funcs), t_proof, secs, sum(o['evaluations'] for o in exe)))
    if rc:
        for o in failed[:15]:
            print('  FAILED %s [%s] %s' % (o['name'], o['status'], str(o.get('detail', ''))[:300].replace('\n', ' ')))
        if viol:
            with open(replay, 'w') as f:
                json.dump(dict(property=prop, case=viol['case'], message=viol['message'], key=viol['key'],
                               failed_obligations=[o['name'] for o in failed],
                               rerun='python3-vt /verif/check.py %s --replay <this file>' % prop), f, indent=1, default=str)
            print('  failing input: %s\n  %s' % (json.dumps(viol['case'], default=str)[:600], viol['message']))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            with open(replay, 'w') as f:
                json.dump(dict(property=prop, failed_obligations=failed, crashed=crashed), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
    return rc


if __name__ == '__main__':
    sys.exit(main())
