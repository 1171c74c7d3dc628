"""Runs the executable side of the contracts on the real, unmodified code.

usage: python3-vt -m pyvc.concrete PROP --seed N --budget SECS [--hints FILE] [--replay FILE]
prints one JSON object on the last line.
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('PYVC_REPO', '/repo')


class CaseTimeout(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--hints')
    ap.add_argument('--replay')
    ap.add_argument('--max-fail', type=int, default=1)
    a = ap.parse_args()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    out = os.fdopen(os.dup(1), 'w')
    # the code under test may print: keep stdout for the result
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('PYVC_DEBUG'):
        os.dup2(devnull, 2)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    import hachoir.core.config as config
    config.quiet = True
    try:
        from hachoir.core.log import log
        log.use_print = False
    except Exception:
        pass
    mod = importlib.import_module('exe.' + a.prop.lower())
    case_timeout = getattr(mod, 'CASE_TIMEOUT', 10)
    has_alarm = not getattr(mod, 'USES_ALARM', False)

    def onalarm(*_):
        raise CaseTimeout()
    if has_alarm:
        signal.signal(signal.SIGALRM, onalarm)

    def one(case):
        try:
            if has_alarm:
                signal.setitimer(signal.ITIMER_REAL, case_timeout)
            return mod.run_case(case)
        except CaseTimeout:
            return 'no answer within %d s' % case_timeout
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return 'unexpected %s: %s (at %s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
        finally:
            if has_alarm:
                signal.setitimer(signal.ITIMER_REAL, 0)
    keyf = getattr(mod, 'key', lambda c, m: json.dumps(c, sort_keys=True))
    res = dict(evaluations=0, distinct=0, failures=[], samples=[], kinds={})
    if a.replay:
        case = json.load(open(a.replay))['case']
        m = one(case)
        res['evaluations'] = 1
        if m:
            res['failures'].append(dict(case=case, message=m, key=keyf(case, m)))
        out.write(json.dumps(res) + '\n')
        out.flush()
        os._exit(0)
    hints = []
    if a.hints:
        hints = json.load(open(a.hints))
    known = set()
    kf = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    known_hits = {}
    if os.path.exists(kf):
        for k in json.load(open(kf)).get('findings', []):
            if k['property'] == a.prop:
                known.add(k['key'])
                if 'case' in k:
                    m = one(k['case'])
                    if m and keyf(k['case'], m) == k['key']:
                        known_hits[k['key']] = m
    res['known_hits'] = known_hits
    rng = random.Random(a.seed)
    t0 = time.time()
    seen = set()
    for case in mod.cases(rng, a.tier, hints):
        if time.time() - t0 > a.budget:
            break
        m = one(case)
        res['evaluations'] += 1
        h = hash(json.dumps(case, sort_keys=True, default=str))
        if h not in seen:
            seen.add(h)
            k = case.get('k', '?') if isinstance(case, dict) else '?'
            res['kinds'][k] = res['kinds'].get(k, 0) + 1
            if len(res['samples']) < 3 and rng.random() < 0.2:
                res['samples'].append(case)
        if m:
            k = keyf(case, m)
            if k in known:
                known_hits.setdefault(k, m)
                continue
            res['failures'].append(dict(case=case, message=m, key=k))
            if len(res['failures']) >= a.max_fail:
                break
    res['distinct'] = len(seen)
    res['wall'] = time.time() - t0
    out.write(json.dumps(res, default=str) + '\n')
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
