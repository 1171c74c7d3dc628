"""python3 mkseed.py DEFFILE -- builds seeded/<id>/ from definition files and confirms them in a scratch copy.

A definition is a python dict: id, property, file, old, new (or edits: [(file, old, new)...]), needs, breaks, demo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for d in ns['SEEDS']:
        if len(sys.argv) > 2 and d['id'] not in sys.argv[2:]:
            continue
        w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        r = w + '/repo'
        sh('cp -a /repo %s' % r, '/')
        edits = d.get('edits') or [(d['file'], d['old'], d['new'])]
        ok = True
        for f, o, n in edits:
            s = open(r + '/' + f).read()
            if s.count(o) != 1:
                print(d['id'], 'edit matches %d times: %r' % (s.count(o), o))
                ok = False
                break
            open(r + '/' + f, 'w').write(s.replace(o, n))
        if not ok:
            shutil.rmtree(w)
            continue
        out = os.path.join(HERE, 'seeded', d['id'])
        os.makedirs(out, exist_ok=True)
        diff = sh('git diff', r).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
        a = sh('%s/demo.sh' % out, '/repo')
        b = sh('%s/demo.sh' % out, r)
        t = sh('sed "s#/repo#%s#g" /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/out.json' % (r, w, w, w), w)
        try:
            res = json.load(open(w + '/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            passed = set(res.get('passed') or [k for k, v in res.items() if v in ('pass', 'passed', True)])
            stable = base.get('stable') or base.get('passed') or base.get('tests') or base
            miss = [x for x in stable if x not in passed]
        except Exception as e:
            miss = ['%s %s' % (e, t.stderr[-300:])]
        good = a.returncode == 0 and b.returncode != 0 and not miss
        print(d['id'], 'OK' if good else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'broken tests', miss[:3], '' if good else (a.stdout + a.stderr)[-300:])
        if not good:
            shutil.rmtree(out)
        shutil.rmtree(w)


main()
