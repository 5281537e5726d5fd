#!/usr/bin/env python3
"""Evaluate the planted changes in /verif/seeded: python3 tools/seeded.py [--skip-tests] [--also P,Q] ID...

For each: apply to /repo, build, run the stable tests, the demonstration (with and without the change) and the quick check of
its property; undo. Prints one line per change. Never leaves /repo changed.
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def sh(cmd, cwd=R, timeout=900):
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def stable():
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh /tmp/seeded_tests.json')
    r = json.load(open('/tmp/seeded_tests.json'))
    passed = r.get('passed', r)
    if isinstance(passed, dict):
        passed = [k for k, v in passed.items() if v in ('passed', 'pass', True)]
    return sorted(base - set(passed))

def main(argv):
    skip = '--skip-tests' in argv
    also = []
    if '--also' in argv:
        i = argv.index('--also'); also = argv[i + 1].split(','); del argv[i:i + 2]
    ids = [a for a in argv if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    cmds = {c['property']: c['quick_cmd'] for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    for i in ids:
        d = V + '/seeded/' + i
        prop = json.load(open(d + '/meta.json'))['property']
        assert sh('git status --porcelain')[1].strip() == '', 'repo not clean'
        out = []
        rc0, o0 = sh('sh %s/demo.sh' % d)
        try:
            rc, o = sh('git apply %s/patch.diff' % d)
            if rc: print(i, 'PATCH DOES NOT APPLY', o); continue
            if not skip: out.append('tests-lost=%s' % stable())
            rc1, o1 = sh('sh %s/demo.sh' % d)
            out.append('demo %d/%d' % (rc0, rc1))
            for p in [prop] + also:
                rc, o = sh(cmds[p], cwd=V)
                line = [l for l in o.splitlines() if l.startswith('VIOLATION property=' + p)]
                out.append('%s:%s' % (p, 'CAUGHT' if rc == 1 and line else 'missed(rc=%d)' % rc))
        finally:
            sh('git checkout -- .')
        print(i, *out, flush=True)
        if rc0: print('   demo on clean tree:', o0[-300:])

if __name__ == '__main__':
    main(sys.argv[1:])
