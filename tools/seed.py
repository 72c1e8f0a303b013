#!/usr/bin/env python3
"""tools/seed.py [ids...]: confirm planted bugs in a scratch copy (applies, builds, stable tests pass,
demo 0 without / nonzero with) and run the property's check against it (VERIF_REPO).  --nocheck, --notest"""
import sys, os, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = HERE + '/seeded'
flags = [a for a in sys.argv[1:] if a.startswith('--')]
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(S))
base = json.load(open('/opt/vp/BASELINE.json'))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for i in ids:
    d = S + '/' + i; meta = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seed')
    try:
        sh('cp -a /repo %s/repo' % t)
        demo = t + '/demo'; shutil.copytree(d, demo)
        for f in ('patch.diff', 'meta.json'): os.remove(demo + '/' + f)
        r0 = sh('bash %s/demo.sh' % demo, cwd=t + '/repo', timeout=300).returncode
        a = sh('git apply %s/patch.diff' % d, cwd=t + '/repo')
        if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
        r = sh('bash %s/demo.sh' % demo, cwd=t + '/repo', timeout=300)
        r1 = r.returncode
        tests = ''
        if '--notest' not in flags:
            # build + tests against the scratch copy by bind: run test script with REPO path replaced
            sh("cp -a /opt/vp %s/vp; sed -i 's#/repo#%s/repo#g; s#/opt/vp#%s/vp#g' $(grep -rlI . %s/vp --include=*.sh --include=*.py --include=*.mk)" % ((t,)*4))
            q = sh('bash %s/vp/build.sh; bash %s/vp/test.sh %s/out.json' % ((t,)*3))
            try:
                o = json.load(open(t + '/out.json'))
                passed = set(o.get('passed', []))
                want = base['stable']
                miss = [x for x in want if x not in passed]
                tests = 'tests ok' if not miss else 'TESTS FAIL %d %s' % (len(miss), miss[:3])
            except Exception as e: tests = 'tests?? %r %s' % (e, q.stdout[-300:])
        chk = ''
        if '--nocheck' not in flags:
            c = sh('VERIF_REPO=%s/repo python3 run.py %s' % (t, meta['property']), cwd=HERE)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            f = [l for l in c.stdout.splitlines() if l.startswith('FAILED')][:2]
            chk = ('CAUGHT' if c.returncode == 1 and v else 'missed rc=%d' % c.returncode) + (' (no input)' if v and 'no-failing' in v[0] else '') + ' ' + ' | '.join(f)[:300]
        print(i, meta['property'], 'demo %d->%d' % (r0, r1), '' if r0 == 0 and r1 else 'BAD-DEMO', tests, chk, flush=True)
    finally: shutil.rmtree(t)
