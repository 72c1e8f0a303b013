"""mkseed.mk(id, prop, [(old,new),...], needs, what, democ, flags): write seeded/<id>/ from an edit of /repo's neco.c"""
import os, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, needs, what, democ, flags='', file='neco.c', sh=None):
    d = HERE + '/seeded/' + id
    t = tempfile.mkdtemp(prefix='mk')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for e in edits:
        f = t + '/r/' + (e[2] if len(e) > 2 else file)
        s = open(f).read()
        assert s.count(e[0]) == 1, (id, s.count(e[0]), e[0])
        open(f, 'w').write(s.replace(e[0], e[1]))
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=t + '/r', text=True))
    shutil.rmtree(t)
    if democ: open(d + '/demo.c', 'w').write(democ)
    open(d + '/demo.sh', 'w').write(sh or '''#!/bin/bash
# run with cwd /repo: exit 0 if the guarantee holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -O1 -g -w -I. -o $T/demo "$D/demo.c" neco.c -lm -pthread %s || exit 99
timeout 60 $T/demo
''' % flags)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
