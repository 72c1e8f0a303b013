#!/usr/bin/env python3
"""Mutation test of the checks: small changes to the functions under contract in
a scratch copy; prints the ones that no job of the function notices.
usage: mutate.py [-n per function] [-s seed] [-p PID,PID] [function ...]"""
import sys, os, re, random, subprocess, shutil, getopt, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import jobs as J
opts, fns = getopt.getopt(sys.argv[1:], 'n:s:p:lm:')
o = dict(opts)
N, seed = int(o.get('-n', 3)), int(o.get('-s', 1))
SRC = '/repo/neco.c'
T = open(SRC).read().split('\n')
# functions: name -> (first, last) line index of the body
F, i = {}, 0
while i < len(T):
    m = re.match(r'^[A-Za-z_][\w \*]*?\b(\w+)\(', T[i])
    if m and not T[i].startswith(('typedef', '#', 'struct {', 'else', 'return', 'AAT_')) and not T[i].rstrip().endswith(';'):
        j = i
        while j < len(T) and '{' not in T[j] and not T[j].rstrip().endswith(';') and j < i + 8: j += 1
        if j < len(T) and '{' in T[j]:
            k = j
            if T[j].count('{') != T[j].count('}'):
                while k < len(T) and not T[k].startswith('}'): k += 1
            F.setdefault(m.group(1), (j + 1 if k > j else j, k if k > j else j + 1)); i = k
    i += 1
body = {f: '\n'.join(T[a:b]) for f, (a, b) in F.items()}
inprop = {}
for pid, p in J.PROPS.items():
    for j in p['jobs']: inprop.setdefault(j, []).append(pid)
cov = {}
for n, d in J.JOBS.items():
    for f in d.get('fns', []): cov.setdefault(f, []).append(n)
def jobs_of(f, seen=()):
    if f in cov: return cov[f]
    if f in seen: return []
    out = []
    for g in F:
        if g != f and re.search(r'\b%s\b' % f, body[g]): out += jobs_of(g, seen + (f,))
    return sorted(set(out))
def muts(f):
    a, b = F[f]
    for ln in range(a, b):
        l = T[ln]; c = l.split('//')[0]
        if not c.strip() or c.lstrip().startswith('#'): continue
        def rep(rx, by):
            for m in re.finditer(rx, c):
                n = c[:m.start()] + re.sub(rx, by, m.group(0)) + c[m.end():]
                if n != c: yield ln, n
        for x in rep(r'==', '!='): yield x
        for x in rep(r'!=', '=='): yield x
        for x in rep(r'(?<![<\-])<(?![<=])(?=\s)', '<='): yield x
        for x in rep(r'<=', '<'): yield x
        for x in rep(r'(?<![>\-])>(?![>=])(?=\s)', '>='): yield x
        for x in rep(r'>=', '>'): yield x
        for x in rep(r'&&', '||'): yield x
        for x in rep(r'\|\|', '&&'): yield x
        for x in rep(r'\+\+', '--'): yield x
        for x in rep(r'--', '++'): yield x
        for x in rep(r'\+ 1\b', '+ 0'): yield x
        for x in rep(r'- 1\b', '- 0'): yield x
        for x in rep(r'\btrue\b', 'false'): yield x
        for x in rep(r'\bfalse\b', 'true'): yield x
        for x in rep(r'\+=', '-='): yield x
        for x in rep(r'-=', '+='): yield x
        for x in rep(r'\bcontinue;', 'break;'): yield x
        for x in rep(r'\bbreak;', 'continue;'): yield x
        for x in rep(r'NECO_CANCELED', 'NECO_TIMEDOUT'): yield x
        for x in rep(r'NECO_TIMEDOUT', 'NECO_CANCELED'): yield x
        m = re.match(r'^(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{)\s*$', c)
        if m: yield ln, m.group(1) + '!(' + m.group(2) + ')' + m.group(3)
        m = re.match(r'^(\s*)([\w\->\.\[\]\*\(\)&]+\s*([\+\-\|&]?=|\+\+|--|\().*;)\s*$', c)
        if m and not re.match(r'\s*(return|goto|struct|int|bool|static|const|for|while|if)\b', c): yield ln, m.group(1) + ';'
def compiles(p):
    return subprocess.run(['gcc', '-fsyntax-only', '-w', '-I' + os.path.dirname(p), p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
todo = fns or sorted(f for f in cov if f in F)
if '-p' in o:
    ps = o['-p'].split(',')
    todo = sorted(set(f for f in cov if f in F for j in cov[f] if set(inprop.get(j, [])) & set(ps)))
if '-m' in o:      # also helpers, by what they are called from
    todo = sorted(f for f in F if re.match(o['-m'] + '$', f) and jobs_of(f))
if '-l' in o:
    print('\n'.join('%s: %s' % (f, ' '.join(jobs_of(f))) for f in sorted(F) if f not in cov)); sys.exit()
D = '/tmp/mut.%d' % os.getpid()
shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo', D, symlinks=True)
rnd = random.Random(seed)
try:
    for f in [x for x in todo if x in F]:
        ms = list(muts(f)); rnd.shuffle(ms)
        js = [j for j in jobs_of(f) if j in inprop]
        for ln, new in ms[:N]:
            t = list(T); t[ln] = new
            open(D + '/neco.c', 'w').write('\n'.join(t))
            if not compiles(D + '/neco.c'): continue
            by, t0, und = None, time.time(), []
            for j in js:
                r = subprocess.run(['python3', HERE + '/run.py', inprop[j][0], '--only=' + j], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    env=dict(os.environ, VERIF_REPO=D, VERIF_FAST='1', VERIF_BUILD='mut%d' % os.getpid()), text=True)
                if r.returncode == 1: by = j; break
                if r.returncode != 0: und.append(j + ': ' + r.stdout.strip().split('\n')[0][:150])
            tag = 'caught' if by else 'UNDECIDED' if und else 'MISSED'
            print('%-9s %s:%d  -%s  +%s  %s (%.0f s)' % (tag, f, ln + 1, T[ln].strip(), new.strip(), by or '; '.join(und) or ' '.join(js), time.time() - t0), flush=True)
finally:
    shutil.rmtree(D, ignore_errors=True); shutil.rmtree(HERE + '/build/mut%d' % os.getpid(), ignore_errors=True)
