#!/usr/bin/env python3
"""Contract verification driver:  run.py <property> [--tier quick|thorough]

For every job (a unit = contracts + harness over the real /repo sources):
  1. goto-cc compiles a wrapper that #includes the unit, which #includes the
     real source file from /repo (nothing is copied or edited);
  2. goto-instrument replaces calls to the functions whose contract is assumed
     (getnow, coexit, AA-tree operations ...) by their contract stubs;
  3. cbmc discharges every obligation of every case (a case = one concrete list
     shape; all scalars symbolic), with unwinding assertions on;
  4. a failed obligation is replayed natively (gcc + ASan/UBSan) with the
     verifier's values on the real code; the VIOLATION line names the replay.
"""
import sys, os, re, json, time, subprocess, hashlib, shutil, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import jobs as J

WORLD_REPL = [
  ('getnow','vc_getnow'), ('coexit','vc_coexit'),
  ('dlqueue_insert','vc_dl_insert'), ('dlqueue_delete','vc_dl_delete'),
  ('all_search','vc_all_search'), ('all_insert','vc_all_insert'),
  ('all_delete','vc_all_delete'), ('evaat_insert','vc_ev_insert'),
  ('evaat_delete','vc_ev_delete'), ('evaat_iter','vc_ev_iter'), ('evaat_next','vc_ev_next'),
  ('dlqueue_first','vc_dl_first'), ('dlqueue_next','vc_dl_next'),
]
PORTFOLIO = [('minisat2', 30), ('cadical', 1000)]
if os.environ.get('VERIF_SOLVER'): PORTFOLIO = [(os.environ['VERIF_SOLVER'], 1000)]
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
DEADLINE = None
FAST = os.environ.get('VERIF_FAST')   # (mutation tests) stop at the first failure
FOUND = []

def sh(cmd, timeout, cwd=None, limit=True):
    """run, kill the whole group on timeout; returns (rc|None, out)"""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, preexec_fn=lim if limit else None)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, ''
def lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

class Job:
    def __init__(self, name, d, tier, bdir):
        self.name, self.d, self.tier = name, d, tier
        self.dir = os.path.join(bdir, name)
        self.unwind = d.get('unwind', 7)
        cs = d.get('cases', [0])
        if tier == 'thorough' and 'tcases' in d: cs = d['tcases']
        self.cases = list(cs)
        self.undecided = []          # reasons
        self.notlifted = []          # why the argument for all sizes does not apply
        self.obl = {}                # (case, prop) -> status
        self.reach = {}              # text -> bool
        self.wit = {}                # text -> (case, property) of a witness
        self.fail = []               # (case, prop, desc, loc)
        self.ncases = len(self.cases)
        self.solver = 0.0
        self.solvers = {}            # back end -> cases decided
        self.clauses = {}            # text -> count of cases
    def src(self): return os.path.join(HERE, 'units', self.d['unit'])
    def cflags(self):
        f = ['-DNECO_C="%s/neco.c"' % REPO, '-DREPO="%s"' % REPO,
             '-I%s/lib' % HERE, '-I%s/units' % HERE, '-I%s' % REPO, '-I%s/deps' % REPO]
        return f + ['-D' + x for x in self.d.get('defs', [])]
    def build(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        w = os.path.join(self.dir, 'w.c')
        with open(w, 'w') as f:
            f.write('#include "%s"\n' % self.src())
            pk = self.d.get('pack', 1)       # several cases in one query
            groups = [self.cases[i:i+pk] for i in range(0, len(self.cases), pk)]
            for g in groups:
                f.write('void vh_%d(void) {%s }\n' % (g[0], ''.join(' vrun(%d);' % c for c in g)))
            self.ncases = len(self.cases)
            self.cases = [g[0] for g in groups]
            self.group = {g[0]: g for g in groups}
            f.write('void vh_all(void) {%s}\n' % ''.join(' vh_%d();' % c for c in self.cases))
        a, b, c = (os.path.join(self.dir, x) for x in ('a.gb', 'b.gb', 'c.gb'))
        rc, out = sh(['goto-cc'] + self.cflags() + ['--function', 'vh_all', w, '-o', a], 120)
        if rc != 0:
            self.undecided.append('unit does not compile against this tree: ' + first_error(out))
            return False
        repl = list(self.d.get('replace', WORLD_REPL)) + list(self.d.get('also', []))
        rc, out = sh(['goto-instrument', '--list-symbols', a], 60)
        have = set(x.split()[0] for x in out.splitlines() if x.split())
        repl = [(o, s) for o, s in repl if o in have]
        cmd = ['goto-instrument'] + [y for o, s in repl for y in ('--replace-calls', o + ':' + s)]
        if repl:
            rc, out = sh(cmd + [a, b], 120)
            if rc != 0:
                self.undecided.append('goto-instrument: ' + out[-300:])
                return False
        else: b = a
        if self.d.get('late'):
            b2 = os.path.join(self.dir, 'b2.gb')
            rc, out = sh(['goto-cc'] + self.cflags() + ['--function', 'vh_all', b, os.path.join(HERE, 'units', self.d['late']), '-o', b2], 120)
            if rc != 0: self.undecided.append('goto-cc: ' + out[-300:]); return False
            b = b2
        rc, out = sh(['goto-instrument', '--drop-unused-functions', b, c], 120)
        if rc != 0:
            self.undecided.append('goto-instrument: ' + out[-300:]); return False
        self.gb = c
        if self.d.get('cut'):
            import loopcut
            why = loopcut.check(c, **self.d['cut'])
            if why: self.undecided.append('the loop is not cut: ' + why); return False
        return True
    def cbmc(self, case, extra=(), unwind=None):
        uw = unwind or self.unwind
        cmd = ['cbmc', self.gb, '--function', 'vh_%d' % case, '--unwind', str(uw),
               '--unwinding-assertions', '--json-ui', '--drop-unused-functions']
        cmd += self.d.get('cbmc', [])
        us = self.d.get('unwindset')
        if us: cmd += ['--unwindset', us]
        return cmd + list(extra)
    def run_case(self, case):
        if FAST and FOUND: return
        if time.time() > DEADLINE:
            self.undecided.append('case %d: out of time' % case); return
        t0 = time.time()
        to = min(self.d.get('timeout', 200), DEADLINE - time.time())
        # portfolio: MiniSat first, CaDiCaL if it takes long
        for solver, lim_ in PORTFOLIO:
            rc, out = sh(self.cbmc(case, ['--slice-formula', '--sat-solver', solver]), min(to, lim_))
            res = parse(out)
            if res is not None:
                self.solvers[solver] = self.solvers.get(solver, 0) + 1
                break
        if res is None:
            self.undecided.append('case %d: no answer (%s)' % (case, 'timeout' if rc is None else 'rc %s: %s' % (rc, tail(out))))
            self.solver += time.time() - t0
            return
        if any(r['status'] == 'FAILURE' and 'unwind' in r['property'] for r in res):
            rc, out = sh(self.cbmc(case, ['--slice-formula', '--sat-solver', 'cadical'], unwind=self.unwind * 4),
                         min(self.d.get('timeout', 200), max(1, DEADLINE - time.time())))
            r2 = parse(out)
            if r2 is not None: res = r2
        self.solver += time.time() - t0
        for r in res:
            d, st, p = r['description'], r['status'], r['property']
            if d.startswith('REACH '):
                self.reach[d] = self.reach.get(d, False) or st == 'FAILURE'
                if st == 'FAILURE': self.wit.setdefault(d, (case, p))
                continue
            if self.d.get('lift') and any(x['status'] != 'SUCCESS' and (x['description'].startswith('INV ') or 'pointer' in x['property'] or 'unwind' in x['property'] or 'recursion' in x['property'] or 'bounds' in x['property']) for x in res):
                # the code follows links beyond the part spelled out: the argument
                # for all sizes does not apply to this tree, the bounded cases decide
                self.undecided.append('case %d: leaves the spelled out part' % case); return
            self.obl[(case, p)] = st
            if d.startswith(('ENSURES ', 'CHECK ', 'INV ')): self.clauses[d] = self.clauses.get(d, 0) + 1
            if st == 'FAILURE':
                loc = r.get('sourceLocation', {})
                self.fail.append((case, p, d, '%s:%s' % (loc.get('file', '?'), loc.get('line', '?'))))
                if not self.d.get('lift'): FOUND.append(d)
            elif st != 'SUCCESS':
                self.undecided.append('case %d: %s is %s' % (case, p, st))

def parse(out):
    try: j = json.loads(out)
    except Exception: return None
    for e in j:
        if isinstance(e, dict) and 'result' in e: return e['result']
    return None
def tail(s): return s[-200:].replace('\n', ' ')
def first_error(out):
    m = re.search(r'.*error.*', out)
    return (m.group(0) if m else out[-300:])[:300]

def trace_values(job, case, prop):
    uw = job.unwind
    for mul in (1, 4):
        rc, out = sh(job.cbmc(case, ['--trace', '--property', prop, '--sat-solver', 'cadical'], unwind=uw * mul), 240)
        try: j = json.loads(out)
        except Exception: continue
        for e in j:
            if isinstance(e, dict) and 'result' in e:
                for r in e['result']:
                    if r['property'] == prop and r['status'] == 'FAILURE' and 'trace' in r:
                        vals = []
                        for s in r['trace']:
                            if s.get('stepType') == 'input' and s.get('inputID') == 'nd':
                                vals.append(bits(s['values'][0]))
                        return vals, out
    return None, ''
def bits(v):
    b = v.get('binary')
    if b:
        n = int(b, 2)
        if v.get('type', '').find('unsigned') < 0 and b[0] == '1' and len(b) > 1: n -= 1 << len(b)
        if n >= 1 << 63: n -= 1 << 64
        return n
    try: return int(re.sub('[uUlL]+$', '', v.get('data', '0')))
    except ValueError: return 1 if v.get('data') == 'TRUE' else 0

def native_source(job, out):
    """copy of the real source in which calls to functions with an assumed
    contract go to the contract stub (definitions are untouched)"""
    t = open(REPO + '/neco.c').read()
    names = dict(list(job.d.get('replace', WORLD_REPL)) + list(job.d.get('also', [])))
    lines = t.split('\n')
    rx = re.compile(r'\b(%s)(?=\s*\()' % '|'.join(map(re.escape, names))) if names else None
    if rx:
        rd = re.compile(r'^(#\s*define\s+\w+\s+)(%s)\s*$' % '|'.join(map(re.escape, names)))
        for i, l in enumerate(lines):
            if l[:1] in ' \t#': lines[i] = rx.sub(lambda m: names[m.group(1)], l)
            if l[:1] == '#': lines[i] = rd.sub(lambda m: m.group(1) + names[m.group(2)], lines[i])   # an alias of it
    open(out, 'w').write('\n'.join(lines))

def prototypes(job):
    """of the stubs that the native source calls, from their definitions in the unit"""
    txt = open(job.src()).read(); out = set()
    for _, st in list(job.d.get('replace', [])) + list(job.d.get('also', [])):
        m = re.search(r'(?m)^((?:const )?[A-Za-z_][\w ]*?[ *]+)%s(\([^;{]*\)) *\{' % re.escape(st), txt)
        if m and 'enum ' not in m.group(0) and 'static' not in m.group(1): out.add(m.group(1) + st + m.group(2) + ';')
    tags = set(t for p in out for t in re.findall(r'struct (\w+)', p))
    names = set(t for p in out for t in re.findall(r'\b(neco_\w+)\b', p))
    return ('#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <stdarg.h>\n#include <sys/types.h>\n#include <time.h>\n' +
      ''.join('struct %s;\n' % t for t in sorted(tags)) + ''.join('typedef struct %s %s;\n' % (t, t) for t in sorted(names) if t in ('neco_gen', 'neco_chan')) + ''.join(p + '\n' for p in sorted(out))) if out else ''
def native_build(job, case):
    nc = os.path.join(job.dir, 'native.c')
    native_source(job, nc)
    w = os.path.join(job.dir, 'nw_%d.c' % case)
    exe = os.path.join(job.dir, 'nw_%d' % case)
    open(w, 'w').write('#define REPLAY\n%s#include "%s"\n#include "replay.h"\nvoid vc_case(void) {%s }\n' % (prototypes(job), job.src(), ''.join(' vrun(%d);' % c for c in job.group[case])))
    fl = [f for f in job.cflags() if not f.startswith('-DNECO_C')] + ['-DNECO_C="%s"' % nc]
    rc, o = sh(['gcc', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined',
                '-D_GNU_SOURCE'] + fl + [w, '-o', exe, '-lpthread', '-ldl', '-Wl,--unresolved-symbols=ignore-all'], 120)
    return exe, rc, o
def replay(job, case, prop, desc, loc, rdir):
    """returns (reproduced, path)"""
    os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, '%s-%s-%d' % (job.name, re.sub(r'\W+', '_', prop), case))
    vals, out = trace_values(job, case, prop)
    rep, log = False, ''
    if vals is not None and not job.d.get('late'):
        open(base + '.vals', 'w').write('\n'.join(map(str, vals)) + '\n')
        exe, rc, o = native_build(job, case)
        if rc != 0: log = 'native build failed: ' + o[-1500:]
        else:
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
            rc, log = sh(['env', 'ASAN_OPTIONS=detect_leaks=0', exe, base + '.vals'], 20, limit=False)
            if rc is None: rep, log = True, 'native execution does not terminate'
            elif rc == 3: rep = True
            elif rc not in (0, 4) and 'AddressSanitizer failed to' not in log: rep = True
    open(base + '.txt', 'w').write(
        'obligation: %s\nproperty:   %s\nat:         %s\nunit:       %s (case %d, defs %s)\n'
        'replayed natively: %s\n\n--- native replay\n%s\n\n--- verifier values (in order of use)\n%s\n\n--- verifier output (tail)\n%s\n'
        % (desc, prop, loc, job.d['unit'], case, job.d.get('defs'), 'reproduced' if rep else 'not reproduced',
           log[-6000:], vals, out[-3000:] if vals is None else '(trace in JSON omitted; rerun: %s)' % ' '.join(job.cbmc(case, ['--trace', '--property', prop]))))
    return rep, base + '.txt'

def selftest():
    """setup_cmd: the tools are there, and a unit that must verify does, one that must fail does"""
    d = os.path.join(HERE, 'build', 'selftest')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 't.c')
    open(src, 'w').write('int x; void ok(void) { int y = x; __CPROVER_assert(y == x, "ok"); }\n'
                         'void bad(void) { int y; __CPROVER_assert(y == x, "bad"); }\n')
    for tool in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
        if not shutil.which(tool): print('missing ' + tool); sys.exit(2)
    rc, out = sh(['goto-cc', '--function', 'ok', src, '-o', d + '/t.gb'], 60)
    for fn, want in (('ok', 'SUCCESS'), ('bad', 'FAILURE')):
        rc, out = sh(['cbmc', d + '/t.gb', '--function', fn, '--json-ui'], 60)
        r = parse(out)
        if not r or r[0]['status'] != want: print('selftest failed: ' + out[-500:]); sys.exit(2)
    shutil.rmtree(d, ignore_errors=True)
    print('selftest ok'); sys.exit(0)

def main():
    global DEADLINE
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    onlycase = [int(a[7:]) for a in sys.argv if a.startswith('--case=')]
    if '--selftest' in sys.argv: selftest()
    pid = args[0]
    t0 = time.time()
    DEADLINE = t0 + (780 if tier == 'quick' else 6 * 3600)
    prop = J.PROPS[pid]
    bdir = os.path.join(HERE, 'build', os.environ.get('VERIF_BUILD', pid))
    shutil.rmtree(bdir, ignore_errors=True)
    jl = [Job(n, J.JOBS[n], tier, bdir) for n in prop['jobs'] if not only or n in only]
    if onlycase:
        for j in jl: j.cases = onlycase
    with ThreadPoolExecutor(NPROC) as ex:
        ok = list(ex.map(lambda j: j.build(), jl))
        if '--nativebuild' in sys.argv:
            for j in jl:
                if j.d.get('late'): continue
                exe, rc, o = native_build(j, j.cases[0])
                print('NATIVE BUILD', j.name, 'ok' if rc == 0 else 'FAILED ' + first_error(o), flush=True)
            return
        tasks = [(j, c) for j, o in zip(jl, ok) if o for c in j.cases]
        tasks.sort(key=lambda t: -t[0].d.get('weight', 1))
        list(ex.map(lambda t: t[0].run_case(t[1]), tasks))
    for j in jl:
        if j.d.get('lift') and not j.undecided and not all(j.reach.values()):
            j.undecided = ['not reached: ' + d for d, v in j.reach.items() if not v]
        if j.d.get('lift') and j.undecided:
            j.notlifted = j.undecided[:3]; j.undecided = []; j.obl = {}; j.fail = []; j.reach = {}
    if FAST and FOUND: print('CAUGHT ' + FOUND[0]); shutil.rmtree(bdir, ignore_errors=True); sys.exit(1)
    if os.environ.get('VERIF_NATIVE'):   # the witnesses must run through natively
        for j in jl:
            for d, (case, p) in sorted(j.wit.items()):
                rep, path = replay(j, case, p, d, '', os.path.join(HERE, 'build', 'native', pid))
                t = open(path).read().split('--- native replay\n')[1].split('--- verifier values')[0].strip()
                print('NATIVE %s %s case=%d %s: %s' % ('DIFFERS' if rep or 'values used' not in t or 'FAILED' in t else 'same', j.name, case, d, t[:int(os.environ['VERIF_NATIVE'])]), flush=True)
    viol = []
    known = J.known_findings()
    for j in jl:
        seen = set()
        for case, p, d, loc in j.fail:
            if d in seen: continue       # one report per obligation
            seen.add(d)
            viol.append((j, case, p, d, loc))
        if not j.undecided and not onlycase:
            for r, v in j.reach.items():
                if not v: viol.append((j, None, None, r, ''))
    printed = 0
    rdir = os.path.join(HERE, 'build', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    reports = []
    for j, case, p, d, loc in viol:
        k = [f for f in known if f['property'] == pid and f['job'] == j.name and f['obligation'] == d]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what'])); continue
        reports.append((j, case, p, d, loc))
    best = None
    for n, (j, case, p, d, loc) in enumerate(reports):
        print('FAILED %s case=%s %s  [%s] at %s' % (j.name, case, d, p, loc))
        if best and best[0] or n >= 6: continue
        if p is None:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, j.name + '-vacuous.txt')
            open(path, 'w').write('required behaviour cannot be reached any more: %s\nunit %s cases %s\n' % (d, j.d['unit'], j.cases))
            rep = False
        else: rep, path = replay(j, case, p, d, loc, rdir)
        if best is None or rep: best = (rep, path)
    if best:
        print('VIOLATION property=%s replay=%s%s' % (pid, best[1], '' if best[0] else ' no-failing-input-found'))
    for j in jl:
        for u in j.undecided[:5]: print('UNDECIDED %s: %s' % (j.name, u))
        if len(j.undecided) > 5: print('UNDECIDED %s: and %d more' % (j.name, len(j.undecided) - 5))
    for j in jl:
        for u in j.notlifted[:1]: print('NOT-LIFTED %s: %s' % (j.name, u))
    obl = sum(len(j.obl) for j in jl)
    dis = sum(1 for j in jl for s in j.obl.values() if s == 'SUCCESS')
    bounded = [j for j in jl if j.d.get('bounded')]
    bobl = sum(len(j.obl) for j in bounded)
    bdis = sum(1 for j in bounded for s in j.obl.values() if s == 'SUCCESS')
    ev = {
     'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
     'level': prop.get('level', 'proof' if obl > bobl else 'other'),
     'coverage': {
      'explanation': J.TECH,
      'obligations': obl - bobl, 'discharged': dis - bdis,
      'checker_cmd': 'goto-cc | goto-instrument --replace-calls | cbmc 6.11.0 (SAT back ends MiniSat 2.2, CaDiCaL) --unwinding-assertions; ./run.py %s' % pid,
      'trusted_base': ['CBMC 6.11.0 C front end, symbolic execution and SAT back ends (MiniSat, CaDiCaL)', 'goto-instrument'] + sorted(set(J.trusted(jl))),
      'functions_under_contract': sorted(set(f for j in jl for f in j.d.get('fns', []))),
      'bounded_obligations': bobl, 'bounded_discharged': bdis,
      'bounds': sorted(set('%s: %s' % (j.name, j.d['bounded']) for j in bounded)),
      'contract_clauses': {j.name: len(j.clauses) for j in jl},
      'cases': {j.name: j.ncases for j in jl},
      'vacuity_witnesses_reached': sum(1 for j in jl for v in j.reach.values() if v),
      'cases_by_back_end': {k: sum(j.solvers.get(k, 0) for j in jl) for k, _ in PORTFOLIO},
      'solver_seconds': round(sum(j.solver for j in jl), 1),
      'not_lifted': [j.name + ': ' + u for j in jl for u in j.notlifted],
      'undecided': [j.name + ': ' + u for j in jl for u in j.undecided],
      'samples': [d for j in jl for d in list(j.clauses)[:3]][:20],
     },
     'assumptions': sorted(set(a for j in jl for a in j.d.get('assume', J.DEFAULT_ASSUME))),
     'wall_s': round(time.time() - t0, 1), 'violations': len(reports),
    }
    if not only and not onlycase:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged (%d bounded), %d cases, %d/%d witnesses, %.1f s solver, %.1f s wall' % (
        pid, dis, obl, bobl, sum(j.ncases for j in jl), sum(1 for j in jl for v in j.reach.values() if v),
        sum(len(j.reach) for j in jl), sum(j.solver for j in jl), time.time() - t0))
    if not os.environ.get('VERIF_KEEP'):
        for j in jl: shutil.rmtree(j.dir, ignore_errors=True)
    und = [u for j in jl for u in j.undecided]
    sys.exit(1 if best else 2 if und else 0)
if __name__ == '__main__': main()
