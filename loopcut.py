"""Side conditions of a cut (lib/gap.h), decided on the goto program.

A job that cuts a loop at the call of POP replaces the heap by any state that
satisfies the invariant, but not the local variables, and goes on from the call
that was reached.  That covers every iteration if
  - there is exactly one call inside of a loop, and at most cutat-1 outside of one
    (so the call number cutat is the one in the loop),
  - no variable assigned in that loop is live behind the call, unless every way
    around the loop assigns the same constant to it and one round is complete
    (cutat = 2), and
  - the functions called in the loop assign no global or static variable.
check() returns None or the reason why this does not hold.
"""
import re, subprocess
IDENT = re.compile(r"[A-Za-z_$][\w$]*(?:(?:::|!\d+@)[\w$]+)*")
class Fn: pass
def parse(txt):
    fns = {}; f = None
    for l in txt.splitlines():
        m = re.match(r'^(\S+) /\* \S+ \*/$', l)
        if m: f = Fn(); f.name = m.group(1); f.ins = []; f.lab = {}; f.file = ''; fns[f.name] = f; continue
        if f is None: continue
        if l.startswith('^^^'): f = None; continue
        s = l.strip()
        if s.startswith('//'):
            m = re.search(r' file (\S+)', s)
            if m: f.file = f.file or m.group(1)
            continue
        if not s: continue
        m = re.match(r'^(\d+): (.*)$', s)
        if m: f.lab[m.group(1)] = len(f.ins); s = m.group(2)
        f.ins.append(s)
    for f in fns.values():
        f.succ = []
        for i, s in enumerate(f.ins):
            n = [i + 1] if i + 1 < len(f.ins) else []
            m = re.match(r'^(?:IF .* THEN )?GOTO (\d+)', s)
            if m:
                t = f.lab[m.group(1)]
                n = ([t] + n) if s.startswith('IF ') else [t]
            if s.startswith(('END_FUNCTION', 'ASSUME false')): n = []
            f.succ.append(n)
    return fns
def callee(s):
    m = re.match(r'^CALL (?:(\S+) := )?([A-Za-z_][\w$]*)\((.*)\)', s)
    return (m.group(1), m.group(2), m.group(3)) if m else None
def assigned(s):
    m = re.match(r"^ASSIGN ([A-Za-z_$][\w$:!@]*) := (.*)$", s)
    if m: return m.group(1), m.group(2)
    c = callee(s)
    if c and c[0] and re.match(r"^[A-Za-z_$][\w$:!@]*$", c[0]): return c[0], c[2]
    return None, s
def uses(s):
    a, rest = assigned(s)
    if s.startswith(('DECL', 'DEAD', 'SKIP', '//')): return set()
    return set(re.findall(r"[A-Za-z_$][\w$]*(?:::[\w$]+)+|[A-Za-z_]\w*", rest))
def check(gb, root, pop='vc_pop', cutat=2, arg=''):
    txt = subprocess.run(['goto-instrument', '--show-goto-functions', gb], capture_output=True, text=True, timeout=120).stdout
    fns = parse(txt)
    if root not in fns: return 'no function ' + root
    # functions reachable from root, without the stubs
    seen, todo = {root}, [root]
    while todo:
        for s in fns[todo.pop()].ins:
            c = callee(s)
            if c and c[1] in fns and c[1] not in seen and c[1] != pop and not c[1].startswith(('vc_', 'unit_', 'sco_')): seen.add(c[1]); todo.append(c[1])
    def pops(s):
        c = callee(s)
        return bool(c and c[1] == pop and arg in c[2])
    # (a call of the root itself is the end of the coroutine that makes it, not an iteration)
    popping = set(n for n in seen if any(pops(s) for s in fns[n].ins))
    while True:
        more = set(n for n in seen - popping if any((callee(s) or (0, ''))[1] in popping - {root} for s in fns[n].ins))
        if not more: break
        popping |= more
    inl, out = [], []
    for n in popping:
        f = fns[n]; f.inloop = set()
        loops = [(t, i) for i in range(len(f.ins)) for t in f.succ[i] if t <= i]
        for i, s in enumerate(f.ins):
            c = callee(s)
            if not (pops(s) or (c and c[1] in popping - {root})): continue
            ls = [l for l in loops if l[0] <= i <= l[1]]
            if ls: inl.append((n, i, min(l[0] for l in ls), max(l[1] for l in ls)))
            elif pops(s): out.append((n, i))
    if len(inl) != 1: return '%d calls in loops' % len(inl)
    n, at, lo, hi = inl[0]; f = fns[n]
    if not pops(f.ins[at]): return 'taken by a helper'
    for m, i in out:
        if m != n or i > lo: return 'a call outside of the loop'
    if len(out) > cutat - 1: return 'too many calls before the loop'
    # liveness
    live = [set() for _ in f.ins]
    ch = True
    while ch:
        ch = False
        for i in range(len(f.ins) - 1, -1, -1):
            o = set().union(*[live[t] for t in f.succ[i]]) if f.succ[i] else set()
            a, _ = assigned(f.ins[i])
            v = (o - {a}) | uses(f.ins[i])
            if f.ins[i].startswith(('DECL', 'DEAD')): v -= {f.ins[i].split()[1]}
            if v != live[i]: live[i] = v; ch = True
    lhs = (callee(f.ins[at]) or [None])[0]
    after = set().union(*[live[t] for t in f.succ[at]])
    for i in range(lo, hi + 1):
        a, rhs = assigned(f.ins[i])
        if a is None or a == lhs or (a not in after and '::' in a): continue
        if a == 'return_value' or a.startswith(n + '::$tmp'): 
            if a not in after: continue
        # the same constant on every way around?
        same = all(assigned(f.ins[k])[1] == rhs for k in range(lo, hi + 1) if assigned(f.ins[k])[0] == a)
        const = re.match(r'^(cast\()?-?\d+(, \S+\))?$|^(true|false)$', rhs)
        if same and const and cutat == 2:
            sets = set(k for k in range(lo, hi + 1) if assigned(f.ins[k])[0] == a)
            st, vis = [lo], set()
            while st:
                k = st.pop()
                if k in vis or k in sets or not lo <= k <= hi: continue
                vis.add(k)
                if k != at: st += f.succ[k]
            if at not in vis: continue
        return '%s is carried around the loop' % a
    # globals and statics assigned by functions called in the loop
    called, todo = set(), [(callee(s) or (0, ''))[1] for s in f.ins[lo:hi+1]]
    while todo:
        x = todo.pop()
        if x in called or x not in seen: continue
        called.add(x)
        todo += [(callee(s) or (0, ''))[1] for s in fns[x].ins]
    for x in called:
        decl = set(s.split()[1] for s in fns[x].ins if s.startswith('DECL'))
        for s in fns[x].ins:
            a, _ = assigned(s)
            if a and a not in decl and not re.match(r'^%s::\w+$' % re.escape(x), a) and not a.startswith(x + '::$tmp'): return '%s assigns %s' % (x, a)
    return None
if __name__ == '__main__':
    import sys
    print(check(*sys.argv[1:3], **dict((k, int(v) if v.isdigit() else v) for k, v in (x.split('=') for x in sys.argv[3:]))))
