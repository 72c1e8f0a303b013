import os, json
HERE = os.path.dirname(os.path.abspath(__file__))
DEFAULT_ASSUME = []
def mix(radices, pred=None, base=0):
    """case numbers (mixed radix, first digit fastest) whose digits satisfy pred"""
    out, n = [], 1
    for r in radices: n *= r
    for c in range(n):
        d, x = [], c
        for r in radices: d.append(x % r); x //= r
        if pred is None or pred(*d): out.append(base + c)
    return out
_lk = lambda read: mix([4,4,2], lambda n,h,w: (h > 0 or n == 0) and (w == 0 or n == 1)) + \
   mix([2,2,2,2,3,2,2], lambda b,a,r0,r1,rd,u,p: (b or not r0) and (a or not r1) and (u or not p) and
       (not p or (rd < 2 and (not b or (r0 and read)))) and (u or (rd == 0 and not r0 and not r1)), base=32)
# shapes of a channel: cap, len, pos, queue kind, queue length, sender closed, kinds of receivers
def _chv(cap, ln, pos, q, n, scl, *k):
    if ln > cap or pos >= max(cap, 1) or (q == 0) != (n == 0): return False
    if q == 1 and ln != cap: return False
    if q == 2 and (ln or scl): return False
    if k:
        nk = n if q == 2 else 0
        if any(k[i] for i in range(nk, len(k))): return False
    return True
_CH = [3,3,2,3,3,2]
def chcases(recvkinds=False, extra=[], pred=None):
    """the digits of receiver kinds are only consumed for queued receivers, so
    enumerate per shape"""
    out = []
    for c in mix(_CH, _chv):
        d, x = [], c
        for r in _CH: d.append(x % r); x //= r
        base = 1
        for r in _CH: base *= r
        nk = d[4] if d[3] == 2 else 0
        rad = [3]*nk + list(extra)
        n = 1
        for r in rad: n *= r
        for e in range(n):
            y, f = e, []
            for r in rad: f.append(y % r); y //= r
            if not recvkinds and any(f[:nk]): continue
            if pred and not pred(d, f[:nk], f[nk:]): continue
            out.append(c + base * e)
    return out
def _recv(d, k, e):      # rely shapes only from one blocking shape
    wrap, before, action, popped = e
    blocks = d[1] == 0 and d[3] != 1 and d[5] == 0
    if not blocks: return not (wrap and d[0]) and before == action == popped == 0
    if d[0] == 0 and d[3] == 0: return not (popped and not action) and not (wrap and before)
    return before == action == popped == 0 and not wrap
def _send(d, k, e):
    wrap, before, after, action, closed = e
    live = any(x != 2 for x in k)
    blocks = d[1] == d[0] and not live and d[5] == 0
    if not blocks or d[3] == 2: return not (wrap and d[0]) and before == after == action == closed == 0
    if d[3] == 0: return not wrap and (action < 2 or before)
    return before == after == action == closed == 0
def _sel(form, nch, sa, sb, action, on, twice):
    n = nch + 1
    if form >= 3 and nch == 0: return False
    if form >= 4 and (sa, sb) not in ((0,0),(1,2),(0,2),(4,0)): return False
    if form in (4,5) and (sa, sb) in ((0,0),(4,0)): return (action, twice) in ((1,0),(3,0))
    if n == 1 and (sb or on or twice): return False
    ready = sa in (1,2,3) or (n > 1 and sb in (1,2,3))
    if ready or form >= 2: return action == on == twice == 0 and (form != 1 or sa == 1)
    if form == 1: return (action, on, twice) == (1, 0, 0) and sa == 0
    if twice and action == 0: return False
    if action == 0 and on: return False
    return True
NOEXIT = [  # as the default, with the real coexit()
  ('getnow','vc_getnow'),
  ('dlqueue_insert','vc_dl_insert'), ('dlqueue_delete','vc_dl_delete'),
  ('all_search','vc_all_search'), ('all_insert','vc_all_insert'),
  ('all_delete','vc_all_delete'), ('evaat_insert','vc_ev_insert'),
  ('evaat_delete','vc_ev_delete'), ('evaat_iter','vc_ev_iter'),
]
LLCO = [('llco_switch','vc_llco_switch'), ('llco_start','vc_llco_start'), ('llco_current','vc_llco_current'), ('sco_aat_insert','vc_sco_insert'), ('sco_aat_delete','vc_sco_delete')]
_sco = mix([6,2,3,3,3,3], lambda o,c,r,y,p,a: (o == 3 or (c == 1 and a == 0 and p < 2)) and (o != 3 or not (a == 0 and p == 0)) and (p < 2 or (r < 2 and y < 2)))
_MEM = [('neco_malloc','vc_malloc'), ('neco_free','vc_free')]
_start = mix([4,2,2,3,5], lambda f,p,i,a,x: (f < 2 or i) and (x == 0 or (a == 2 and i) or (x == 4 and a == 0 and i)))
_exit = mix([2,3,2,3,2,3,2,2], lambda h,n,c,j,g,r,a,m: (g or not r) and not (r == 1 and j == 2) and (not m or (h and n)) and not (c and j == 1) and not (a and (c or j)) and not (m and (g or a)))
def _seq(rad, cont, n=3):
    """scripts of a kernel: digits until one that ends the operation, at most n"""
    out = []
    def go(pre):
        if len(pre) == n: out.append(pre); return
        for d in range(rad):
            if d in cont: go(pre + [d])
            else: out.append(pre + [d])
    go([])
    return out
def seqcases(radices, pred, rad, cont, n=3):
    m = 1
    for r in radices: m *= r
    cs = []
    for b in mix(radices):
        d, x = [], b
        for r in radices: d.append(x % r); x //= r
        for q in _seq(rad, cont, n):
            if pred and not pred(d, q): continue
            e = 0
            for v in reversed(q): e = e * rad + v
            cs.append(b + m * e)
    return sorted(set(cs))
_MEM3 = [('neco_malloc','vc_malloc'), ('neco_free','vc_free'), ('neco_realloc','vc_realloc')]
_SRW = [('neco_malloc','vc_malloc'), ('neco_free','vc_free'), ('neco_read_dl','vc_read'), ('neco_write_dl','vc_write')]
_SB = 'streams with a buffer of 3 bytes, at most 3 system calls'
def _srd(d, q):   # form, rp, rl, mem, nb, nomem
    f, rp, rl, mem, nb, nm = d
    one = len(q) == 1 or q[1] == 0
    if rp + rl > 3 or rp > 1 or (mem == 0 and rp + rl): return False
    if nm and (mem != 2 or rl or rp or f & 1 or q != [0]): return False
    if f >= 4 and nb: return False
    if (f & 1) and (rp or rl > 1 or nb not in (0, 2) or mem != 1): return False
    if mem == 2 and (rp or rl > 1): return False
    need = rl == 0 or (f in (2,3) and nb > rl)
    if nb == 0 and f < 4: return rl < 2 and q in ([0], [2,0], [4])
    if not need: return q == [0]
    if f not in (2,3): return one
    if q[0] in (1,2,3) and q[0] + rl >= nb: return one
    return q[0] != 3 or nb > 3
def _swr(d, q):
    f, wl, mem, nb, nm = d
    one = len(q) == 1 or q[1] == 0
    if mem == 0 and wl: return False
    if nm and not (mem == 1 and wl == 0 and f == 0 and q == [0,0] and nb == 1): return False
    if f >= 2 and nb: return False
    if mem == 2 and nb not in (0, 2, 4): return False
    if f & 1 and (nb not in (0, 4) or mem == 0 or wl == 1): return False
    if f < 2 and wl + nb <= 3: return q == [0,0]
    if f >= 2: return one
    return one or wl + nb > 5 + (q[0] == 0)
def _stk(L):
    # histories: 1 take, 2/3/4 return oldest/newest/second, times options and failures
    seqs = []
    def go(h, n):
        if h: seqs.append(h)
        if len(h) == L: return
        go(h + [1], n + 1)
        if n >= 1: go(h + [2], n - 1)
        if n >= 2: go(h + [3], n - 1)
        if n >= 3: go(h + [4], n - 1)
    go([], 0)
    seqs = [h for h in seqs if len(h) == L]     # shorter ones are prefixes
    out = []
    for i, h in enumerate(seqs):
        v = 0
        for k in reversed(h): v = v * 5 + k
        # every history with the free list, guards and page release as the runtime uses them, and with one other setting
        cfg = [(0,0,0,0,1), ((i % 7) and 1 or i % 2, i // 2 % 2, i // 4 % 2, i % 7, i // 3 % 2)]
        for g, f, k, fl, sz in cfg: out.append(g + 2 * (f + 2 * (k + 2 * (fl + 7 * (sz + 2 * v)))))
    return out
JOBS = {
 'lists': dict(unit='queue.c', defs=['U_LISTS'], cases=mix([4,3,3], lambda o,q,i: o == 1 or i == 0), lift=True, unwind=9, fns=['colist_init','colist_is_empty','colist_pop_front','colist_push_back','remove_from_list','sched_resume']),
 'run': dict(unit='run.c', defs=[], cases=mix([5,2,3,3,2], lambda f,m,r,p,q: (f == 0 or (r == p == q == 0)) and not (f == 2 and not m) and not (f == 0 and r == 0 and (p or q)) and not (p and q and r < 2)), unwind=34, replace=[('neco_malloc','vc_malloc'),('neco_free','vc_free'),('stack_mgr_init','vc_stk_init'),('stack_mgr_destroy','vc_stk_destroy'),('worker_new','vc_wnew'),('worker_free','vc_wfree'),('is_main_thread','vc_main'),('coroutine_free','vc_cofree'),('start','vc_start'),('sco_active','vc_active'),('sco_info_paused','vc_paused'),('rt_sched_paused_step','vc_paused_step'),('rt_rc_step','vc_rc_step'),('sco_resume','vc_resume')], fns=['run','rt_scheduler','rt_handle_signals','rt_restore_signal_handlers','rt_release','neco_startv'], bounded='at most 2 rounds of the scheduler and 2 pooled coroutines'),
 'err.misuse': dict(unit='err.c', defs=['U_MISUSE'], cases=[o for o in range(31)] + [o + 128*b for o in range(40,109) for b in (0,1) if b or o < 107], pack=6, fns=[]),
 'err.conv': dict(unit='err.c', defs=['U_CONV'], cases=[0,2] + [1+4*k for k in range(19)], also=[('strerror','vc_strerror'), ('gai_strerror','vc_gai_strerror'), ('print_stacktrace','vc_trace'), ('abort','vc_abort')], unwind=30, fns=['neco_errconv_from_sys','neco_errconv_to_sys','neco_shortstrerror','neco_strerror','errhpnd','neco_lasterr']),
 'work.neco': dict(unit='work.c', defs=['U_NECOWORK'], cases=mix([3,3,3,2,2,2], lambda r,e,f,o,a,b: (f == 0 or (r == e == o == a == b == 0)) and a == o), also=[('worker_submit','vc_submit')], fns=['neco_work','workfn','iowork','iowait','iodone'], bounded='at most 2 refusals and 2 early wake-ups'),
 'work.submit': dict(unit='work.c', replace=[], defs=['U_SUBMIT'], cases=mix([5,4,2,2,2,3,2], lambda l,p,r,f,n,b,k: l <= 3 + n and p < 3 + n and (b == 0 or (l == p == f == 0)) and (k or b)), fns=['worker_submit'], bounded='queues of 3 and 4 entries'),
 'work.entry': dict(unit='work.c', replace=[], defs=['U_ENTRY'], cases=mix([4,3,2,2,2,2], None), unwind=9, fns=['worker_entry'], bounded='queue of 3 entries, at most 6 works'),
 'work.newfree': dict(unit='work.c', replace=[], defs=['U_NEWFREE'], cases=mix([7,4], lambda f,r: f == 6 or r == 0), unwind=9, fns=['worker_new','worker_free'], bounded='2 threads, queues of 4 entries'),
 'io.write': dict(unit='io.c', defs=['U_WRITE'], cases=[], also=[('worker_submit','vc_submit')], fns=['neco_write_dl','neco_write','write_dl','write3','iowrite','iowait','iodone','cowait'], bounded='at most 3 attempts'),
 'stream.read': dict(unit='stream.c', defs=['U_SREAD'], cases=seqcases([6,4,4,3,5,2], _srd, 5, (1,2,3), 2), also=_SRW, unwind=18, bounded=_SB, fns=['neco_stream_read_dl','neco_stream_read','neco_stream_readfull_dl','neco_stream_readfull','neco_stream_read_byte_dl','neco_stream_read_byte','ensure_rd_data']),
 'stream.unread': dict(unit='stream.c', defs=['U_SUNREAD'], cases=mix([4,4,3,4], lambda p,l,m,k: p + l <= 3 and (m or p + l == 0) and (k == 0 or p == 1)), also=_SRW, unwind=18, bounded=_SB, fns=['neco_stream_unread_byte','neco_stream_buffered_read_size','neco_stream_buffered_write_size']),
 'stream.write': dict(unit='stream.c', defs=['U_SWRITE'], cases=seqcases([6,4,3,8,2], _swr, 4, (0,1,2), 2), also=_SRW, unwind=18, bounded=_SB, fns=['neco_stream_write_dl','neco_stream_write','neco_stream_flush_dl','neco_stream_flush','neco_stream_close_dl','neco_stream_close','ensure_wr_data','stream_release']),
 'stream.raw': dict(unit='stream.c', defs=['U_SRAW'], cases=range(12), also=[('neco_malloc','vc_malloc'), ('neco_free','vc_free'), ('neco_read_dl','vc_read2'), ('neco_write_dl','vc_write2')], unwind=18, fns=['neco_stream_read_dl','neco_stream_write_dl','neco_stream_close_dl','neco_stream_release']),
 'stream.release': dict(unit='stream.c', defs=['U_SREL'], cases=mix([2,3,2], lambda w,m,r: m or not (w or r)), also=_SRW, unwind=18, fns=['neco_stream_release']),
 'stream.make': dict(unit='stream.c', defs=['U_SMAKE'], cases=mix([3,4,2], lambda f,b,n: not (b and n)), also=_SRW, unwind=18, fns=['neco_stream_make','neco_stream_make_buffered','neco_stream_make_buffered_size']),
 'chan.make': dict(unit='chanlife.c', defs=['U_MAKE'], cases=range(12), also=_MEM3, unwind=258, fns=['neco_chan_make','chan_make','chan_fastmake']),
 'chan.release': dict(unit='chanlife.c', defs=['U_RELEASE'], cases=mix([4,3,6,2], lambda o,b,c,f: b == 0 or (c == 1 and not f)), also=_MEM3, unwind=258, fns=['neco_chan_retain','neco_chan_release','neco_gen_retain','neco_gen_release','zchanpush']),
 'chan.freepool': dict(unit='chanlife.c', defs=['U_FREEPOOL'], cases=range(4), also=_MEM3, fns=['rt_freezchanpool'], bounded='at most 2 pooled channels'),
 'chan.ring': dict(unit='chanlife.c', defs=['U_RING'], cases=range(2), also=[('memcpy','vc_memcpy'),('cbufslot','vc_slot')], fns=['cbuf_push','cbuf_pop']),
 'chan.room': dict(unit='chanlife.c', defs=['U_MAKE','U_ROOM'], cases=mix([3,2,2,2,16], lambda f,p,x,k,v: not x and not p and f == 0), also=_MEM3, unwind=258, fns=['chan_fastmake'], bounded='message size or capacity from a set of 16 values'),
 'chan.slot': dict(unit='chanlife.c', defs=['U_SLOT'], cases=mix([2,16], lambda k,v: k or v < 15), bounded='message size or index from a set of 16 values', fns=['cbufslot']),
 'gen.ops': dict(unit='chanlife.c', defs=['U_GEN'], cases=mix([5,3], lambda o,w: o < 2 or w == 0), also=[('neco_chan_send_dl','vc_send'),('neco_chan_recv_dl','vc_recv_'),('neco_chan_close','vc_close')], fns=['neco_gen_yield_dl','neco_gen_yield','neco_gen_next_dl','neco_gen_next','neco_gen_close']),
 'io.wait': dict(unit='io.c', defs=['U_WAIT'], cases=mix([3,2,4,3,2], lambda f,k,p,m,q: f == 0 or (p == 1 and m == 0)), fns=['neco_wait_dl','neco_wait','wait_dl','wait_dl_addevent','copause','checkdl']),
 'io.read': dict(unit='io.c', defs=['U_READ'], cases=seqcases([2,2], lambda d,q: not d[0] or not d[1], 4, (1,2)), fns=['neco_read_dl','neco_read','read_dl','cowait'], bounded='at most 3 attempts'),
 'io.accept': dict(unit='io.c', defs=['U_ACCEPT'], cases=seqcases([2,2,2], lambda d,q: sum(d) < 2, 4, (1,2)), fns=['neco_accept_dl','neco_accept','accept_dl','setnonblock'], bounded='at most 3 attempts'),
 'io.connect': dict(unit='io.c', defs=['U_CONNECT'], cases=seqcases([2,2], lambda d,q: sum(d) < 2 and not (4 in q[:1]) and 1 not in q[1:], 6, (1,2,4)), fns=['neco_connect_dl','neco_connect','connect_dl'], bounded='at most 3 attempts'),
 'io.sigwait': dict(unit='io.c', defs=['U_SIGWAIT'], cases=mix([2,3,3,2,2], lambda w,n,m,a,b: m == 2 or (a == b == 0)), fns=['neco_signal_wait_dl','neco_signal_wait','checkwait'], bounded='at most 2 other waiters'),
 'io.sigwatch': dict(unit='io.c', defs=['U_SIGWATCH'], cases=range(4), unwind=34, fns=['neco_signal_watch','neco_signal_unwatch']),
 'sched.paused': dict(unit='sched.c', defs=['U_PAUSED'], cases=mix([3,3,2,2], lambda r,d,i,s: d or not s), also=[('rt_sched_event_step','vc_event_step'),('rt_sched_signal_step','vc_signal_step')], fns=['rt_sched_paused_step','i64_add_clamp'], bounded='at most 2 resumers, 2 deadlines, 1 finished work item'),
 'sched.events': dict(unit='sched.c', defs=['U_EVENTS'], cases=mix([4,4,3,8,2], lambda n,e,f,k,v: k >> n == 0 and (n > 0 or (f == k == v == 0)) and (e in (1,2) or (f == 0 and k == 0 and v == 0)) and (e == 2 or n < 3)), unwind=10, fns=['rt_sched_event_step','evexists','evcompare'], bounded='at most 3 event waiters on 2 descriptors, 2 events per step'),
 'sched.signals': dict(unit='sched.c', defs=['U_SIGNALS'], cases=mix([4,2,8,2,2,2], lambda n,s,w,a,o,q: w >> n == 0 and (q == 0 or (n < 3 and not s)) and (a or (n < 2 and w == 0)) and (not o or s == 0)), unwind=34, also=[('sigexitnow','vc_sigexit')], fns=['rt_sched_signal_step'], bounded='at most 3 signal waiters (and the given signals)'),
 'sched.sighandler': dict(unit='sched.c', defs=['U_SIGHANDLER'], cases=range(13), unwind=34, also=[('sigexitnow','vc_sigexit'),('crash_and_exit','vc_crash')], fns=['sighandler','sigallowhandler']),
 'stat': dict(unit='stat.c', defs=[], cases=mix([13,3,2], lambda o,h,f: (not f or o in (0,3,9)) and not (o == 0 and h != (2 if f else 1)) and not (o == 9 and f and h)), fns=['neco_getstats','getstats'], bounded='one waiter per operation (queues of any length do not change the counters)'),
 'sched.rc': dict(unit='sched.c', defs=['U_RC'], cases=mix([4,4], lambda n,o: o <= n), also=[('coroutine_free','vc_cofree')], fns=['rt_rc_step'], bounded='at most 3 pooled coroutines'),
 'life.start': dict(unit='life.c', defs=['U_START'], cases=_start, replace=NOEXIT, also=_MEM, unwind=34, fns=['neco_start','neco_startv','neco_gen_start','neco_gen_startv','start','coentry','cleanup','coexit','coroutine_new','coroutine_free'], bounded='1, 4 or 5 arguments'),
 'life.exit': dict(unit='life.c', defs=['U_EXIT'], cases=_exit, replace=NOEXIT, also=_MEM, unwind=34, fns=['coexit','neco_exit','neco_cleanup_push','neco_cleanup_pop'], bounded='at most 2 handlers, 1 canceler, 2 joiners'),
 'stack.hist': dict(unit='stack.c', defs=['U_HIST'], cases=_stk(6), tcases=_stk(8), unwind=260, replace=[], fns=['stack_mgr_init','stack_get','stack_put','stack_mgr_destroy','stack_group_new','stack_release_group','stack_size','stack_addr'], bounded='histories of at most 6 operations (8 in the thorough tier), blocks of 1 and 2 stacks', cbmc=['--no-pointer-check','--no-bounds-check']),
 'stack.layout': dict(unit='stack.c', defs=['U_LAYOUT'], cases=[0,2,4,7,8,9,10,12,15,16], tcases=range(24), unwind=30, replace=[], fns=['stack_align_size','stack_group_new','stack_get','stack_mgr_init'], cbmc=['--no-pointer-check','--no-bounds-check'], bounded='capacities of a block from a set of 5 (8 in the thorough tier), the first 4 stacks of a block'),
 'sco.any': dict(unit='scoany.c', defs=['SCO_NSHARDS=2'], cases=mix([6,2,4,4,3], lambda o,c,r,y,a: (o == 3 or (c == 1 and a == 0))), lift=True, replace=LLCO, unwind=12, cbmc=['--no-pointer-check','--no-bounds-check'], fns=['sco_start','sco_entry','sco_yield','sco_pause','sco_resume','sco_exit','sco_switch','sco_active']),
 'sco': dict(unit='sco.c', bounded='at most 3 coroutines in the run queue, 3 yielding and 2 paused', defs=['SCO_NSHARDS=2'], cases=_sco, replace=LLCO, unwind=10, cbmc=['--no-pointer-check','--no-bounds-check'], fns=['sco_start','sco_entry','sco_yield','sco_pause','sco_resume','sco_exit','sco_switch','sco_active']),
 'ops.sleep': dict(unit='ops.c', defs=['U_SLEEP'], cases=range(2), fns=['neco_sleep','neco_sleep_dl']),
 'ops.suspend': dict(unit='ops.c', defs=['U_SUSPEND'], cases=range(4), fns=['neco_suspend','neco_suspend_dl']),
 'ops.resume': dict(unit='ops.c', defs=['U_RESUME'], cases=range(3), fns=['neco_resume']),
 'ops.join': dict(unit='ops.c', bounded='at most 2 coroutines joined to the target', defs=['U_JOIN'], cases=mix([2,3,2,2], lambda w,h,o,t: h == 0 or not (o or t)), fns=['neco_join','neco_join_dl','coexit'], replace=NOEXIT, unwind=34),
 'ops.cancel': dict(unit='ops.c', bounded='at most 2 cancelers of the target', defs=['U_CANCEL'], cases=mix([2,3,3,2,2,2], lambda w,h,a,o,d,k: (h == 2 or not (a or d or k)) and not (w and (d or o)) and (h < 2 or a or d or k)), fns=['neco_cancel','neco_cancel_dl','neco_setcancelstate'], replace=NOEXIT, unwind=34),
 'ops.state': dict(unit='ops.c', defs=['U_STATE'], cases=mix([6,2,2], lambda o,n,x: o < 2 or not n), fns=['neco_setcanceltype','neco_setcancelstate','neco_yield','neco_getid','neco_lastid','neco_starterid']),
 'ops.yield': dict(unit='ops.c', defs=['U_STATE','U_YIELD'], cases=mix([6,2,2], lambda o,n,x: o == 2 and not n), fns=['neco_yield']),
 'ops.outside': dict(unit='ops.c', defs=['U_OUTSIDE'], cases=range(10), fns=[]),
 'wg.done': dict(unit='wg.c', bounded='at most 3 waiters', defs=['U_DONE'], cases=mix([4,3], lambda n,z: z or not n), fns=['neco_waitgroup_done']),
 'wg.add': dict(unit='wg.c', bounded='at most 3 waiters', defs=['U_ADD'], cases=mix([4,3,2], lambda n,z,d: z or not n), fns=['neco_waitgroup_add']),
 'wg.wait': dict(unit='wg.c', bounded='at most 3 waiters', defs=['U_WAIT'], cases=mix([4,3,2,2,3,2], lambda n,z,w,b,a,p: (z or not n) and not (p and a != 1) and
      ((n == 1 and z == 2 and not w) or (b == a == p == 0 and not (w and n)))), fns=['neco_waitgroup_wait_dl','neco_waitgroup_wait']),
 'wg.misuse': dict(unit='wg.c', defs=['U_MISUSE'], cases=mix([6,5], lambda o,w: not (w == 1 and o == 5) and not (w == 3 and o in (2,3)) and not (w == 4 and o)), fns=['neco_waitgroup_init','neco_waitgroup_destroy']),
 'cond.signal': dict(unit='cond.c', bounded='at most 3 waiters', defs=['U_SIGNAL'], cases=range(4), fns=['neco_cond_signal']),
 'cond.broadcast': dict(unit='cond.c', bounded='at most 3 waiters', defs=['U_BCAST'], cases=range(4), fns=['neco_cond_broadcast']),
 'cond.wait': dict(unit='cond.c', bounded='at most 3 waiters', defs=['U_WAIT'], cases=mix([2,2,3,2,2,3,2,3,2,2], lambda n,w,m,ci,b,a,p,r,ca,de:
      not (p and (not a or (a == 1 and b))) and not (w and de) and ((a == 2 or (a == 1 and not b)) or ca or de) and
      ((m == 0 and not w and not n and not ci) or (b == p == ca == de == 0 and a == 1 and r == 1 and not (w and n)))), fns=['neco_cond_wait_dl','neco_cond_wait']),
 'cond.misuse': dict(unit='cond.c', defs=['U_MISUSE'], cases=mix([6,6], lambda o,w: not (w == 1 and o == 5) and not (w == 3 and o in (1,2,3)) and not (w == 4 and o not in (2,3)) and not (w == 5 and o)), fns=['neco_cond_init','neco_cond_destroy']),
 'chan.select': dict(unit='select.c', bounded='at most 3 channels', cases=mix([7,2,5,5,4,2,2], _sel), unwind=10, fns=['neco_chan_selectv_dl','neco_chan_selectv','neco_chan_tryselectv','neco_chan_case']),
 'chan.recv': dict(unit='chan.c', bounded='channels of at most 2 messages, 2 waiters', defs=['U_RECV'], cases=chcases(False, [2,2,4,2], _recv), unwind=7, fns=['neco_chan_recv_dl','neco_chan_recv']),
 'chan.tryrecv': dict(unit='chan.c', bounded='channels of at most 2 messages, 2 waiters', defs=['U_TRYRECV'], cases=chcases(False), unwind=7, fns=['neco_chan_tryrecv']),
 'chan.send': dict(unit='chan.c', bounded='channels of at most 2 messages, 2 waiters', defs=['U_SEND'], cases=chcases(True, [2,2,2,3,2], _send), unwind=7, fns=['neco_chan_send_dl','neco_chan_send']),
 'chan.broadcast': dict(unit='chan.c', bounded='channels of at most 2 messages, 2 waiters', defs=['U_BCAST'], cases=chcases(True), unwind=7, fns=['neco_chan_broadcast']),
 'chan.close': dict(unit='chan.c', bounded='channels of at most 2 messages, 2 waiters', defs=['U_CLOSE'], cases=chcases(True), unwind=7, fns=['neco_chan_close']),
 'mutex.lock': dict(unit='mutex.c', bounded='at most 3 waiters', defs=['U_LOCK'], cases=_lk(0), fns=['neco_mutex_lock_dl']),
 'mutex.rdlock': dict(unit='mutex.c', bounded='at most 3 waiters', defs=['U_RDLOCK'], cases=_lk(1), fns=['neco_mutex_rdlock_dl']),
 'mutex.trylock': dict(unit='mutex.c', bounded='at most 3 waiters', defs=['U_TRY=1'], cases=mix([4,4], lambda n,h: h > 0 or n == 0), fns=['neco_mutex_trylock']),
 'mutex.tryrdlock': dict(unit='mutex.c', bounded='at most 3 waiters', defs=['U_TRY=2'], cases=mix([4,4], lambda n,h: h > 0 or n == 0), fns=['neco_mutex_tryrdlock']),
 'mutex.unlock': dict(unit='mutex.c', bounded='at most 3 waiters', defs=['U_UNLOCK'], cases=mix([4,8,4], lambda n,r,h: r >> n == 0 and (h > 0 or n == 0)), fns=['neco_mutex_unlock']),
 'mutex.destroy': dict(unit='mutex.c', bounded='at most 3 waiters', defs=['U_DESTROY'], cases=mix([4,4], lambda n,h: h > 0 or n == 0), fns=['neco_mutex_destroy']),
 'mutex.misuse': dict(unit='mutex.c', defs=['U_INIT'], cases=range(36), fns=['neco_mutex_init']),
}
def _iow():
    out = []
    R = [2,2,2,2]           # wrap, ctl fails, worker, canceled first
    for b in mix(R):
        d, x = [], b
        for r in R: d.append(x % r); x //= r
        if sum(d[:2]) > 1 or (d[3] and not d[2]): continue
        for q in _seq(5, (1,2,4)):
            if d[2] and (len(q) > 2 or d[1]): continue
            if d[0] and len(q) > 2: continue
            for sch in ((0,1) if d[2] else (0,)):
                e = 0
                for v in reversed(q):
                    if d[2]: e = e * 2 + sch
                    e = e * 5 + v
                out.append(b + 16 * e)
    return sorted(set(out))
JOBS['io.write']['cases'] = _iow()
# trees: level, operation, form of each node in preorder (0: one key, 1: two)
def _forms(level):
    """(number of nodes, bit string in construction order)"""
    if level == 0: return [(0, ())]
    sub = _forms(level - 1)
    out = [(a + b + 1, (0,) + x + y) for a, x in sub for b, y in sub]
    return out + [(a + b + c + 2, (1,) + x + y + z) for a, x in sub for b, y in sub for c, z in sub]
def _num(bits): return sum(b << i for i, b in enumerate(bits))
_aatA = sorted(set(l + 4 * (op + 4 * _num(b)) for l in range(4) for n, b in _forms(l) if n <= 8 for op in range(3)))
_aatS = sorted(set(l + 4 * (op + 4 * _num(b)) for l in range(3) for n, b in _forms(l) if n <= 5 for op in range(3)))
def _aatB():
    out = []
    for op in range(4):
        for where in ((0,1,2) if op < 2 else (0,)):
            for absent in ((0,1) if op < 2 and not (where == 1) else (0,)):
                for n, b in _forms(2):
                    three = b[0]
                    left = where == 0 if op == 0 else where < 2 if op == 1 else op == 2
                    # level (1 or 2) and nodes on top of the subtree descended into
                    kid = lambda i: b[1+i] + 1
                    h, k = (2, 1) if three and not left else (1, kid(0 if left else 1))
                    if op == 0 and where == 1: rs = [()]
                    elif absent: rs = [()]
                    else:
                        F = lambda h, top: [x for _, x in _forms(h) if not (top and x[0])] if h else [()]
                        cut = lambda h, top: [x[1:] for _, x in _forms(h) if not x[0]] if top else [x for _, x in _forms(h)] if h else [()]
                        if op == 0: rs = [(0,) + x for x in cut(h, 0)] + ([(1,) + x for x in cut(h + 1, 1)] if k == 2 else [])
                        else: rs = [(1,) + x for x in cut(h - 1, 0)] + [(0,) + x for x in cut(h, k == 1)]
                    for r in rs:
                        for base in (0, 1, 2, 3): out.append(op + 4 * (where + 3 * (absent + 2 * _num((base % 2, base // 2) + b + r))))
    return sorted(set(out))
def _rot(cs):
    # each structural case with one of the four kinds of opaque subtrees, in turn
    by = {}
    for x in cs: by.setdefault((x % 24, x // 96), []).append(x)
    return sorted(v[i % len(v)] for i, (k, v) in enumerate(sorted(by.items())))
for _t, _n in ((1,'all'), (2,'dlqueue'), (3,'evaat'), (4,'sco_aat')):
    JOBS['aat.cmp.%s' % _n] = dict(unit='aat.c', defs=['U_CMP', 'TREE=%d' % _t], replace=[], fns=['%s_compare' % _n])
    JOBS['aat.shapes.%s' % _n] = dict(unit='aat.c', defs=['U_SHAPES', 'TREE=%d' % _t], replace=[], cases=_aatA if _t == 4 else _aatS, tcases=_aatA, unwind=30, bounded='trees of at most %d items' % (8 if _t == 4 else 5), fns=[_n + x for x in ('_insert','_delete','_search','_iter','_first','_next')])
    JOBS['aat.induct.%s' % _n] = dict(unit='aat.c', defs=['U_INDUCT', 'TREE=%d' % _t], lift=True, late='aat_late.c', cases=_rot(_aatB()) if _t == 4 else [x for x in _rot(_aatB()) if x % 4 == 1][(_t-1)::12], tcases=_aatB(), unwind=40, timeout=20,
        replace=[(_n + '_insert0', 'vc_insert0'), (_n + '_delete0', 'vc_delete0'), (_n + '_delete_first0', 'vc_delete_end'), (_n + '_delete_last0', 'vc_delete_end')], fns=[_n + x for x in ('_insert0','_delete0','_delete_first0','_delete_last0')])
_qw = mix([4,2,2,2], lambda q,a,b,h: q == 1 or not (a or b or h))
for _n, _d, _f in (('mutex.lock','W_LOCK','neco_mutex_lock_dl'), ('mutex.rdlock','W_RDLOCK','neco_mutex_rdlock_dl'), ('wg.wait','W_WG','neco_waitgroup_wait_dl'), ('ops.join','W_JOIN','neco_join_dl')):
    JOBS[_n + '.any'] = dict(unit='queue.c', defs=['U_WAIT', _d] + (['NO_GRANT_FLAG'] if _d in ('W_WG','W_JOIN') else []), cases=_qw, lift=True, unwind=9, fns=[_f])
_qk = mix([4,2,2,4,2], lambda q,a,b,h,k: (a == b == 1 and h > 0) if q > 1 and a and b else (h == k == 0 and (a == b == 0 if q == 0 else b == 0 if q == 1 else 1)))
_q1 = mix([4,2,2,4,2], lambda q,a,b,h,k: a == b == k == 0 and (q > 0 or h == 0))
for _n, _d, _f, _c in (('mutex.unlock',['K_UNLOCK'],'neco_mutex_unlock',_qk), ('wg.done',['K_WG=1'],'neco_waitgroup_done',_q1), ('wg.add',['K_WG=2'],'neco_waitgroup_add',_q1),
     ('cond.broadcast',['K_BCAST'],'neco_cond_broadcast',_q1), ('ops.state',['K_CSTATE'],'neco_setcancelstate',_q1)):
    JOBS[_n + '.any'] = dict(unit='queue.c', defs=['U_WAKE','CUT'] + _d, cases=_c, lift=True, unwind=9, also=[('colist_pop_front','vc_pop')], fns=[_f], cut=dict(root=_f))
JOBS['cond.signal.any'] = dict(unit='queue.c', defs=['U_WAKE','K_SIGNAL'], cases=range(4), lift=True, unwind=9, fns=['neco_cond_signal'])
for _n, _a in (('life.joiners','joinlist'), ('life.cancelers','cancellist')):
    JOBS[_n + '.any'] = dict(unit='queue.c', defs=['U_WAKE','CUT','K_EXIT=%d' % (1 if _a == 'joinlist' else 2)], cases=_q1, lift=True, unwind=34, replace=NOEXIT, also=[('colist_pop_front','vc_pop')], fns=['coexit'], cut=dict(root='coexit', arg=_a))
_MO = ['--max-field-sensitivity-array-size','100']
for _n, _cs in (('wg',[0,1]), ('cond',[2]), ('mutex',[3]), ('state',[4]), ('join',[5]), ('cancel',[6]), ('close',[7]), ('bcast',[8]), ('handlers',[9])):
    JOBS['many.' + _n] = dict(unit='many.c', defs=['NM=70'] + (['M_EXIT'] if _n == 'handlers' else []), cases=_cs, unwind=72, replace=NOEXIT, cbmc=_MO, fns=[], bounded='exactly 70 waiters')
for _n, _cs in (('step',[0,1,2]), ('pool',[3])):
    JOBS['many.' + _n] = dict(unit='many.c', defs=['NM=70','MANY_SCHED'], cases=_cs, unwind=72, also=[('dlqueue_first','vm_dl_first'),('dlqueue_next','vm_dl_next'),('sco_resume','sco_resume_many'),('coroutine_free','vm_cofree')], replace=[x for x in NOEXIT if not x[0].startswith('dlqueue_')], cbmc=_MO, fns=[], bounded='exactly 70 waiters')
PROPS = {
 'C29': dict(jobs=['run']),
 'C22': dict(jobs=['err.misuse','err.conv','ops.outside','mutex.misuse','cond.misuse','wg.misuse']),
 'C25': dict(jobs=['aat.%s.%s' % (a, b) for b in ('all','dlqueue','evaat','sco_aat') for a in ('cmp','shapes','induct')]),
 'C27': dict(jobs=['work.neco','work.submit','work.entry','work.newfree']),
 'C19': dict(jobs=['stream.read','stream.unread','stream.write','stream.raw','stream.release','stream.make']),
 'C05': dict(jobs=['chan.make','chan.release','chan.freepool','chan.ring','chan.room','chan.slot']),
 'C06': dict(jobs=['gen.ops','life.start','life.exit']),
 'C15': dict(jobs=['sched.paused','many.step']),
 'C17': dict(jobs=['sched.events','io.wait']),
 'C18': dict(jobs=['io.read','io.write','io.accept','io.connect']),
 'C20': dict(jobs=['sched.signals','sched.sighandler','io.sigwait','io.sigwatch']),
 'C21': dict(jobs=['sched.rc','stat','many.pool']),
 'C12': dict(jobs=['life.exit','life.joiners.any','life.cancelers.any','many.join','many.cancel','many.handlers']),
 'C16': dict(jobs=['life.start']),
 'C26': dict(jobs=['stack.hist','stack.layout']),
 'C24': dict(jobs=['sco','sco.any']),
 'C01': dict(jobs=['chan.recv','chan.send']),
 'C02': dict(jobs=['chan.close','chan.tryrecv','many.close']),
 'C03': dict(jobs=['chan.broadcast','many.bcast']),
 'C04': dict(jobs=['chan.select']),
 'C07': dict(jobs=['mutex.lock','mutex.rdlock','mutex.trylock','mutex.tryrdlock','mutex.unlock','mutex.destroy','mutex.misuse','lists','mutex.lock.any','mutex.rdlock.any','mutex.unlock.any','many.mutex']),
 'C08': dict(jobs=['cond.signal','cond.broadcast','cond.wait','cond.misuse','cond.broadcast.any','cond.signal.any','many.cond']),
 'C09': dict(jobs=['wg.done','wg.add','wg.wait','wg.misuse','wg.wait.any','wg.done.any','wg.add.any','many.wg']),
 'C10': dict(jobs=['ops.sleep','ops.yield']),
 'C11': dict(jobs=['ops.cancel','ops.state','ops.state.any','life.cancelers.any','many.state','many.cancel']),
 'C13': dict(jobs=['ops.join','ops.join.any','life.joiners.any','many.join']),
 'C14': dict(jobs=['ops.suspend','ops.resume']),
}

_Q3 = 'queues of at most 3 other waiters'
_CHB = 'channel capacity at most 2, messages of fixed size, queues of at most 2 waiters'
for _j, _b in {'mutex.lock': _Q3, 'mutex.rdlock': _Q3, 'mutex.unlock': _Q3, 'mutex.trylock': _Q3, 'mutex.tryrdlock': _Q3, 'mutex.destroy': _Q3,
   'wg.done': _Q3, 'wg.add': _Q3, 'wg.wait': _Q3, 'cond.signal': _Q3, 'cond.broadcast': _Q3, 'cond.wait': _Q3,
   'chan.recv': _CHB, 'chan.send': _CHB, 'chan.tryrecv': _CHB, 'chan.close': _CHB, 'chan.broadcast': _CHB, 'chan.select': _CHB + ', at most 2 channels', 'sco': 'at most 2 runners, 2 yielders and 2 paused coroutines',
   'ops.join': 'at most 1 other joiner', 'ops.cancel': 'at most 1 other canceler'}.items(): JOBS[_j]['bounded'] = _b
TECH = 'contract-based deductive verification of the real C code: executable pre/postconditions, rely/guarantee at switch points, discharged per function by CBMC'
LEVEL_NOTE = ('Every obligation is generated from the sources in /repo on each run and decided by CBMC with all scalars symbolic, one query per structural case, '
  'unwinding assertions on. Other coroutines are represented by a rely step at every point where control leaves the function, which runs their real code where it matters. '
  'Assumed: contracts of the context switch layer, clock, AA-tree maps (verified separately where claimed), and of libc and the kernel; see DESIGN.md.')
NOT_APPLICABLE = []
DEFAULT_ASSUME = [
 'one coroutine at a time: control leaves a coroutine only at sco_pause/sco_yield/sco_resume/sco_exit (single threaded runtime)',
 'the monotonic clock does not run backwards (getnow replaced by its contract)',
 'deadline queue, coroutine map and event map behave as sets (AA-tree contract stubs)',
 'coroutine and runtime identifiers are opaque: concrete distinct values stand for all',
 'x86_64 Linux data model, gcc extensions as CBMC implements them',
]
def trusted(jl):
    out = []
    for j in jl:
        from run import WORLD_REPL
        for o, s in list(j.d.get('replace', WORLD_REPL)) + list(j.d.get('also', [])): out.append('contract stub %s for %s' % (s, o))
        out += j.d.get('trust', [])
    return out
def known_findings():
    """known: {json} lines of known_findings.txt (fixed: lines suppress nothing)"""
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('known: '): out.append(json.loads(l[7:]))
    return out
