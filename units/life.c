// Contracts of starting and ending coroutines: neco_start/startv, generators'
// start, the entry point, clean-up handlers, coexit, and the pool.
#include "world.h"
// ---- allocator contract: fresh uninitialised memory or NULL ----
static int nalloc, fail_at = -1;     // fail_at: which allocation is refused
static int live;                     // blocks not yet freed
static void *ARGV[8];
static struct { struct neco_chan c; char guard[8]; } GC;
static bool co_live, argv_live, gen_live, stk_live;
void *vc_malloc(size_t n) {
    int k = nalloc++;
    if (k == fail_at) return NULL;
    live++;
    if (n == sizeof(struct coroutine)) { CHECK(!co_live, "one coroutine is allocated"); co_live = true; return &C1; }
    if (n == sizeof(struct neco_chan)) { CHECK(!gen_live, "one channel is allocated"); gen_live = true; return &GC.c; }
    CHECK(n == 5 * sizeof(void*) && !argv_live, "memory for the arguments is allocated");
    argv_live = true;
    return ARGV;
}
void vc_free(void *p) {
    if (!p) return;
    live--;
    CHECK((p == &C1 && co_live) || (p == &C0) || (p == &GC.c && gen_live) || (p == ARGV && argv_live), "only live memory is freed, once");
    if (p == &C1) co_live = false;
    if (p == &GC.c) gen_live = false;
    if (p == ARGV) argv_live = false;
}
// ---- stack contract (verified in units/stack.c) ----
static char STK[64];
static bool stk_fail;
int stack_get(struct stack_mgr *m, struct stack *s) {
    CHECK(m == &R.stkmgr, "from this runtime");
    CHECK(!stk_live, "one stack");
    if (stk_fail) return -1;
    stk_live = true; s->_[0] = 77;
    return 0;
}
void stack_put(struct stack_mgr *m, struct stack *s) {
    CHECK(m == &R.stkmgr && s->_[0] == 77 && stk_live, "a stack is given back once");
    stk_live = false;
}
size_t stack_size(struct stack *s) { CHECK(s->_[0] == 77, "a stack in use"); return sizeof(STK); }
void *stack_addr(struct stack *s) { CHECK(s->_[0] == 77, "a stack in use"); return STK; }

#ifdef U_START
static int form, pooled, argc0, inside;
static void *A[5];
static neco_gen *gen;
static int runs;
static struct coroutine *newco;
static int env_t, env_s;
static int64_t newid;
static size_t gsize;
static int64_t me_lastid, me_starterid;
static bool me_canceled;
static int handler_runs;
static void handler(void *p) { (void)p; handler_runs++; }
static void unit_leave(int why) { (void)why; CHECK(0, "the starter gives up control only to the new coroutine"); }
static void unit_env(int why) { (void)why; }
#define ISGEN (form >= 2)
static void usr(int argc, void *argv[]) {
    struct coroutine *co = self_;
    runs++;
    CHECK(argc == argc0, "the coroutine gets its number of arguments");
    for (int i = 0; i < 5; i++) if (i < argc0) CHECK(argv[i] == A[i], "the coroutine gets its arguments");
    CHECK(neco_getid() == newid && newid > 0, "with its own identifier");
    CHECK(neco_starterid() == (inside ? ME.id : 0), "and knows its starter");
    CHECK(neco_lastid() == 0, "it has not started any coroutine");
    CHECK(IMP(inside, ME.lastid == newid), "the starter knows the last coroutine it started");
    CHECK(!co->canceled && !co->deadlined && !co->paused && !co->suspended && !co->cleanup && !co->sigwatch && co->njoinlist == 0 && co->ncancellist == 0 &&
        colist_is_empty(&co->joinlist) && colist_is_empty(&co->cancellist), "nothing of an earlier coroutine is left");
    int old;
    CHECK(neco_setcanceltype(NECO_CANCEL_INLINE, &old) == NECO_OK && old == env_t, "cancel type of the environment");
    CHECK(neco_setcancelstate(NECO_CANCEL_DISABLE, &old) == NECO_OK && old == env_s, "cancel state of the environment");
    CHECK(G.in_all[coidx(co)] && R.all.count == S0.all.count + 1, "it is known to the runtime");
    CHECK(cofind(newid) == co, "by its identifier");
    CHECK(R.ntotal == S0.ntotal + 1, "and counted");
    CHECK(ISGEN ? co->gen && co->gen == (struct neco_chan*)gen && co->gen->rc == 1 && co->gen->msgsize == (int)gsize && co->gen->rtid == R.id && !co->gen->sclosed : !co->gen, "only a generator has a generator");
    CHECK(IMP(!ISGEN, neco_gen_yield(A) == NECO_NOTGENERATOR), "others cannot generate");
    // leave a mess behind for the next user of the slot
    __neco_c0(&(struct cleanup){0}, handler, 0);
    __neco_c1(0);
    REACH(1, "the coroutine runs");
}
void sco_start(struct sco_desc *d) {
    newco = d->udata;
    CHECK(newco == (pooled ? &C0 : &C1), "a pooled coroutine is reused");
    CHECK(d->stack == STK && d->stack_size == sizeof(STK) && d->entry && d->cleanup, "its own stack");
    struct coroutine *was = self_;
    self_ = newco;
    newco->id = newid;         // sco_id() of the new context
    d->entry(d->udata);
    CHECK(!G.in_all[coidx(newco)] && R.all.count == S0.all.count, "an ended coroutine is no longer known");
    CHECK(!argv_live && !newco->argv, "its arguments are released");
    CHECK(handler_runs == 0, "a popped handler does not run");
    CHECK(R.npool == 0, "not reused while its stack is in use");
    d->cleanup(STK, sizeof(STK), d->udata);
    CHECK(R.npool == 1 && list_is(&R.pool, newco, 0, 0, 0), "the ended coroutine is pooled");
    CHECK(IMP(ISGEN, newco->gen == NULL && gen_live && GC.c.rc == 0 && GC.c.sclosed && GC.c.rclosed), "its generator is closed, the starter's reference stays");
    self_ = was;
}
#define FN neco_startv
CONTRACT(int, FN, void (*f)(int, void**), int argc, void **argv)
ENS("a start that succeeds runs the coroutine", IMP(RET == NECO_OK, runs == 1 && newco))
ENS("one that fails does not", IMP(RET != NECO_OK, runs == 0))
ENS("it fails only for lack of memory", IMP(RET != NECO_OK, RET == NECO_NOMEM && (fail_at >= 0 || stk_fail)))
ENS("without memory it fails", IMP((fail_at >= 0 && nalloc > fail_at) || (stk_fail && !pooled), RET == NECO_NOMEM))
ENS("a failed start leaves nothing behind", IMP(RET != NECO_OK, live == (pooled ? -1 : 0) && !co_live && !argv_live && !gen_live && !stk_live && R.npool == 0))
ENS("a finished coroutine leaves only its pool entry", IMP(RET == NECO_OK, live == (pooled ? 0 : 1) + (ISGEN ? 1 : 0) && stk_live && !argv_live))
ENS("the starter knows its child", IMP(inside, ME.lastid == (RET == NECO_OK ? newid : me_lastid)))
ENS("the starter is otherwise unchanged", IMP(inside, ME.starterid == me_starterid && ME.canceled == me_canceled && no_trace()))
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    world_init();
    form = dig(&c, 4); pooled = dig(&c, 2); inside = dig(&c, 2);
    int a = dig(&c, 3); argc0 = a == 0 ? 1 : a == 1 ? 4 : 5;
    fail_at = dig(&c, 5) - 1;
    if (fail_at == 3) { fail_at = -1; stk_fail = true; }
    G.in_all[0] = true;
    env_t = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE; env_s = nd_bool() ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE;
    neco_env_setcanceltype(env_t); neco_env_setcancelstate(env_s);
    for (int i = 0; i < 5; i++) A[i] = (void*)(uintptr_t)nd_u64();
    newid = 4711; gsize = 12;
    R.ntotal = S0.ntotal = (size_t)nd_count();
    me_lastid = ME.lastid; me_starterid = ME.starterid;
    ME.canceled = me_canceled = nd_bool();
    if (!inside) self_ = NULL;
    if (pooled) {   // whatever an ended coroutine left: see U_EXIT for what coexit guarantees
        C0.id = nd_i64(); C0.lastid = nd_i64(); C0.starterid = nd_i64(); C0.canceled = nd_bool(); C0.deadlined = nd_bool();
        C0.canceltype = nd_int(); C0.cancelstate = nd_int(); C0.cleanup = nd_bool() ? (void*)ARGV : NULL; C0.granted = nd_bool();
        C0.sigmask = nd_uint(); C0.evfd = nd_int(); C0.cmsg = 0; C0.cclosed = nd_bool(); C0.deadline = nd_i64();
        C0.pool_ts = nd_i64(); C0.sigwatch = nd_uint();
        C0.argc = 0; C0.argv = NULL;
        C0.stack._[0] = 77; stk_live = true;
        colist_push_back(&R.pool, &C0); R.npool = 1;
    } else {        // fresh memory holds anything
        C1.id = nd_i64(); C1.lastid = nd_i64(); C1.canceled = nd_bool(); C1.deadlined = nd_bool(); C1.paused = nd_bool();
        C1.suspended = nd_bool(); C1.rlocked = nd_bool(); C1.sigwatch = nd_uint(); C1.sigmask = nd_uint(); C1.njoinlist = nd_int();
        C1.ncancellist = nd_int(); C1.cleanup = nd_bool() ? (void*)ARGV : NULL; C1.prev = C1.next = 0;
        C1.joinlist.head.next = C1.cancellist.head.next = &C2; C1.gen = nd_bool() ? &GC.c : NULL; C1.kind = SELECTCASE;
    }
    if (ISGEN) { GC.c.rc = nd_int(); GC.c.sclosed = nd_bool(); GC.c.rclosed = nd_bool(); GC.c.buflen = nd_int(); GC.c.bufpos = nd_int(); GC.c.qrecv = nd_bool(); }
    int r;
    if (form == 0) r = argc0 == 1 ? neco_start(usr, 1, A[0]) : argc0 == 4 ? neco_start(usr, 4, A[0], A[1], A[2], A[3]) : neco_start(usr, 5, A[0], A[1], A[2], A[3], A[4]);
    else if (form == 1) r = neco_startv(usr, argc0, A);
    else if (form == 2) r = argc0 == 1 ? neco_gen_start(&gen, gsize, usr, 1, A[0]) : argc0 == 4 ? neco_gen_start(&gen, gsize, usr, 4, A[0], A[1], A[2], A[3]) : neco_gen_start(&gen, gsize, usr, 5, A[0], A[1], A[2], A[3], A[4]);
    else r = neco_gen_startv(&gen, gsize, usr, argc0, A);
    POST(FN)(r, usr, argc0, A);
    REACH(r == NECO_NOMEM, "out of memory");
}
#endif

#ifdef U_EXIT
// the end of a coroutine: by neco_exit (cleanup stack unrolled) or by returning
static int how, nh, nc, nj, withgen, rcv, heapargs, hmode;
static struct cleanup H[3];
static int order[3], nran;
static bool bad_arg, teardown_seen;
static uint32_t watch;
static int w0[32];
static void handler(void *p) {
    int i = p == &H[0] ? 0 : p == &H[1] ? 1 : 2;
    if (nran < 3) order[nran] = i;
    nran++;
    if (p != &H[0] && p != &H[1] && p != &H[2]) bad_arg = true;
    if (!G.in_all[0] || R.nresumers != 0 || (withgen && (!ME.gen || GC.c.sclosed)) || !ME.argv) teardown_seen = true;
    CHECK(how == 0 || (!ME.canceled && ME.cancelstate == NECO_CANCEL_DISABLE), "a handler cannot be canceled");
    if (hmode == 1 && i == 0) { neco_setcancelstate(NECO_CANCEL_DISABLE, 0); CHECK(neco_yield() == NECO_OK, "a handler may wait"); }
}
static bool yielded_in_handler;
static int why_last;
static bool woken;
static void check_woken(void) {      // before anybody else runs
    if (woken) return;
    woken = true;
    CHECK(!G.in_all[0], "the coroutine is no longer known when others run");
    // the order matters only among those that wait for the same
    int m = nc + nj, at[3] = { -1, -1, -1 };
    for (int i = 0; i < 3; i++) { struct coroutine *co = list_at(&R.resumers, i); for (int k = 0; k < 3; k++) if (co && co == CO(k) && at[k] < 0) at[k] = i; }
    bool g = rcv == 1 && withgen;     // C2 waits for the next value of its generator
    CHECK(IMP(nc, at[0] >= 0) && IMP(nj > 0, at[1] >= 0) && IMP(nj > 1, at[2] >= 0), "everybody who waits for it is woken");
    CHECK(IMP(nj > 1, at[1] < at[2]), "in order");
    if (g && GC.c.sclosed) { m++; CHECK(at[2] >= 0, "and who waits for its generator"); CHECK(C2.cclosed, "and told that it is closed"); }
    CHECK(list_len(&R.resumers) == m && R.nresumers == m, "and nobody else");
}
static void check_down(void) {
    CHECK(!G.in_all[0] && R.all.count == S0.all.count - 1, "the coroutine is no longer known");
    CHECK(colist_is_empty(&ME.cancellist) && colist_is_empty(&ME.joinlist), "nobody is left waiting for it");
    for (int s = 1; s < 32; s++) CHECK(R.sigwatchers[s] == w0[s] - ((watch >> s) & 1), "its signals are no longer watched");
    CHECK(ME.sigwatch == 0 && !ME.canceled, "it can not be canceled any more");
    CHECK(!ME.gen && IMP(withgen, GC.c.sclosed && gen_live == (rcv != 2) && IMP(gen_live, GC.c.rc == 0)), "its generator is closed and released");
    CHECK(!ME.argv && !argv_live, "its arguments are released");
}
static void unit_leave(int why) {
    if (why == W_YIELD && G.in_all[0]) { yielded_in_handler = true; CHECK(hmode == 1, "yields before the teardown only in a handler"); return; }
    if (why == W_YIELD || why == W_RESUME) { CHECK(nc || nj || withgen, "lets others run only to wake them"); check_woken(); return; }
    CHECK(why == W_EXIT && how == 1, "only neco_exit ends the coroutine there");
    CHECK(nran == nh && !bad_arg, "every handler runs once, with its argument");
    for (int i = 0; i < 3; i++) if (i < nh) CHECK(order[i] == nh - 1 - i, "in reverse order");
    CHECK(!teardown_seen, "while the coroutine is still intact");
    CHECK(ME.cleanup == NULL, "no handler is left");
    check_woken(); check_down();
    CHECK(G.exits == 1, "the coroutine ends once");
    REACH(nh == 2, "exit with handlers");
}
static void unit_env(int why) {
    (void)why;
    if (G.in_all[0]) { if (nd_bool()) lasterr = nd_int(); return; }
    // the woken coroutines ran
    if (nc) remove_from_list(&C0);
    if (nj > 0) remove_from_list(&C1);
    if (nj > 1 || rcv == 1) remove_from_list(&C2);
    R.nresumers = 0;
}
static void vrun(int c) {
    world_init();
    how = dig(&c, 2); nh = dig(&c, 3); nc = dig(&c, 2); nj = dig(&c, 3); withgen = dig(&c, 2); rcv = dig(&c, 3); heapargs = dig(&c, 2); hmode = dig(&c, 2);
    G.in_all[0] = true;
    ME.canceled = nd_bool(); ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    if (how == 0) { ME.canceltype = NECO_CANCEL_INLINE; }
    if (nc) { C0.paused = true; colist_push_back(&ME.cancellist, &C0); ME.ncancellist = 1; }
    if (nj > 0) { C1.paused = true; colist_push_back(&ME.joinlist, &C1); }
    if (nj > 1) { C2.paused = true; colist_push_back(&ME.joinlist, &C2); }
    ME.njoinlist = nj;
    if (heapargs) { ME.argv = ARGV; argv_live = true; ME.argc = 5; live++; } else { ME.argv = ME.aargv; ME.argc = 1; }
    watch = nd_uint() & ~1u; ME.sigwatch = watch;
    for (int s = 1; s < 32; s++) { w0[s] = R.sigwatchers[s] = nd_count() + 1; }
    if (withgen) {      // rcv: 0 starter still holds it, 1 a receiver waits, 2 last reference
        gen_live = true; live++;
        GC.c.rtid = R.id; GC.c.msgsize = 4; GC.c.rc = rcv == 2 ? 0 : 1; colist_init(&GC.c.queue);
        ME.gen = &GC.c;
        if (rcv == 1) { GC.c.qrecv = true; C2.paused = true; C2.cmsg = (char*)ARGV; colist_push_back(&GC.c.queue, &C2); }
    }
    for (int i = 0; i < nh; i++) __neco_c0(&H[i], handler, &H[i]);
    if (how == 1) {
        neco_exit();
        CHECK(0, "neco_exit does not return");
    } else {
        while (nh > 0 && ME.cleanup) { __neco_c1(nh & 1); if (nh & 1) CHECK(nran == 1 && order[0] == nh - 1, "the innermost handler is popped and run"); else CHECK(nran == 0, "or popped and not run"); break; }
        ME.cleanup = NULL; nran = 0;
        coexit(false);
        CHECK(nran == 0, "no handler runs after a return");
        CHECK(G.exits == 0, "the entry function returns");
        check_woken(); check_down();
        REACH(1, "returned");
    }
}
#endif
