// Contracts of the neco_waitgroup_* operations.
#if defined(U_MISUSE)
#define NEVER_LEAVES
#endif
#include "world.h"
static struct neco_waitgroup W;
static int n0, cnt0, es;
static bool canceled_in, canc, deadl, granted, env_done;
static int64_t dl0;
static bool queue_is(int k, struct coroutine *x) {
    struct coroutine *e[5] = { 0 };
    int m = 0;
    for (int i = 0; i < NCO; i++) if (i >= k && i < n0) e[m++] = CO(i);
    if (x) e[m++] = x;
    return list_is(&W.queue, e[0], e[1], e[2], e[3]);
}
static void wg_setup(int n, int zero) {
    world_init();
    W.rtid = R.id;
    colist_init(&W.queue);
    n0 = n;
    for (int i = 0; i < NCO; i++) if (i < n) { CO(i)->paused = true; colist_push_back(&W.queue, CO(i)); }
    W.count = zero == 0 ? 0 : zero == 1 ? 1 : nd_int();
    if (zero == 2) ASSUME(W.count >= 2);
    cnt0 = W.count;
    ME.canceled = canceled_in = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
}
static bool same(void) { return W.count == cnt0 && W.rtid == R.id && queue_is(0, 0); }

#if defined(U_DONE) || defined(U_ADD)
static int delta;
static bool tozero;
static bool woken(void) {
    // all waiters left the queue and are resumed, in order: directly if it is
    // only one, else by the scheduler
    bool viares = list_is(&R.resumers, n0 > 0 ? &C0 : 0, n0 > 1 ? &C1 : 0, n0 > 2 ? &C2 : 0, 0);
    bool direct = n0 == 1 && G.nres == 1 && G.res[0] == C0.id && detached(&C0);
    return W.count == 0 && queue_is(3, 0) && (viares || direct);
}
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && ME.canceled, "only an asynchronously canceled coroutine is ended by the operation");
        return;
    }
    if (G.left) return;
    CHECK(why == W_YIELD || why == W_RESUME, "never blocks");
    CHECK(IMP(tozero && n0 > 0, woken()), "all waiters are woken when the count reaches zero, before control leaves");
    CHECK(tozero || same(), "nothing else changes");
}
static void unit_env(int why) {
    (void)why;
    if (nd_bool()) ME.canceled = canc = true;
    colist_init(&R.resumers); R.nresumers = 0;
    W.count = nd_int(); ASSUME(W.count >= 0);
}
#ifdef U_DONE
#define FN neco_waitgroup_done
CONTRACT(int, FN, neco_waitgroup *waitgroup)
ENS("a zero count cannot be decremented", IMP(cnt0 == 0, RET == NECO_NEGWAITGRP && same()))
ENS("OK otherwise", IMP(cnt0 > 0, RET == NECO_OK))
ENS("the count goes down by one", IMP(cnt0 > 0 && !G.left, W.count == cnt0 - 1 && queue_is(0, 0)))
#else
#define FN neco_waitgroup_add
CONTRACT(int, FN, neco_waitgroup *waitgroup, int delta)
ENS("the count cannot become negative", IMP((int64_t)cnt0 + delta < 0, RET == NECO_NEGWAITGRP && same()))
ENS("nor overflow", IMP((int64_t)cnt0 + delta > INT_MAX, RET < 0 && same()))
ENS("OK otherwise", IMP((int64_t)cnt0 + delta >= 0 && (int64_t)cnt0 + delta <= INT_MAX, RET == NECO_OK))
ENS("the count changes by the delta", IMP(RET == NECO_OK && !G.left, W.count == cnt0 + delta && queue_is(0, 0)))
#endif
ENS("the waiters are woken when the count reaches zero", IMP(tozero && n0 > 0, G.left))
ENS("and only then", IMP(RET != NECO_OK, !G.left))
ENS("a pending cancel is left alone", ME.canceled == (canceled_in || canc))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    int n = dig(&c, 4), z = dig(&c, 3), dz = dig(&c, 2);
    wg_setup(n, z);
    int r;
#ifdef U_DONE
    (void)dz;
    tozero = z == 1;
    r = CALL(int, FN, (neco_waitgroup*)&W);
    REACH(r == NECO_NEGWAITGRP, "negative");
#else
    delta = dz ? -cnt0 : nd_int();
    if (!dz) ASSUME((int64_t)delta + cnt0 != 0);
    tozero = dz;
    r = CALL(int, FN, (neco_waitgroup*)&W, delta);
    REACH(r == NECO_NEGWAITGRP, "negative");
    REACH(r == NECO_INVAL, "overflow");
#endif
    REACH(r == NECO_OK && n == 3 && tozero, "three waiters");
}
#endif

#ifdef U_WAIT
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && (canceled_in || canc), "only an asynchronously canceled coroutine is ended by the operation");
        CHECK(no_trace() && IMP(!env_done, same()), "a coroutine ended by a cancel leaves no trace");
        return;
    }
    if (why == W_YIELD) { CHECK(cnt0 == 0 && same(), "yields only if there is nothing to wait for"); return; }
    CHECK(why == W_PAUSE && cnt0 > 0, "blocks only while the count is above zero");
    CHECK(queue_is(0, &ME) && W.count == cnt0, "the waiter queues behind the others and changes nothing");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
    CHECK(R.nwaitgroupers == S0.nwaitgroupers + 1, "one more waiter is reported");
}
static void unit_env(int why) {
    env_done = true;
    if (why == W_YIELD) { canc = nd_bool(); if (canc) ME.canceled = true; return; }
    ASSUME(G.pauses <= 1);
    int before = dig(&es, 2), action = dig(&es, 3);
    colist_init(&W.queue);
    ME.next = ME.prev = &ME; C0.next = C0.prev = &C0;
    if (before) colist_push_back(&W.queue, &C0);
    colist_push_back(&W.queue, &ME);
    self_ = &C2;
    if (action == 1) { W.count = 1; CHECK(neco_waitgroup_done((neco_waitgroup*)&W) == NECO_OK, "done"); granted = true; }
    if (action == 2) { W.count = nd_int(); ASSUME(W.count >= 2); CHECK(neco_waitgroup_done((neco_waitgroup*)&W) == NECO_OK, "done"); }
    self_ = &ME;
    CHECK(IMP(granted, list_len(&W.queue) == 0), "all waiters are released");
    deadl = nd_bool() && dl0 < INT64_MAX; canc = nd_bool();
    ASSUME(granted || deadl || canc);
    if (deadl) ME.deadlined = true;
    if (canc) ME.canceled = true;
    if (granted && dig(&es, 2)) remove_from_list(&ME);
}
#define FN neco_waitgroup_wait_dl
CONTRACT(int, FN, neco_waitgroup *waitgroup, int64_t deadline)
ENS("a pending cancel is reported", IMP(canceled_in, RET == NECO_CANCELED && !ME.canceled && same() && !G.left))
ENS("a zero count is not waited for", IMP(!canceled_in && cnt0 == 0, G.pauses == 0 && (RET == NECO_OK || (RET == NECO_TIMEDOUT && vc_now > deadline))))
ENS("OK only after the count was zero", IMP(RET == NECO_OK, cnt0 == 0 || granted))
ENS("a released waiter returns", IMP(granted && !canc && !deadl, RET == NECO_OK))
ENS("a canceled waiter reports it", IMP(G.pauses == 1 && canc && !granted, RET == NECO_CANCELED && !ME.canceled))
ENS("a timed out waiter reports it", IMP(G.pauses == 1 && deadl && !canc && !granted, RET == NECO_TIMEDOUT))
ENS("a passed deadline is reported", IMP(RET == NECO_TIMEDOUT && G.pauses == 0, vc_now > deadline && same()))
ENS("no error without a reason", IMP(RET == NECO_CANCELED, canceled_in || canc) && IMP(RET == NECO_TIMEDOUT, deadl || vc_now > deadline))
ENS("a waiter that stopped waiting left the queue", IMP(G.pauses == 1, list_is(&W.queue, W.queue.head.next == &C0 ? &C0 : 0, 0, 0, 0)))
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    int n = dig(&c, 4), z = dig(&c, 3), wrap = dig(&c, 2);
    es = c;
    wg_setup(n, z);
    dl0 = wrap ? INT64_MAX : nd_i64();
    int r;
    if (wrap) { r = neco_waitgroup_wait((neco_waitgroup*)&W); POST(FN)(r, (neco_waitgroup*)&W, dl0); }
    else r = CALL(int, FN, (neco_waitgroup*)&W, dl0);
    REACH(r == NECO_OK && granted, "released");
    REACH(r == NECO_TIMEDOUT && G.pauses == 1, "timed out");
    REACH(r == NECO_CANCELED && G.pauses == 1, "canceled");
    REACH(r == NECO_OK && G.pauses == 0, "nothing to wait for");
}
#endif

#ifdef U_MISUSE
static int op_(int op, neco_waitgroup *w) {
    switch (op) {
    case 0: return neco_waitgroup_add(w, 1);
    case 1: return neco_waitgroup_done(w);
    case 2: return neco_waitgroup_wait(w);
    case 3: return neco_waitgroup_wait_dl(w, 5);
    case 4: return neco_waitgroup_destroy(w);
    default: return neco_waitgroup_init(w);
    }
}
static void vrun(int c) {
    int op = dig(&c, 6), what = dig(&c, 5);
    wg_setup(what == 4 ? 0 : 1, 2);
    if (what == 0) {
        int r = op_(op, 0);
        CHECK(r == NECO_INVAL && lasterr == r, "no group: INVAL");
    } else if (what == 1) {
        if (op == 5) return;
        W.rtid = 9;
        int r = op_(op, (neco_waitgroup*)&W);
        CHECK(r == NECO_PERM && lasterr == r && W.rtid == 9 && W.count == cnt0 && queue_is(0, 0) && no_trace(), "a group of another runtime is refused and left alone");
    } else if (what == 2) {
        rt = 0; self_ = 0;
        int r = op_(op, (neco_waitgroup*)&W);
        CHECK(r == NECO_PERM && lasterr == r && same(), "refused outside of a coroutine");
    } else if (what == 3) {
        // first use of a zeroed group
        memset(&W, 0, sizeof(W)); C0.next = C0.prev = &C0; n0 = 0;
        if (op == 2 || op == 3) return;
        int r = op_(op, (neco_waitgroup*)&W);
        if (op == 0) CHECK(r == NECO_OK && W.count == 1 && W.rtid == R.id && queue_is(0, 0), "a zeroed group has count zero");
        if (op == 1) CHECK(r == NECO_NEGWAITGRP && W.count == 0 && W.rtid == R.id && queue_is(0, 0), "a zeroed group has count zero");
        if (op == 5) CHECK(r == NECO_OK && W.count == 0 && W.rtid == R.id && queue_is(0, 0), "init gives an empty group");
    } else {
        int r = neco_waitgroup_destroy((neco_waitgroup*)&W);
        CHECK(r == NECO_OK && W.rtid == 0 && W.count == 0, "a destroyed group can be used again");
    }
    REACH(1, "case completes");
}
#endif
