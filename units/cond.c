// Contracts of the neco_cond_* operations.
#if defined(U_MISUSE)
#define NEVER_LEAVES
#endif
#include "world.h"
static struct neco_cond V;
static struct neco_mutex M;
static int n0, es;
static bool canceled_in, canc, canc2, deadl, granted;
static int64_t dl0;
static bool queue_is(int k, struct coroutine *x) {
    struct coroutine *e[5] = { 0 };
    int m = 0;
    for (int i = 0; i < NCO; i++) if (i >= k && i < n0) e[m++] = CO(i);
    if (x) e[m++] = x;
    return list_is(&V.queue, e[0], e[1], e[2], e[3]);
}
static void setup(int n) {
    world_init();
    V.rtid = M.rtid = R.id;
    colist_init(&V.queue);
    colist_init(&M.queue);
    n0 = n;
    for (int i = 0; i < NCO; i++) if (i < n) { CO(i)->paused = true; colist_push_back(&V.queue, CO(i)); }
    ME.canceled = canceled_in = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    ME.granted = nd_bool();
}
#if defined(U_SIGNAL) || defined(U_BCAST)
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && ME.canceled, "only an asynchronously canceled coroutine is ended by the operation");
        return;
    }
    if (G.left) return;
#ifdef U_SIGNAL
    CHECK(why == W_RESUME && n0 > 0 && G.nres == 1 && G.res[0] == C0.id && detached(&C0) && queue_is(1, 0), "exactly the longest waiting coroutine is woken");
#else
    CHECK(why == W_YIELD && queue_is(3, 0) && list_is(&R.resumers, n0 > 0 ? &C0 : 0, n0 > 1 ? &C1 : 0, n0 > 2 ? &C2 : 0, 0), "all waiting coroutines are woken, in order");
#endif
}
static void unit_env(int why) {
    (void)why;
    if (nd_bool()) ME.canceled = canc = true;
    colist_init(&R.resumers); R.nresumers = 0;
}
#ifdef U_SIGNAL
#define FN neco_cond_signal
CONTRACT(int, FN, neco_cond *cond)
ENS("nothing happens without a waiter", IMP(n0 == 0, !G.left && queue_is(0, 0)))
#else
#define FN neco_cond_broadcast
CONTRACT(int, FN, neco_cond *cond)
#endif
ENS("OK", RET == NECO_OK)
ENS("a waiter is woken", IMP(n0 > 0, G.left))
ENS("a pending cancel is left alone", ME.canceled == (canceled_in || canc))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == 0)
END
static void vrun(int c) {
    setup(dig(&c, 4));
    CALL(int, FN, (neco_cond*)&V);
    REACH(n0 == 3, "three waiters");
}
#endif

#ifdef U_WAIT
static int mwait, mread;      // coroutines waiting for the mutex (C1, a reader or writer)
static int relock;
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && (canceled_in || canc || canc2), "only an asynchronously canceled coroutine is ended by the operation");
        CHECK(no_trace() && IMP(G.pauses == 0, queue_is(0, 0)), "a coroutine ended by a cancel leaves no trace");
        CHECK(IMP(G.pauses > 0, M.locked && M.rlocked == 0), "and holds the mutex, for its cleanup handlers");
        return;
    }
    CHECK(why == W_PAUSE, "blocks only by pausing");
    if (G.pauses == 1) {
        CHECK(queue_is(0, &ME), "the waiter is queued on the condition behind earlier waiters");
        CHECK(mwait ? M.locked && M.rlocked == mread && list_is(&M.queue, 0, 0, 0, 0) && list_is(&R.resumers, &C1, 0, 0, 0)
                    : !M.locked && M.rlocked == 0 && list_is(&M.queue, 0, 0, 0, 0),
            "the mutex is released to the next coroutine in the same step");
        CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
        CHECK(R.ncondwaiters == S0.ncondwaiters + 1, "one more waiter is reported");
    } else {
        CHECK(M.locked && list_is(&M.queue, &ME, 0, 0, 0) && !ME.rlocked, "then waits for the mutex as a writer");
        CHECK(!G.in_dl[0], "without a deadline");
        CHECK(detached(&C0) || C0.next != &ME, "no longer queued on the condition");
    }
}
static void unit_env(int why) {
    (void)why;
    if (G.pauses == 1) {
        int before = dig(&es, 2), action = dig(&es, 3), popped = dig(&es, 2);
        relock = dig(&es, 3);       // mutex free, held by C2, held by C2 and a cancel arrives
        colist_init(&V.queue);
        ME.next = ME.prev = &ME; C0.next = C0.prev = &C0; C1.next = C1.prev = &C1;
        if (before) colist_push_back(&V.queue, &C0);
        colist_push_back(&V.queue, &ME);
        colist_init(&M.queue);
        colist_init(&R.resumers); R.nresumers = 0;
        M.locked = true; M.rlocked = 0; M.rtid = R.id; V.rtid = R.id;
        self_ = &C2;
        if (action == 1) { CHECK(neco_cond_signal((neco_cond*)&V) == NECO_OK, "signaled"); granted = !before; }
        if (action == 2) { CHECK(neco_cond_broadcast((neco_cond*)&V) == NECO_OK, "signaled"); granted = true; }
        if (relock == 0) neco_mutex_unlock((neco_mutex*)&M);
        self_ = &ME;
        if (granted && popped) remove_from_list(&ME);
        canc = dig(&es, 2); deadl = dig(&es, 2);
        if (deadl) ASSUME(dl0 < INT64_MAX);
        ASSUME(granted || canc || deadl);
        if (canc) ME.canceled = true;
        if (deadl) ME.deadlined = true;
    } else if (G.pauses == 2 && relock == 2) {
        ME.canceled = canc2 = true;
    } else {
        ASSUME(G.pauses <= 3);
        self_ = &C2;
        neco_mutex_unlock((neco_mutex*)&M);
        self_ = &ME;
    }
}
#define FN neco_cond_wait_dl
CONTRACT(int, FN, neco_cond *cond, neco_mutex *mutex, int64_t deadline)
ENS("a pending cancel is reported and the mutex kept", IMP(canceled_in, RET == NECO_CANCELED && !ME.canceled && !G.left && M.locked))
ENS("OK exactly if signaled", IMP(!canceled_in, (RET == NECO_OK) == granted))
ENS("otherwise the reason is reported", IMP(!canceled_in && !granted, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT)))
ENS("the mutex is held again on return", M.locked && M.rlocked == 0 && IMP(G.left, list_is(&M.queue, 0, 0, 0, 0)))
ENS("a cancel that was not reported stays pending", ME.canceled == (canc2 || (granted && canc)))
ENS("a waiter that stopped waiting left the queue", IMP(G.left, list_is(&V.queue, V.queue.head.next == &C0 ? &C0 : 0, 0, 0, 0)))
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    int n = dig(&c, 2) ? 1 : 0, wrap = dig(&c, 2), mw = dig(&c, 3);
    int cin = dig(&c, 2);
    es = c;
    setup(n);
    ME.canceled = canceled_in = cin;
    ME.granted = false;
    mwait = mw > 0; mread = mw == 2;
    M.locked = true;
    if (mwait) { C1.rlocked = mread; C1.paused = true; colist_push_back(&M.queue, &C1); }
    dl0 = wrap ? INT64_MAX : nd_i64();
    int r;
    if (wrap) { r = neco_cond_wait((neco_cond*)&V, (neco_mutex*)&M); POST(FN)(r, (neco_cond*)&V, (neco_mutex*)&M, dl0); }
    else r = CALL(int, FN, (neco_cond*)&V, (neco_mutex*)&M, dl0);
    REACH(r == NECO_OK && canc, "signaled and canceled");
    REACH(r == NECO_OK && canc2, "canceled while relocking");
    REACH(r == NECO_TIMEDOUT && G.pauses == 2, "timed out and relocked");
    REACH(r == NECO_CANCELED && G.pauses == 1, "canceled");
}
#endif

#ifdef U_MISUSE
static int op_(int op, neco_cond *w, neco_mutex *m) {
    switch (op) {
    case 0: return neco_cond_signal(w);
    case 1: return neco_cond_broadcast(w);
    case 2: return neco_cond_wait(w, m);
    case 3: return neco_cond_wait_dl(w, m, 5);
    case 4: return neco_cond_destroy(w);
    default: return neco_cond_init(w);
    }
}
static void vrun(int c) {
    int op = dig(&c, 6), what = dig(&c, 6);
    setup(what == 5 ? 0 : 1);
    M.locked = true;
    if (what == 0) {
        int r = op_(op, 0, (neco_mutex*)&M);
        CHECK(r == NECO_INVAL && lasterr == r && M.locked, "no condition: INVAL");
    } else if (what == 1) {
        if (op == 5) return;
        V.rtid = 9;
        int r = op_(op, (neco_cond*)&V, (neco_mutex*)&M);
        CHECK(r == NECO_PERM && lasterr == r && V.rtid == 9 && queue_is(0, 0) && no_trace() && M.locked, "a condition of another runtime is refused and left alone");
    } else if (what == 2) {
        rt = 0; self_ = 0;
        int r = op_(op, (neco_cond*)&V, (neco_mutex*)&M);
        CHECK(r == NECO_PERM && lasterr == r && queue_is(0, 0) && M.locked, "refused outside of a coroutine");
    } else if (what == 3) {
        memset(&V, 0, sizeof(V)); C0.next = C0.prev = &C0; n0 = 0;
        if (op == 2 || op == 3 || op == 1) return;
        int r = op_(op, (neco_cond*)&V, (neco_mutex*)&M);
        CHECK(r == NECO_OK, "a zeroed condition has no waiters");
        CHECK(IMP(op != 4, V.rtid == R.id && queue_is(0, 0)), "a zeroed condition has no waiters");
    } else if (what == 4) {
        if (op != 2 && op != 3) return;
        int r = op_(op, (neco_cond*)&V, 0);
        CHECK(r == NECO_INVAL && lasterr == r && queue_is(0, 0) && no_trace(), "no mutex: INVAL");
        M.rtid = 9;
        r = op_(op, (neco_cond*)&V, (neco_mutex*)&M);
        CHECK(r == NECO_PERM && lasterr == r && queue_is(0, 0) && M.locked && no_trace(), "a mutex of another runtime is refused");
    } else {
        int r = neco_cond_destroy((neco_cond*)&V);
        CHECK(r == NECO_OK && V.rtid == 0, "a destroyed condition can be used again");
    }
    REACH(1, "case completes");
}
#endif
