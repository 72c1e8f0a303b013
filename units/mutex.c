// Contracts of the neco_mutex_* operations.
#if defined(U_TRY) || defined(U_DESTROY) || defined(U_INIT)
#define NEVER_LEAVES
#endif
#include "world.h"

static struct neco_mutex M;
static int W0n;                        // waiters before the call
static struct coroutine *W0[NCO+1];
static bool W0r[NCO];                  // waiter i wants a read lock
static struct { bool locked; int rlocked; int64_t rtid; } M0;
static int64_t dl0;
static bool canceled0;
static bool nested_granted;            // the rely step gave ME the lock
static bool env_done;

// shapes: n waiters (0..3), who of them wants to read, and how it is held:
// 0 free, 1 by a writer, 2 by one reader, 3 by two or more readers
static bool mu_setup(int n, int readers, int held) {
    if (n > 0 && held == 0) return false;      // excluded by the invariant
    world_init();
    M.rtid = R.id;
    colist_init(&M.queue);
    W0n = n;
    for (int i = 0; i < NCO; i++) {
        if (i < n) {
            W0[i] = CO(i);
            W0r[i] = (readers >> i) & 1;
            CO(i)->rlocked = W0r[i];
            CO(i)->paused = true;
            colist_push_back(&M.queue, CO(i));
        }
    }
    M.locked = held > 0;
    M.rlocked = held < 2 ? 0 : held == 2 ? 1 : nd_count();
    if (held == 3) ASSUME(M.rlocked >= 2);
    M0.locked = M.locked; M0.rlocked = M.rlocked; M0.rtid = M.rtid;
    ME.canceled = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    canceled0 = ME.canceled;
    return true;
}

// the waiters queued before the call are still queued, in the same order,
// from position k on, with `extra` behind them
static bool queue_is(int k, struct coroutine *extra) {
    struct coroutine *e[NCO+2] = { 0 };
    int m = 0;
    for (int i = 0; i < NCO+1; i++) if (i >= k && i < W0n) e[m++] = W0[i];
    if (extra) e[m++] = extra;
    return list_is(&M.queue, e[0], e[1], e[2], e[3]);
}
static bool mutex_same(void) {
    return M.locked == M0.locked && M.rlocked == M0.rlocked &&
        M.rtid == M0.rtid && queue_is(0, 0);
}

#if defined(U_LOCK) || defined(U_RDLOCK)
static int cs;
static bool M0_locked; static int M0_rlocked; static int M0_n;
static bool canceled_in;
// guarantee at the pause: the caller has joined the end of the queue and
// changed nothing else
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && lasterr == NECO_CANCELED,
            "only an asynchronously canceled coroutine is ended by the operation");
        CHECK(queue_is(0, 0) && M.locked == M0.locked && M.rlocked == M0.rlocked,
            "a coroutine ended by a cancel owns nothing and waits for nothing");
        CHECK(no_trace(), "a coroutine ended by a cancel leaves no trace");
        return;
    }
    CHECK(why == W_PAUSE, "a lock operation blocks only by pausing");
    CHECK(M0.locked, "a free mutex is taken without blocking");
    CHECK(M.locked && M.rlocked == M0.rlocked, "waiting does not change the lock");
    CHECK(queue_is(0, &ME), "the waiter queues behind all earlier waiters");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX), "the deadline of the wait is armed");
    CHECK(ME.deadline == dl0, "the wait uses the caller's deadline");
    CHECK(R.nlocked == S0.nlocked + 1, "one more coroutine is reported as locked");
}
// rely: others joined, left, locked and unlocked in any way; at last the real
// unlock may hand the lock to ME; a deadline or cancel may come before or after.
static void unit_env(int why) {
    (void)why;
    ASSUME(G.pauses <= 1);
    // any queue that still contains ME
    int before = dig(&cs, 2), after = dig(&cs, 2);
    colist_init(&M.queue);
    ME.next = ME.prev = &ME;
    for (int i = 0; i < NCO; i++) {
        CO(i)->next = CO(i)->prev = CO(i);
        CO(i)->rlocked = i < 2 ? dig(&cs, 2) : 0;
    }
    if (before) colist_push_back(&M.queue, &C0);
    colist_push_back(&M.queue, &ME);
    if (after) colist_push_back(&M.queue, &C1);
    M.locked = true;
    M.rtid = R.id;
    int readers = dig(&cs, 3);
    if (readers == 2) { readers = nd_count(); ASSUME(readers >= 2); }
    M.rlocked = readers;
    if (dig(&cs, 2)) {
        // the holder releases the lock (real code, run as C2)
        self_ = &C2;
        (void)neco_mutex_unlock((neco_mutex*)&M);
        self_ = &ME;
        nested_granted = readers <= 1 &&
#ifdef U_LOCK
            !before;
#else
            (!before || C0.rlocked);
#endif
    }
    bool deadl = nd_bool() && dl0 < INT64_MAX, canc = nd_bool();
    ASSUME(nested_granted || deadl || canc);   // something resumed ME
    if (deadl) ME.deadlined = true;
    if (canc) ME.canceled = true;
    canceled0 = canc;
    // the scheduler took ME from its resume list, or did not get to it
    if (dig(&cs, 2) && nested_granted) remove_from_list(&ME);
    M0.rlocked = M.rlocked; M0.locked = M.locked;
    W0n = 0;
    for (int i = 0; i < NCO; i++) {
        struct coroutine *c = list_at(&M.queue, i);
        if (c && c != &ME) { W0[W0n] = c; W0n++; }
    }
    env_done = true;
}
#ifdef U_LOCK
#define FN neco_mutex_lock_dl
#define FNW neco_mutex_lock
#define CANTAKE (!M0_locked)
#else
#define FN neco_mutex_rdlock_dl
#define FNW neco_mutex_rdlock
#define CANTAKE (M0_n == 0 && (!M0_locked || M0_rlocked > 0))
#endif
CONTRACT(int, FN, neco_mutex *mutex, int64_t deadline)
ENS("the result is OK, TIMEDOUT or CANCELED", RET == NECO_OK || RET == NECO_TIMEDOUT || RET == NECO_CANCELED)
ENS("a pending cancel is reported and consumes nothing", IMP(canceled_in, RET == NECO_CANCELED && !ME.canceled && mutex_same() && G.pauses == 0))
ENS("a passed deadline is reported and consumes nothing", IMP(G.pauses == 0 && RET != NECO_OK, mutex_same() && IMP(RET == NECO_TIMEDOUT, vc_now > deadline) && IMP(RET == NECO_CANCELED, canceled_in)))
#ifdef U_LOCK
ENS("taking a free mutex makes the caller its only owner", IMP(G.pauses == 0 && RET == NECO_OK, !M0_locked && M.locked && M.rlocked == 0 && queue_is(0, 0)))
#else
ENS("taking a readable mutex adds one reader", IMP(G.pauses == 0 && RET == NECO_OK, M0_n == 0 && (!M0_locked || M0_rlocked > 0) && M.locked && M.rlocked == M0_rlocked + 1 && queue_is(0, 0)))
#endif
ENS("an available mutex is taken without waiting", IMP(CANTAKE, G.pauses == 0))
ENS("a waiter that was given the lock returns OK and keeps it", IMP(nested_granted, RET == NECO_OK && M.locked == M0.locked && M.rlocked == M0.rlocked))
ENS("a cancel that lost the race stays pending", IMP(nested_granted, ME.canceled == canceled0))
ENS("a waiter that was not given the lock reports why and owns nothing", IMP(env_done && !nested_granted, RET == (canceled0 ? NECO_CANCELED : NECO_TIMEDOUT) && !ME.canceled && M.locked == M0.locked && M.rlocked == M0.rlocked))
ENS("a waiter that stopped waiting left the queue to the others in order", IMP(env_done, queue_is(0, 0)))
ENS("no trace of the wait is left", no_trace())
ENS("a canceled coroutine with asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    // 0..31: shapes of the mutex on entry; from 32: shapes of the rely step
    bool wrap = false;
    int n, rd = 5, held;
    if (c < 32) { n = dig(&c, 4); held = dig(&c, 4); wrap = dig(&c, 2); cs = 0; }
    else { cs = c - 32; n = 1; held = 1; }
    if (!mu_setup(n, rd, held)) return;
    M0_locked = M.locked; M0_rlocked = M.rlocked; M0_n = W0n; canceled_in = ME.canceled;
    int64_t deadline = wrap ? INT64_MAX : nd_i64();
    dl0 = deadline;
    int r;
    if (wrap) {
        r = FNW((neco_mutex*)&M);
        POST(FN)(r, (neco_mutex*)&M, INT64_MAX);
    } else {
        r = CALL(int, FN, (neco_mutex*)&M, deadline);
    }
    REACH(r == NECO_OK && G.pauses == 0, "taken at once");
    REACH(r == NECO_OK && nested_granted && ME.canceled, "granted while cancelled");
    REACH(r == NECO_TIMEDOUT && G.pauses == 1, "timed out while waiting");
    REACH(r == NECO_CANCELED && G.pauses == 1, "cancelled while waiting");
}
#endif

#ifdef U_TRY
CONTRACT(int, neco_mutex_trylock, neco_mutex *mutex)
ENS("a pending cancel is left alone", ME.canceled == canceled0)
ENS("BUSY and unchanged when locked", IMP(M0.locked, RET == NECO_BUSY && mutex_same()))
ENS("taken exclusively when free", IMP(!M0.locked, RET == NECO_OK && M.locked && M.rlocked == 0 && queue_is(0, 0)))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
CONTRACT(int, neco_mutex_tryrdlock, neco_mutex *mutex)
ENS("a pending cancel is left alone", ME.canceled == canceled0)
ENS("BUSY and unchanged when write locked or others wait", IMP((W0n > 0 || (M0.locked && M0.rlocked == 0)), RET == NECO_BUSY && mutex_same()))
ENS("one more reader otherwise", IMP(W0n == 0 && (!M0.locked || M0.rlocked > 0), RET == NECO_OK && M.locked && M.rlocked == M0.rlocked + 1 && queue_is(0, 0)))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    int n = dig(&c, 4), held = dig(&c, 4);
    if (!mu_setup(n, 5, held)) return;
    ME.canceltype = NECO_CANCEL_INLINE;
#if U_TRY == 1
    int r = CALL(int, neco_mutex_trylock, (neco_mutex*)&M);
#else
    int r = CALL(int, neco_mutex_tryrdlock, (neco_mutex*)&M);
#endif
    REACH(r == NECO_OK, "taken");
    REACH(r == NECO_BUSY, "busy");
}
#endif

#ifdef U_UNLOCK
static int expect_k;     // how many waiters must be woken
static bool unlock_spec(void) {
    int k = expect_k;
    bool released = M0.locked && M0.rlocked <= 1;
    if (!queue_is(k, 0)) return false;
    if (!list_is(&R.resumers, k > 0 ? W0[0] : 0, k > 1 ? W0[1] : 0, k > 2 ? W0[2] : 0, 0)) return false;
    if (!released) return M.locked == M0.locked &&
        M.rlocked == (M0.rlocked > 1 ? M0.rlocked - 1 : M0.rlocked);
    if (k == 0) return !M.locked && M.rlocked == 0;
    return M.locked && M.rlocked == (W0r[0] ? k : 0);
}
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceled && ME.canceltype == NECO_CANCEL_ASYNC,
            "only an asynchronously canceled coroutine is ended by the operation");
        return;
    }
    if (G.left) return;
    CHECK(why == W_YIELD, "unlock only yields");
    CHECK(unlock_spec(), "the lock is passed to the first writer or to the leading readers, in order, before control leaves");
}
static int es;
static void unit_env(int why) {
    (void)why;
    // other coroutines run: any state of the mutex that keeps the invariant
    if (es & 1) { colist_init(&M.queue); M.locked = nd_bool(); M.rlocked = 0; }
    if (es & 2) { colist_init(&R.resumers); R.nresumers = 0; }
    if (nd_bool()) ME.canceled = true;
}
CONTRACT(int, neco_mutex_unlock, neco_mutex *mutex)
ENS("OK", RET == NECO_OK)
ENS("control is given to others once the lock has been passed on", G.left)
ENS("the error is recorded", lasterr == 0)
END
static void vrun(int c) {
    int n = dig(&c, 4), rd = dig(&c, 8), held = dig(&c, 4);
    if (rd >> n) return;
    es = rd & 3;
    if (!mu_setup(n, rd, held)) return;
    if (M.locked && held < 3 && W0n > 0) {
        expect_k = 1;
        if (W0r[0]) while (expect_k < W0n && W0r[expect_k]) expect_k++;
    }
    CALL(int, neco_mutex_unlock, (neco_mutex*)&M);
    REACH(expect_k == 3, "three readers woken");
    REACH(expect_k == 1 && M0.rlocked == 1, "writer woken by last reader");
}
#endif

#ifdef U_DESTROY
CONTRACT(int, neco_mutex_destroy, neco_mutex *mutex)
ENS("a locked mutex is not destroyed", IMP(M0.locked, RET == NECO_BUSY && mutex_same()))
ENS("a free mutex is reset", IMP(!M0.locked, RET == NECO_OK && M.rtid == 0 && !M.locked))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    int n = dig(&c, 4), held = dig(&c, 4);
    if (!mu_setup(n, 5, held)) return;
    int r = CALL(int, neco_mutex_destroy, (neco_mutex*)&M);
    REACH(r == NECO_OK, "destroyed");
    REACH(r == NECO_BUSY, "busy");
}
#endif

#ifdef U_INIT
// Misuse and first use: a null mutex, a mutex of another runtime, a call from
// outside of neco, a zeroed mutex; for every operation
static int call_op(int op, neco_mutex *m, int64_t dl) {
    switch (op) {
    case 0: return neco_mutex_lock_dl(m, dl);
    case 1: return neco_mutex_rdlock_dl(m, dl);
    case 2: return neco_mutex_trylock(m);
    case 3: return neco_mutex_tryrdlock(m);
    case 4: return neco_mutex_unlock(m);
    case 5: return neco_mutex_destroy(m);
    case 6: return neco_mutex_lock(m);
    case 7: return neco_mutex_rdlock(m);
    default: return neco_mutex_init(m);
    }
}
static void vrun(int c) {
    int op = dig(&c, 9), what = dig(&c, 4);
    mu_setup(1, 0, 1);
    ME.canceled = false;
    int64_t dl = nd_i64();
    if (what == 0) {
        int r = call_op(op, 0, dl);
        CHECK(r == NECO_INVAL && lasterr == r, "no mutex: INVAL");
    } else if (what == 1) {
        if (op == 8) return;
        M.rtid = M0.rtid = 9;
        int r = call_op(op, (neco_mutex*)&M, dl);
        CHECK(r == NECO_PERM && lasterr == r, "a mutex of another runtime is refused");
        CHECK(mutex_same() && no_trace(), "and left alone");
    } else if (what == 2) {
        rt = 0; self_ = 0;
        int r = call_op(op, (neco_mutex*)&M, dl);
        CHECK(r == NECO_PERM && lasterr == r, "refused outside of a coroutine");
        CHECK(mutex_same(), "and left alone");
    } else {
        // an unused (zeroed) mutex is a free mutex of this runtime
        memset(&M, 0, sizeof(M));
        C0.next = C0.prev = &C0;
        if (op == 4) return;
        ASSUME(dl >= vc_now + 1000000 && vc_now < 100);
        int r = call_op(op, (neco_mutex*)&M, dl);
        W0n = 0;
        if (r == NECO_OK && op < 8 && op != 5) {
            CHECK(M.rtid == R.id && queue_is(0, 0) && M.locked &&
                M.rlocked == (op == 1 || op == 3 || op == 7), "a zeroed mutex is free");
        } else if (op == 8) {
            CHECK(r == NECO_OK && M.rtid == R.id && !M.locked && M.rlocked == 0 && queue_is(0, 0), "init gives a free mutex");
        } else CHECK(op == 5 || r == NECO_TIMEDOUT, "a zeroed mutex can be taken");
    }
    REACH(1, "case completes");
}
#endif
