// Contracts of the blocking and waking operations for queues of every length
// (see gap.h); the same clauses as in mutex.c, wg.c, cond.c and ops.c.
struct colist; struct coroutine;
struct coroutine *vc_pop(struct colist *l);
#include "world.h"
#include "gap.h"
#ifndef CUT
static void cut_havoc(void) { } static void cut_inv(void) { }
#endif
static int cs;
static int64_t dl0;
static bool granted_, rely_done, canc_;

#ifdef U_LISTS
// the list operations themselves, for every list
static void unit_leave(int why) { (void)why; } static void unit_env(int why) { (void)why; }
static void vrun(int c) {
    world_init();
    static struct colist L, K; colist_init(&L); colist_init(&K);
    CHECK(HAS(&L, 0) && colist_is_empty(&L), "a new list is empty");
    int op = dig(&c, 4), q = dig(&c, 3);
    if (op == 0) {        // pop
        if (q == 0) CHECK(colist_pop_front(&L) == NULL && HAS(&L, 0), "nothing to take");
        if (q == 1) { LINK(&L, &C0); CHECK(!colist_is_empty(&L) && colist_pop_front(&L) == &C0 && HAS(&L, 0) && detached(&C0), "the only one is taken"); }
        if (q == 2) { LINK(&L, &C0, &C1, GAP); CHECK(!colist_is_empty(&L) && colist_pop_front(&L) == &C0 && HAS(&L, &C1, GAP) && detached(&C0), "the first one is taken"); }
    } else if (op == 1) { // push, of one that may be in another list
        int in = dig(&c, 3);
        if (in == 1) LINK(&K, &ME); if (in == 2) LINK(&K, GAP, &C1, &ME, &C2, GAP);
        if (q == 0) { colist_push_back(&L, &ME); CHECK(HAS(&L, &ME), "appended"); }
        if (q == 1) { LINK(&L, &C0); colist_push_back(&L, &ME); CHECK(HAS(&L, &C0, &ME), "appended"); }
        if (q == 2) { LINK(&L, GAP, &C0); colist_push_back(&L, &ME); CHECK(HAS(&L, GAP, &C0, &ME), "appended"); }
        if (in == 1) CHECK(HAS(&K, 0), "and gone from the other list"); if (in == 2) CHECK(HAS(&K, GAP, &C1, &C2, GAP), "and gone from the other list");
    } else if (op == 2) { // remove
        if (q == 0) { remove_from_list(&ME); CHECK(detached(&ME), "a detached one stays detached"); }
        if (q == 1) { LINK(&L, &ME); remove_from_list(&ME); CHECK(detached(&ME) && HAS(&L, 0), "removed"); }
        if (q == 2) { LINK(&L, GAP, &C1, &ME, &C2, GAP); remove_from_list(&ME); CHECK(detached(&ME) && HAS(&L, GAP, &C1, &C2, GAP), "removed from between"); }
    } else {
        if (q == 0) { LINK(&L, GAP, &C1, &ME); remove_from_list(&ME); CHECK(detached(&ME) && HAS(&L, GAP, &C1), "removed from the end"); }
        if (q == 1) { LINK(&L, &ME, &C1, GAP); remove_from_list(&ME); CHECK(detached(&ME) && HAS(&L, &C1, GAP), "removed from the front"); }
        if (q == 2) { LINK(&R.resumers, GAP, &XR); sched_resume(&ME); CHECK(HAS(&R.resumers, GAP, &XR, &ME) && R.nresumers == 1, "will be resumed after the others"); }
    }
    REACH(1, "completes");
}
#endif

// ---- waiting: the caller joins the end of the queue and leaves it again ----
#if defined(U_WAIT)
static struct colist *Q; static size_t *counter, counter0;
static struct neco_mutex M; static struct neco_waitgroup WG; static struct coroutine *T;
static bool mlocked; static int mrl;
static bool qok(bool with) {      // the queue as it was, the caller behind it
    switch (cs % 4) {
    case 0: return with ? HAS(Q, &ME) : HAS(Q, 0);
    case 1: return with ? HAS(Q, &C0, &ME) : HAS(Q, &C0);
    case 2: return with ? HAS(Q, &C0, &C1, &ME) : HAS(Q, &C0, &C1);
    default: return with ? HAS(Q, &C0, GAP, &C1, &ME) : HAS(Q, &C0, GAP, &C1);
    }
}
static int pre, post, how;
static bool rest_ok(void) {
    if (how == 1) return HAS(Q, GAP);
    if (pre) return post ? HAS(Q, GAP, &C0, &C1, GAP) : HAS(Q, GAP, &C0);
    return post ? HAS(Q, &C1, GAP) : HAS(Q, 0);
}
static void unit_leave(int why) {
    if (why == W_EXIT) { CHECK(ME.canceltype == NECO_CANCEL_ASYNC && no_trace() && (rely_done ? rest_ok() : qok(false)), "a coroutine ended by a cancel waits for nothing any more"); return; }
    if (why == W_YIELD) return;
    CHECK(why == W_PAUSE, "blocks by pausing");
    CHECK(qok(true), "the waiter queues behind all earlier waiters");
    CHECK(*counter == counter0 + 1, "one more coroutine is reported as waiting");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
    CHECK(M.locked == mlocked && M.rlocked == mrl, "waiting does not change the lock");
}
static void unit_env(int why) {
    if (why != W_PAUSE) return;
    ASSUME(!rely_done);
    rely_done = true;
    // the others came, went and were woken; ME is somewhere in the queue, or was taken from it
    ME.next = ME.prev = &ME; C0.next = C0.prev = &C0; C1.next = C1.prev = &C1;
    if (how == 0) {
        if (pre) { if (post) LINK(Q, GAP, &C0, &ME, &C1, GAP); else LINK(Q, GAP, &C0, &ME); }
        else { if (post) LINK(Q, &ME, &C1, GAP); else LINK(Q, &ME); }
    } else {
        granted_ = true;
        LINK(Q, GAP);
        if (pre) { if (post) LINK(&R.resumers, GAP, &C0, &ME, &C1, GAP); else LINK(&R.resumers, GAP, &C0, &ME); }
        else if (post) LINK(&R.resumers, &ME, &C1, GAP);      // otherwise the scheduler took it from there
#ifndef NO_GRANT_FLAG
        ME.granted = true;
#endif
    }
    bool deadl = nd_bool() && dl0 < INT64_MAX; canc_ = nd_bool();
    ASSUME(granted_ || deadl || canc_);
    if (deadl) ME.deadlined = true;
    if (canc_) ME.canceled = true;
#if defined(W_LOCK)
    M.locked = true; M.rlocked = granted_ ? 0 : nd_count();
#elif defined(W_RDLOCK)
    M.locked = true; M.rlocked = nd_count(); ASSUME(!granted_ || M.rlocked > 0);
#endif
    mlocked = M.locked; mrl = M.rlocked;
}
static void vrun(int c) {
    world_init();
    cs = c; int q = dig(&c, 4); pre = dig(&c, 2); post = dig(&c, 2); how = dig(&c, 2);
    int r;
    dl0 = nd_i64();
    ME.canceled = nd_bool(); bool c0 = ME.canceled;
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
#if defined(W_LOCK) || defined(W_RDLOCK)
    Q = &M.queue; counter = &R.nlocked;
    M.rtid = R.id; M.locked = q > 0 || nd_bool(); M.rlocked = M.locked ? nd_count() : 0;
#elif defined(W_WG)
    Q = &WG.queue; counter = &R.nwaitgroupers; WG.rtid = R.id; WG.count = nd_count(); ASSUME(q == 0 || WG.count > 0);
    int n0 = WG.count;
#elif defined(W_JOIN)
    T = &C2; G.in_all[3] = true; Q = &C2.joinlist; static size_t none; counter = &none; 
#endif
    colist_init(Q);
    if (q == 1) LINK(Q, &C0); else if (q == 2) LINK(Q, &C0, &C1); else if (q == 3) LINK(Q, &C0, GAP, &C1);
    counter0 = *counter; mlocked = M.locked; mrl = M.rlocked; bool l0 = M.locked; int r0 = M.rlocked;
#ifdef W_LOCK
    r = neco_mutex_lock_dl((neco_mutex*)&M, dl0);
    bool can = !l0;
    CHECK(IMP(r == NECO_OK && !rely_done, can && M.locked && M.rlocked == 0), "a free mutex is taken");
#elif defined(W_RDLOCK)
    r = neco_mutex_rdlock_dl((neco_mutex*)&M, dl0);
    bool can = q == 0 && (!l0 || r0 > 0);
    CHECK(IMP(r == NECO_OK && !rely_done, can && M.locked && M.rlocked == r0 + 1), "a readable mutex gets one more reader");
#elif defined(W_WG)
    r = neco_waitgroup_wait_dl((neco_waitgroup*)&WG, dl0);
    bool can = n0 == 0;
    CHECK(WG.count == n0, "waiting does not change the group");
    CHECK(IMP(r == NECO_OK && !rely_done, can), "without waiting only if the count is zero");
#elif defined(W_JOIN)
    counter0 = *counter - 1;
    r = neco_join_dl(C2.id, dl0);
    bool can = false;
    CHECK(IMP(r == NECO_OK, rely_done), "joined after waiting");
#endif
    CHECK(IMP(!rely_done && r != NECO_OK, M.locked == l0 && M.rlocked == r0 && (r == NECO_CANCELED ? c0 : vc_now > dl0)), "a refused wait changes nothing");
    CHECK(rely_done ? rest_ok() : qok(false), "the queue of the others is as it was, in order");
    CHECK(r == NECO_OK || r == NECO_TIMEDOUT || r == NECO_CANCELED, "the result tells why the wait ended");
    CHECK(IMP(can, !rely_done), "no waiting without need");
#if defined(W_LOCK) || defined(W_RDLOCK)
    CHECK(IMP(rely_done && granted_, r == NECO_OK && ME.canceled == canc_), "who was given the lock returns OK, a cancel stays pending");
    CHECK(IMP(rely_done, M.locked == mlocked && M.rlocked == mrl), "the lock is as it was left by the others");
#endif
    CHECK(IMP(rely_done && !granted_, r == (canc_ ? NECO_CANCELED : NECO_TIMEDOUT)), "who was not woken reports why");
    CHECK(no_trace(), "no trace of the wait is left");
    CHECK(lasterr == (r < 0 ? r : 0), "the error is recorded");
    REACH(r == NECO_OK && granted_, "woken"); REACH(rely_done && r == NECO_TIMEDOUT, "timed out"); REACH(rely_done && r == NECO_CANCELED, "canceled");
}
#endif

// ---- waking ----
#ifdef U_WAKE
static struct neco_mutex M; static struct neco_waitgroup WG; static struct neco_cond CV;
static struct colist *Q; static int k, q_, resq; static bool cut_;
static bool wake, all; static bool single; static bool rd0, rd1; static int rl0, heldn;
// shapes of the queue: none, [C0], [C0,C1], [C0,C1,GAP,C2]
static void qset(int q) {
    C0.next = C0.prev = &C0; C1.next = C1.prev = &C1; C2.next = C2.prev = &C2;
    colist_init(Q);
    if (q == 1) LINK(Q, &C0); else if (q == 2) LINK(Q, &C0, &C1); else if (q == 3) LINK(Q, &C0, &C1, GAP, &C2);
}
static bool qis(int q) { return q == 0 ? HAS(Q, 0) : q == 1 ? HAS(Q, &C0) : q == 2 ? HAS(Q, &C0, &C1) : HAS(Q, &C0, &C1, GAP, &C2); }
static bool qrest(int q) { return q <= 1 ? HAS(Q, 0) : q == 2 ? HAS(Q, &C1) : HAS(Q, &C1, GAP, &C2); }
static int hq; static bool hk;        // the state the cut continues with
static void state_for(int k);
static bool state_after(int k);
static bool gfl(struct coroutine *c) {
#if defined(K_WG) || defined(K_CSTATE) || defined(K_EXIT)
    (void)c; return true;
#else
    return c->granted;
#endif
}
#ifdef CUT
static void cut_havoc(void) {
    cut_ = true;
    INV("the first one is resumed", HAS(&R.resumers, GAP, &XR, &C0) && gfl(&C0) && qrest(q_) && state_after(1));
    // k were woken before; the queue holds hq more
    k = nd_int(); ASSUME(k >= 1 && k < 1000000);
    C0.granted = C1.granted = C2.granted = false;
    LINK(&R.resumers, GAP, &XR);
    q_ = hq; qset(hq);
    R.nresumers = k + 1;
    state_for(k);
}
static void cut_inv(void) {
    INV("one more was woken, in order", HAS(&R.resumers, GAP, &XR, &C0) && gfl(&C0) && qrest(q_) && state_after(k + 1));
}
#endif
#if defined(K_UNLOCK)
static void state_for(int k_) { M.locked = true; M.rlocked = k_; C0.rlocked = true; C1.rlocked = hk; }
static bool state_after(int k_) { return M.locked && M.rlocked == k_ && C0.rlocked && C1.rlocked; }
#else
static void state_for(int k_) { (void)k_; } static bool state_after(int k_) { (void)k_; return true; }
#endif
static int leaves; static bool direct; static int es;
static bool done_ok(void) {
#if defined(K_UNLOCK)
    if (!heldn) return !M.locked && qis(q_) && HAS(&R.resumers, GAP, &XR);
    if (rl0 > 1) return M.locked && M.rlocked == rl0 - 1 && qis(q_) && HAS(&R.resumers, GAP, &XR);
    if (q_ == 0) return !M.locked && M.rlocked == 0 && qis(q_) && HAS(&R.resumers, GAP, &XR);
    // C0 was the last one woken
    return M.locked && HAS(&R.resumers, GAP, &XR, &C0) && C0.granted && qrest(q_) &&
        M.rlocked == (C0.rlocked ? k + 1 : 0) && (!C0.rlocked || q_ == 1 || !C1.rlocked);
#elif defined(K_SIGNAL)
    return qrest(q_) && HAS(&R.resumers, GAP, &XR) && IMP(q_, C0.granted);
#else
    if (!wake) return qis(q_) && HAS(&R.resumers, GAP, &XR);
    if (single) return HAS(Q, 0) && HAS(&R.resumers, GAP, &XR) && direct;
    return HAS(Q, 0) && (q_ == 0 ? HAS(&R.resumers, GAP, &XR) : HAS(&R.resumers, GAP, &XR, &C0) && gfl(&C0));
#endif
}
static void unit_leave(int why) {
    if (why == W_EXIT) { CHECK(ME.canceled && ME.canceltype == NECO_CANCEL_ASYNC, "only an asynchronously canceled coroutine is ended"); return; }
    if (leaves++) return;
    CHECK(why == W_YIELD || why == W_RESUME, "gives up control by yielding");
    direct = why == W_RESUME && G.nres == 1 && G.res[0] == C0.id;
    CHECK(done_ok(), "everybody due is woken, in order, and nobody else, before control leaves");
#ifdef CUT
    REACH(k > 0, "many were woken before");
#endif
}
static void unit_env(int why) {
    (void)why;
    LINK(&R.resumers, GAP); R.nresumers = nd_count(); LINK(Q, GAP);
    if (nd_bool()) ME.canceled = true;
}
static void vrun(int c) {
    world_init();
    q_ = dig(&c, 4); rd0 = dig(&c, 2); rd1 = dig(&c, 2); hq = dig(&c, 4); hk = dig(&c, 2);
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    ME.canceled = nd_bool();
    LINK(&R.resumers, GAP, &XR); R.nresumers = nd_count(); ASSUME(R.nresumers > 0);
    C0.rlocked = rd0; C1.rlocked = rd1;
    int r; single = q_ == 1;
#if defined(K_UNLOCK)
    Q = &M.queue; M.rtid = R.id; heldn = q_ > 0 || nd_bool(); M.locked = heldn; rl0 = M.rlocked = heldn ? nd_count() : 0;
    qset(q_); cutq = Q; cutat = 2; wake = heldn && rl0 <= 1 && q_;
    r = neco_mutex_unlock((neco_mutex*)&M);
    if (wake && q_ > 1 && rd0 && rd1 && !cut_) INV("taken by colist_pop_front", 0);
#elif defined(K_WG)
    Q = &WG.queue; WG.rtid = R.id; WG.count = nd_count(); ASSUME(q_ == 0 || WG.count > 0);
    int n0 = WG.count, d = -1;
    qset(q_); cutq = Q; cutat = 2;
#if K_WG == 1
    wake = n0 == 1 && q_; ASSUME(n0 > 0);
    r = neco_waitgroup_done((neco_waitgroup*)&WG);
#else
    d = nd_int(); ASSUME(d <= INT_MAX - n0 && n0 + (int64_t)d >= 0);
    wake = n0 + d == 0 && q_;
    r = neco_waitgroup_add((neco_waitgroup*)&WG, d);
#endif
    CHECK(WG.count == n0 + d, "counted");
    if (!wake) { leaves++; CHECK(done_ok(), "nobody is woken before the count is zero"); }
#elif defined(K_BCAST)
    Q = &CV.queue; CV.rtid = R.id; qset(q_); cutq = Q; cutat = 2; wake = true; single = false;
    r = neco_cond_broadcast((neco_cond*)&CV);
#elif defined(K_SIGNAL)
    Q = &CV.queue; CV.rtid = R.id; qset(q_);
    r = neco_cond_signal((neco_cond*)&CV);
    if (!q_) { leaves++; CHECK(done_ok(), "nobody to wake"); }
    CHECK(IMP(q_, G.nres == 1 && G.res[0] == C0.id), "exactly the first waiter is resumed");
#elif defined(K_CSTATE)
    Q = &ME.cancellist; qset(q_); cutq = Q; cutat = 2; wake = true; single = false;
    int st = nd_bool() ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE, was = ME.cancelstate = nd_bool() ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE, old;
    wake = st == NECO_CANCEL_ENABLE;
    r = neco_setcancelstate(st, &old);
    CHECK(ME.cancelstate == st && old == was && leaves == 0, "the state changes at once");
    leaves++; CHECK(done_ok(), "all cancelers are woken, in order, if cancelation is enabled");
#elif defined(K_EXIT)
    // the end of a coroutine wakes all that join it or wait to cancel it
    Q = K_EXIT == 1 ? &ME.joinlist : &ME.cancellist; qset(q_); cutq = Q; cutat = 2; wake = true; single = false;
    G.in_all[0] = true; ME.canceltype = NECO_CANCEL_INLINE; ME.argv = ME.aargv; lasterr = 0;
    coexit(false); r = NECO_OK;
    if (!q_) leaves++;
    CHECK(!G.in_all[0] && R.all.count == S0.all.count - 1, "the coroutine is no longer known");
#endif
    CHECK(r == NECO_OK && lasterr == 0, "OK");
    CHECK(leaves > 0, "control is given to others");
#ifdef CUT
    REACH(cut_, "cut");
#endif
    REACH(1, "completes");
}
#endif
