// Contracts of sleep, suspend/resume, join, cancel, yield and the cancel state.
#include "world.h"
static int es;
static int64_t dl0, t_in;
static bool canceled_in, canc, deadl, granted, env_done;
static void setup(void) {
    world_init();
    ME.canceled = canceled_in = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    for (int i = 0; i <= NCO; i++) G.in_all[i] = true;
    t_in = vc_now;
}
static void exit_check(void) {
    CHECK(ME.canceltype == NECO_CANCEL_ASYNC && (canceled_in || canc), "only an asynchronously canceled coroutine is ended by the operation");
    if (!G.in_all[0]) S0.all.count--;        // ME is no longer known
    CHECK(no_trace(), "a coroutine ended by a cancel leaves no trace");
}
static void dl_check(void) {
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
    CHECK(R.ndeadlines == S0.ndeadlines + (dl0 < INT64_MAX), "and counted");
    CHECK(ME.paused, "the coroutine is paused");
}
static void wake(void) {
    deadl = nd_bool() && dl0 < INT64_MAX; canc = nd_bool();
    ASSUME(granted || deadl || canc);
    if (deadl) { ME.deadlined = true; (void)vc_getnow(); ASSUME(vc_now > dl0); }
    if (canc) ME.canceled = true;
    env_done = true;
}
#define COMMON \
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE)) \
ENS("no trace of the wait is left", no_trace()) \
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))

#ifdef U_SLEEP
static int64_t nanos; static int form;
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_PAUSE && G.pauses == 1, "sleeps by pausing once");
    CHECK(R.nsleepers == S0.nsleepers + 1, "one more sleeper is reported");
    if (form == 1) {
        // deadline = time of the call + duration, clamped
        __int128 lo = (__int128)t_in + nanos, hi = (__int128)vc_now + nanos;
        CHECK(ME.deadline >= (lo > INT64_MAX ? INT64_MAX : (int64_t)lo) && ME.deadline <= (hi > INT64_MAX ? INT64_MAX : (int64_t)hi), "the sleep lasts as long as asked");
        dl0 = ME.deadline;
    }
    dl_check();
}
static void unit_env(int why) { (void)why; wake(); }
#define FN neco_sleep_dl
CONTRACT(int, FN, int64_t deadline)
ENS("a pending cancel is reported", IMP(canceled_in && RET != NECO_TIMEDOUT, RET == NECO_CANCELED && !ME.canceled && !G.left))
ENS("the result is OK, TIMEDOUT or CANCELED", RET == NECO_OK || RET == NECO_TIMEDOUT || RET == NECO_CANCELED)
ENS("OK only when the time has come", IMP(RET == NECO_OK, G.pauses == 1 && deadl && vc_now > dl0 && !canc))
ENS("CANCELED only when canceled", IMP(RET == NECO_CANCELED, (canceled_in || canc) && !ME.canceled))
ENS("TIMEDOUT only for a time in the past", IMP(RET == NECO_TIMEDOUT, !G.left && (form == 1 ? nanos < 0 : vc_now > deadline)))
ENS("a time in the past is not waited for", IMP(form == 1 ? nanos < 0 : t_in > deadline, !G.left))
COMMON
END
static void vrun(int c) {
    setup();
    form = dig(&c, 2);
    int r;
    if (form == 0) { dl0 = nd_i64(); r = CALL(int, FN, dl0); }
    else { nanos = nd_i64(); r = neco_sleep(nanos); POST(FN)(r, dl0); }
    REACH(r == NECO_OK, "slept");
    REACH(r == NECO_TIMEDOUT, "past");
    REACH(r == NECO_CANCELED && G.left, "canceled");
}
#endif

#ifdef U_SUSPEND
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_PAUSE && G.pauses == 1, "suspends by pausing once");
    CHECK(ME.suspended && R.nsuspended == S0.nsuspended + 1, "the coroutine is suspended");
    dl_check();
}
static void unit_env(int why) {
    (void)why;
    if (dig(&es, 2)) {
        self_ = &C2;
        CHECK(neco_resume(ME.id) == NECO_OK, "a suspended coroutine can be resumed");
        self_ = &ME;
        CHECK(G.peer_switches == 1, "and is resumed");
        granted = true;
    }
    wake();
}
#define FN neco_suspend_dl
CONTRACT(int, FN, int64_t deadline)
ENS("a pending cancel is reported", IMP(canceled_in, RET == NECO_CANCELED && !ME.canceled && !G.left))
ENS("a resumed coroutine returns OK", IMP(granted && !canc && !deadl, RET == NECO_OK))
ENS("OK only if resumed", IMP(RET == NECO_OK, granted))
ENS("otherwise the reason is reported", IMP(env_done && RET != NECO_OK, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && (canc || deadl) && !ME.canceled))
ENS("a coroutine that is not resumed stays suspended", IMP(!canceled_in, G.left))
COMMON
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2);
    es = c;
    dl0 = wrap ? INT64_MAX : nd_i64();
    int r;
    if (wrap) { r = neco_suspend(); POST(FN)(r, dl0); }
    else r = CALL(int, FN, dl0);
    REACH(r == NECO_OK, "resumed");
    REACH(r == NECO_TIMEDOUT, "timed out");
    REACH(r == NECO_CANCELED && G.left, "canceled");
}
#endif

#ifdef U_RESUME
static int what;
static void unit_leave(int why) {
    CHECK(why == W_RESUME && what == 0 && G.nres == 1 && G.res[0] == C0.id, "wakes exactly the suspended coroutine");
}
static void unit_env(int why) { (void)why; C0.suspended = nd_bool(); if (nd_bool()) { ME.canceled = canc = true; } }
#define FN neco_resume
CONTRACT(int, FN, int64_t id)
ENS("a suspended coroutine is resumed", IMP(what == 0, RET == NECO_OK && G.nres == 1))
ENS("a coroutine that is not suspended is not touched", IMP(what == 1, RET == NECO_NOTSUSPENDED && !G.left))
ENS("an unknown coroutine is reported", IMP(what == 2, RET == NECO_NOTFOUND && !G.left))
ENS("a pending cancel is left alone", ME.canceled == (canceled_in || canc))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    setup();
    what = dig(&c, 3);
    C0.suspended = what == 0;
    C0.paused = what == 0 || nd_bool();
    if (what == 2) G.in_all[1] = false;
    C0.deadline = nd_i64(); C0.deadlined = nd_bool(); C0.canceled = nd_bool(); C0.granted = nd_bool(); C0.rlocked = nd_bool();
    C0.canceltype = nd_int(); C0.cancelstate = nd_int(); C0.njoinlist = nd_int(); C0.ncancellist = nd_int();
    C0.starterid = nd_i64(); C0.lastid = nd_i64(); C0.sigmask = C0.sigwatch = nd_uint();
    CALL(int, FN, C0.id);
    REACH(what == 0, "resumed");
}
#endif

#ifdef U_JOIN
static int what, others;
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_PAUSE && what == 0 && G.pauses == 1, "waits only for another running coroutine");
    CHECK(list_is(&C0.joinlist, others > 0 ? &C1 : &ME, others > 0 ? &ME : 0, 0, 0), "queued behind the others that join");
    dl_check();
}
static void unit_env(int why) {
    (void)why;
    if (dig(&es, 2)) {       // the target terminates: real exit code
        self_ = &C0;
        G.in_all[1] = true;
        coexit(false);
        self_ = &ME;
        CHECK(G.peer_switches > 0, "the terminating coroutine lets its joiners run");
        CHECK(!G.in_all[1], "the coroutine is no longer known");
        S0.all.count--;
        CHECK(list_is(&R.resumers, others > 0 ? &C1 : &ME, others > 0 ? &ME : 0, 0, 0) || (detached(&ME)), "every joiner is woken");
        CHECK(C0.joinlist.head.next == (void*)&C0.joinlist.tail, "no joiner is left behind");
        granted = true;
        remove_from_list(&ME);
    }
    wake();
}
#define FN neco_join_dl
CONTRACT(int, FN, int64_t id, int64_t deadline)
ENS("a coroutine that is gone is not waited for", IMP(what == 1, RET == NECO_OK && !G.left && ME.canceled == canceled_in))
ENS("a coroutine does not wait for itself", IMP(what == 2, !G.left && RET != NECO_OK && IMP(!canceled_in && deadline == INT64_MAX, RET == NECO_PERM)))
ENS("a pending cancel is reported", IMP(canceled_in && what != 1, RET == NECO_CANCELED && !ME.canceled && !G.left))
ENS("OK only after the coroutine has terminated", IMP(what == 0 && RET == NECO_OK, granted))
ENS("a joiner of a terminated coroutine returns", IMP(granted && !canc && !deadl, RET == NECO_OK))
ENS("otherwise the reason is reported", IMP(env_done && RET != NECO_OK, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && (canc || deadl) && !ME.canceled))
ENS("a passed deadline is reported", IMP(RET == NECO_TIMEDOUT && !G.left, vc_now > deadline))
ENS("the joiner is no longer queued", IMP(what == 0 && others && env_done && !granted, list_is(&C0.joinlist, &C1, 0, 0, 0)))
COMMON
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2);
    what = dig(&c, 3); others = dig(&c, 2);
    es = c;
    dl0 = wrap ? INT64_MAX : nd_i64();
    if (others) { C1.paused = true; colist_push_back(&C0.joinlist, &C1); C0.njoinlist = 1; }
    if (what == 1) G.in_all[1] = false;
    int64_t id = what == 2 ? ME.id : C0.id;
    int r;
    if (wrap) { r = neco_join(id); POST(FN)(r, id, dl0); }
    else r = CALL(int, FN, id, dl0);
    REACH(r == NECO_OK && G.left, "joined");
    REACH(r == NECO_TIMEDOUT && G.left, "timed out");
    REACH(r == NECO_CANCELED && G.left, "canceled");
    REACH(r == NECO_PERM, "itself");
}
#endif

#ifdef U_CANCEL
static int what;     // 0 enabled, 1 unknown, 2 disabled
static int act, others;
static bool stats_cancel(void) {     // a terminated target leaves the map
    if (env_done && act == 2) R.all.count++;
    return stats_same();
}
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    if (why == W_RESUME) {
        CHECK(C0.canceled && G.nres == 1 && G.res[0] == C0.id, "the target is marked as canceled and woken");
        CHECK(C0.cancelstate == NECO_CANCEL_ENABLE, "only a coroutine that can be canceled is canceled");
        return;
    }
    if (why == W_YIELD) { CHECK(G.nres == 1, "yields only after the cancelation"); return; }
    CHECK(why == W_PAUSE, "pauses while the target disables cancelation");
    CHECK(C0.cancelstate == NECO_CANCEL_DISABLE && !C0.canceled, "waits only for a target that cannot be canceled, and does not cancel it");
    CHECK(list_is(&C0.cancellist, others ? &C1 : &ME, others ? &ME : 0, 0, 0), "queued behind the others that cancel");
    dl_check();
}
static void unit_env(int why) {
    if (why == W_RESUME) { C0.canceled = nd_bool(); if (nd_bool()) C0.cancelstate = NECO_CANCEL_DISABLE; if (nd_bool()) ME.canceled = canc = true; return; }
    if (why == W_YIELD) { if (nd_bool()) ME.canceled = canc = true; return; }
    if (G.pauses == 1) {
        if (act == 1) {           // the target enables cancelation: real code
            self_ = &C0;
            CHECK(neco_setcancelstate(NECO_CANCEL_ENABLE, 0) == NECO_OK, "enabled");
            self_ = &ME;
            CHECK(!(C0.cancellist.tail.prev == &ME), "a canceler is woken when its target enables cancelation");
            CHECK(!detached(&ME) && R.nresumers > 0, "by the scheduler");
            granted = true;
            remove_from_list(&ME);
        } else if (act == 2) {    // the target terminates: real code
            self_ = &C0;
            coexit(false);
            self_ = &ME;
            CHECK(!(C0.cancellist.tail.prev == &ME), "a canceler is woken when its target terminates");
            granted = true;
            remove_from_list(&ME);
        }
        bool d = dig(&es, 2), k = dig(&es, 2);
        deadl = d; canc = k;
        if (d) { ASSUME(dl0 < INT64_MAX); (void)vc_getnow(); ASSUME(vc_now > dl0); }
        ASSUME(granted || d || k);
        if (d) ME.deadlined = true;
        if (k) ME.canceled = true;
        env_done = true;
    } else ASSUME(0);
}
#define FN neco_cancel_dl
CONTRACT(int, FN, int64_t id, int64_t deadline)
ENS("an unknown coroutine is reported", IMP(what == 1, RET == NECO_NOTFOUND && !G.left && ME.canceled == canceled_in))
ENS("a pending cancel is reported", IMP(canceled_in && what != 1, RET == NECO_CANCELED && !ME.canceled && !G.left && !C0.canceled))
ENS("OK means the target was canceled and woken", IMP(RET == NECO_OK, G.nres == 1))
ENS("an error means it was not", IMP(RET != NECO_OK, G.nres == 0))
ENS("a target that can be canceled is", IMP(what == 0 && !canceled_in && RET != NECO_TIMEDOUT, RET == NECO_OK))
ENS("a target that enables cancelation is canceled", IMP(env_done && act == 1 && !canc && !deadl && RET != NECO_TIMEDOUT, RET == NECO_OK))
ENS("a target that has terminated is reported", IMP(env_done && act == 2, RET == NECO_NOTFOUND))
ENS("the reason of giving up is reported", IMP(env_done && act == 0, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT)))
ENS("TIMEDOUT only after the deadline", IMP(RET == NECO_TIMEDOUT, vc_now > deadline))
ENS("the canceler is no longer queued", IMP(env_done && act == 0, list_is(&C0.cancellist, others ? &C1 : 0, 0, 0, 0)))
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", detached(&ME) && !ME.paused && !G.in_dl[0] && stats_cancel() && !ME.deadlined)
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2);
    what = dig(&c, 3); act = dig(&c, 3); others = dig(&c, 2);
    es = c;
    if (what == 2 && (es || act)) ME.canceled = canceled_in = false;
    dl0 = wrap ? INT64_MAX : nd_i64();
    if (what == 1) G.in_all[1] = false;
    if (what == 2) C0.cancelstate = NECO_CANCEL_DISABLE;
    if (others) { C1.paused = true; colist_push_back(&C0.cancellist, &C1); C0.ncancellist = 1; }
    int r;
    if (wrap) { r = neco_cancel(C0.id); POST(FN)(r, C0.id, dl0); }
    else r = CALL(int, FN, C0.id, dl0);
    REACH(r == NECO_OK && what == 2, "canceled after waiting");
    REACH(r == NECO_OK && what == 0, "canceled");
    REACH(r == NECO_TIMEDOUT && G.left, "timed out");
    REACH(r == NECO_NOTFOUND && G.left, "terminated while waiting");
}
#endif

#ifdef U_STATE
// cancel type and state, yield, identifiers
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_YIELD, "only yields");
}
static void unit_env(int why) { (void)why; canc = nd_bool(); if (canc) ME.canceled = true; }
static void vrun(int c) {
    setup();
    ME.cancelstate = nd_bool() ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE;
    int ot = ME.canceltype, os = ME.cancelstate, v = nd_int(), old = 77, r;
    int op = dig(&c, 6), nul = dig(&c, 2), outside = dig(&c, 2);
    if (outside) { rt = 0; self_ = 0; }
    if (op == 0) {
        r = neco_setcanceltype(v, nul ? 0 : &old);
        bool ok = v == NECO_CANCEL_ASYNC || v == NECO_CANCEL_INLINE;
        CHECK(r == (!ok ? NECO_INVAL : outside ? NECO_PERM : NECO_OK), "only known types are accepted");
        CHECK(ME.canceltype == (r == NECO_OK ? v : ot) && ME.cancelstate == os, "the type is set, nothing else");
        CHECK(old == (r == NECO_OK && !nul ? ot : 77), "the old type is returned");
#ifndef U_YIELD
        REACH(r == NECO_OK, "set");
#endif
    } else if (op == 1) {
        r = neco_setcancelstate(v, nul ? 0 : &old);
        bool ok = v == NECO_CANCEL_ENABLE || v == NECO_CANCEL_DISABLE;
        CHECK(r == (!ok ? NECO_INVAL : outside ? NECO_PERM : NECO_OK), "only known states are accepted");
        CHECK(ME.cancelstate == (r == NECO_OK ? v : os) && ME.canceltype == ot, "the state is set, nothing else");
        CHECK(old == (r == NECO_OK && !nul ? os : 77), "the old state is returned");
#ifndef U_YIELD
        REACH(r == NECO_OK, "set");
#endif
    } else if (op == 2) {
        r = neco_yield();
        CHECK(r == (outside ? NECO_PERM : NECO_OK), "yield succeeds in a coroutine");
        CHECK(G.yields == (outside ? 0 : 1), "and lets the others run");
        CHECK(outside || ME.canceled == (canceled_in || canc), "a pending cancel is left alone");
        CHECK(outside || no_trace(), "no trace is left");
        REACH(r == NECO_OK && canc, "canceled");
    } else if (op == 3) {
        int64_t x = neco_getid();
        CHECK(x == (outside ? NECO_PERM : ME.id), "own identifier");
        r = (int)x < 0 ? (int)x : 0;
    } else if (op == 4) {
        int64_t x = neco_lastid();
        CHECK(outside ? x == NECO_PERM : x == ME.lastid, "last started");
        CHECK(!outside || lasterr == NECO_PERM, "the error is recorded");
        return;
    } else {
        int64_t x = neco_starterid();
        CHECK(outside ? x == NECO_PERM : x == ME.starterid, "own starter");
        CHECK(!outside || lasterr == NECO_PERM, "the error is recorded");
        return;
    }
    CHECK(lasterr == (r < 0 ? r : 0), "the error is recorded");
    CHECK(op == 2 || !G.left, "does not give up control");
}
#endif
#ifdef U_OUTSIDE
#include <stdarg.h>
static void unit_leave(int why) { (void)why; CHECK(0, "never gives up control outside of a coroutine"); }
static void unit_env(int why) { (void)why; }
static void vrun(int c) {
    setup();
    rt = 0; self_ = 0;
    int64_t d = nd_i64();
    int op = dig(&c, 10);
    int r = op == 0 ? neco_sleep(d) : op == 1 ? neco_sleep_dl(d) : op == 2 ? neco_suspend() :
        op == 3 ? neco_suspend_dl(d) : op == 4 ? neco_resume(d) : op == 5 ? neco_join(d) :
        op == 6 ? neco_join_dl(d, d) : op == 7 ? neco_cancel(d) : op == 8 ? neco_cancel_dl(d, d) : neco_yield();
    CHECK(r == NECO_PERM && lasterr == r, "refused outside of a coroutine");
    REACH(1, "case completes");
}
#endif
