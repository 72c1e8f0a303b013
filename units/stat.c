// The statistics: what neco_getstats tells while a coroutine waits is what is true,
// for each operation that waits and however the wait ends.
#include "world.h"
static int op, how; static int64_t dl0; static bool canc, done;
static struct neco_mutex M; static struct neco_waitgroup WG; static struct neco_cond CV;
static struct { struct neco_chan c; char data[8]; } CH;
static char msg[2], msg2[2]; static struct neco_chan *chans[1];
static neco_stats B;
int epoll_create1(int f) { (void)f; return 5; }
int epoll_ctl(int q, int o, int fd, struct epoll_event *e) { (void)q; (void)o; (void)fd; (void)e; return 0; }
enum { NOTHING = 0, SLEEP, EV, SIG, SEND, RECV, LOCK, WGRP, COND, SUSP };
static bool stats_are(int which) {
    neco_stats s;
    s.coroutines = s.sleepers = s.evwaiters = s.sigwaiters = s.senders = s.receivers = s.locked = s.waitgroupers = s.condwaiters = s.suspended = 12345678;
    if (neco_getstats(&s) != NECO_OK) return false;
    return s.coroutines == B.coroutines && s.sleepers == B.sleepers + (which == SLEEP) && s.evwaiters == B.evwaiters + (which == EV) &&
        s.sigwaiters == B.sigwaiters + (which == SIG) && s.senders == B.senders + (which == SEND) && s.receivers == B.receivers + (which == RECV) &&
        s.locked == B.locked + (which == LOCK) && s.waitgroupers == B.waitgroupers + (which == WGRP) && s.condwaiters == B.condwaiters + (which == COND) &&
        s.suspended == B.suspended + (which == SUSP);
}
static const int KIND[] = { SLEEP, SUSP, WGRP, COND, LOCK, LOCK, RECV, SEND, RECV, EV, SIG, NOTHING, NOTHING };
static void unit_leave(int why) {
    if (why == W_EXIT) { CHECK(stats_are(NOTHING), "a coroutine ended by a cancel does not wait any more"); return; }
    if (why != W_PAUSE) return;
    CHECK(stats_are(op == 3 && G.pauses > 1 ? LOCK : KIND[op]), "the statistics tell who waits for what");
    CHECK(G.pauses <= 2, "waits once");
}
static void unit_env(int why) {
    if (why != W_PAUSE) return;
    bool granted = how == 0;
    self_ = &C2;
    if (granted && G.pauses == 1) {
        if (op == 1) neco_resume(ME.id);
        else if (op == 2) neco_waitgroup_done((neco_waitgroup*)&WG);
        else if (op == 3) neco_cond_signal((neco_cond*)&CV);
        else if (op == 4 || op == 5) neco_mutex_unlock((neco_mutex*)&M);
        else if (op == 6 || op == 8) neco_chan_send((neco_chan*)&CH.c, msg2);
        else if (op == 7) neco_chan_recv((neco_chan*)&CH.c, msg2);
        else if (op == 10) { remove_from_list(&ME); ME.sigmask = SIGUSR1; ME.granted = true; }
        else if (op == 11) { self_ = &ME; remove_from_list(&ME); }
        else if (op == 12) { C0.cancelstate = NECO_CANCEL_ENABLE; remove_from_list(&ME); }
    }
    if (op == 3 && G.pauses == 2) neco_mutex_unlock((neco_mutex*)&M);
    self_ = &ME;
    bool d = (how == 1 || (op != 3 && nd_bool())) && dl0 < INT64_MAX; canc = how == 2 || (op != 3 && nd_bool());
    if (op == 3 && G.pauses == 2) d = false;
    if (op == 0 && !canc) { ASSUME(dl0 < INT64_MAX); d = true; }
    ASSUME(granted || d || canc);
    if (d) { ME.deadlined = true; (void)vc_getnow(); ASSUME(vc_now > dl0); }
    if (canc) ME.canceled = true;
}
static void vrun(int c) {
    world_init();
    op = dig(&c, 13); how = dig(&c, 3); int form = dig(&c, 2);
    for (int i = 0; i <= NCO; i++) G.in_all[i] = true;
    ME.canceled = nd_bool(); ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    if (op == 3) ME.canceled = form;
    R.mainthread = true; R.qfd = 5;
    M.rtid = WG.rtid = CV.rtid = CH.c.rtid = R.id; colist_init(&M.queue); colist_init(&WG.queue); colist_init(&CV.queue); colist_init(&CH.c.queue);
    M.locked = true; WG.count = 1; CH.c.msgsize = 2; CH.c.rc = 0; chans[0] = &CH.c;
    C0.cancelstate = NECO_CANCEL_DISABLE; ME.sigwatch = 1u << SIGUSR1;
    dl0 = nd_i64();
    if (neco_getstats(&B) != NECO_OK) CHECK(0, "the statistics can be asked for");
    CHECK(B.coroutines == R.all.count, "the statistics count the coroutines");
    int idx;
    switch (op) {
    case 0: if (form) { dl0 = INT64_MAX; neco_sleep(INT64_MAX); } else neco_sleep_dl(dl0); break;
    case 1: neco_suspend_dl(dl0); break;
    case 2: neco_waitgroup_wait_dl((neco_waitgroup*)&WG, dl0); break;
    case 3: neco_cond_wait_dl((neco_cond*)&CV, (neco_mutex*)&M, dl0); break;
    case 4: neco_mutex_lock_dl((neco_mutex*)&M, dl0); break;
    case 5: neco_mutex_rdlock_dl((neco_mutex*)&M, dl0); break;
    case 6: neco_chan_recv_dl((neco_chan*)&CH.c, msg, dl0); break;
    case 7: neco_chan_send_dl((neco_chan*)&CH.c, msg, dl0); break;
    case 8: idx = neco_chan_selectv_dl(1, (neco_chan**)chans, dl0); break;
    case 9: neco_wait_dl(3, form ? NECO_WAIT_WRITE : NECO_WAIT_READ, dl0); break;
    case 10: neco_signal_wait_dl(dl0); break;
    case 11: neco_join_dl(C0.id, dl0); break;
    default: neco_cancel_dl(C0.id, dl0);
    }
    CHECK(stats_are(NOTHING), "who does not wait any more is not counted any more");
    REACH(G.left, "waited");
    (void)idx;
}
