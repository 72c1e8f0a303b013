// Contracts of the runtime's own steps: waking resumers, deadlines, file events
// and signals; recycling.
#define UNIT_SCHEDULER
#include "world.h"
static void unit_leave(int why) { (void)why; CHECK(0, "the scheduler is not a coroutine"); }
static void unit_env(int why) { (void)why; }
static int nresumed[NCO+1];
static struct coroutine *ord[8]; static int nord;
static void unit_resume(struct coroutine *co) {
    CHECK(co != NULL, "only known coroutines are resumed");
    if (!co) return;
    nresumed[coidx(co)]++;
    if (nord < 8) ord[nord] = co;
    nord++;
}
static bool ordered_first(struct coroutine *a, struct coroutine *b) { // a resumed before b
    int ia = 99, ib = 99;
    for (int i = 7; i >= 0; i--) if (i < nord) { if (ord[i] == a) ia = i; if (ord[i] == b) ib = i; }
    return ia < ib;
}
static void sched_setup(void) { world_init(); self_ = NULL; for (int i = 0; i <= NCO; i++) G.in_all[i] = true; }

#ifdef U_PAUSED
static int64_t slept, ev_timeout;
static int nsleeps, nevsteps, nsigsteps, locked;
static size_t scheduled;
static int64_t t_first;
size_t sco_info_scheduled(void) { return scheduled; }
int nanosleep(const struct timespec *t, struct timespec *r) {
    (void)r;
    CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000 && t->tv_sec >= 0, "a valid time to sleep");
    nsleeps++; slept = t->tv_sec * INT64_C(1000000000) + t->tv_nsec; return nd_bool() ? 0 : -1;
}
int pthread_mutex_lock(pthread_mutex_t *m) { CHECK(m == &R.iomu && !locked, "locks its own list"); locked = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(m == &R.iomu && locked, "unlocks it"); locked = 0; return 0; }
void vc_event_step(int64_t timeout) { nevsteps++; ev_timeout = timeout; CHECK(!locked, "not while locked"); }
void vc_signal_step(void) { nsigsteps++; }
static struct coroutine *io[2]; static int nio;
static void vrun(int c) {
    sched_setup();
    int nres = dig(&c, 3), ndl = dig(&c, 3); nio = dig(&c, 2); int same = dig(&c, 2);
    // resumers C0, C1; deadline holders: C1, C2 (same: C0, C1); background work: C2
    if (nres > 0) colist_push_back(&R.resumers, &C0);
    if (nres > 1) colist_push_back(&R.resumers, &C1);
    R.nresumers = nres;
    struct coroutine *d[2] = { same ? &C0 : &C2, &C1 };
    for (int i = 0; i < ndl; i++) { d[i]->deadline = nd_i64(); ASSUME(d[i]->deadline < INT64_MAX); d[i]->paused = true; G.in_dl[coidx(d[i])] = true; }
    R.ndeadlines = (size_t)ndl;
    if (nio) { colist_push_back(&R.iolist, &ME); R.niowaiters = (size_t)nd_count() + 1; }
    scheduled = nd_bool() ? (size_t)nd_count() : 0;
    R.sigmask = nd_bool() ? nd_uint() : 0;
    bool sig = R.sigmask != 0, idle = scheduled == 0 && !sig && R.niowaiters == 0;
    ME.deadlined = C0.deadlined = C1.deadlined = C2.deadlined = false;
    t_first = vc_now;
    size_t nev0 = R.nevwaiters;
    rt_sched_paused_step();
    // wakes everybody who is to be woken
    CHECK(R.nresumers == 0 && colist_is_empty(&R.resumers), "no scheduled coroutine is left behind");
    CHECK(IMP(nres > 0, nresumed[1] > 0 && ord[0] == &C0) && IMP(nres > 1, nresumed[2] > 0 && ord[1] == &C1 && detached(&C1)), "in order");
    CHECK(IMP(nio, nresumed[0] == 1 && colist_is_empty(&R.iolist)) && !locked, "finished background work wakes its coroutine");
    for (int i = 0; i < 2; i++) {
        bool has = i < ndl, due = has && d[i]->deadline < vc_now;
        bool other = (d[i] == &C0 && nres > 0) || (d[i] == &C1 && nres > 1);
        CHECK(d[i]->deadlined == due, "exactly the coroutines whose time has come are timed out");
        CHECK(IMP(due, nresumed[coidx(d[i])] > 0), "and woken");
        CHECK(IMP(!due && !other, nresumed[coidx(d[i])] == 0), "nobody else is woken");
    }
    if (ndl == 2 && nres == 0 && C1.deadlined && d[0]->deadlined) CHECK(ordered_first(dl_compare(&C1, d[0]) < 0 ? &C1 : d[0], dl_compare(&C1, d[0]) < 0 ? d[0] : &C1), "the earliest deadline is served first");
    CHECK(!ME.deadlined, "no deadline, no timeout");
    // idles no longer than it may
    int64_t t = nevsteps ? ev_timeout : slept;
    CHECK((nev0 > 0) == (nevsteps == 1) && nevsteps <= 1, "events are served when somebody waits for one");
    CHECK(nsleeps <= 1 && !(nsleeps && nevsteps), "it idles at most once");
    CHECK(t >= 0 && t <= INT64_C(500000000), "and for a limited time");
    CHECK(IMP(!idle, t == 0), "never with work to do");
    for (int i = 0; i < 2; i++) if (i < ndl) CHECK(t == 0 || (__int128)t <= (__int128)d[i]->deadline - t_first, "never past a deadline");
    CHECK(IMP(idle && ndl == 0, t > 0), "it does not burn time");
    CHECK((nsigsteps == 1) == sig, "pending signals are delivered");
    REACH(nsleeps == 1, "idle"); REACH(nevsteps == 1 && ev_timeout > 0, "waiting for events");
    REACH(C1.deadlined, "timed out"); REACH(nio, "work");
}
#endif

#ifdef U_EVENTS
enum { NEV = 2 };
static int nev, ret_ev, rearmed[NCO+1];
static struct { int fd; uint32_t ev; } EV[NEV];
static uint32_t armed[8]; static bool was_armed[8];
static int64_t timeout0;
int epoll_wait(int q, struct epoll_event *e, int max, int ms) {
    CHECK(q == R.qfd && max >= NEV, "its own queue");
    CHECK(ms >= 0 && (int64_t)ms * 1000000 <= timeout0, "waits no longer than it may");
    if (ret_ev == -1) { errno = EINTR; return -1; }
    for (int i = 0; i < nev; i++) { e[i].events = EV[i].ev; e[i].data.fd = EV[i].fd; }
    return nev;
}
int epoll_ctl(int q, int op, int fd, struct epoll_event *e) {
    CHECK(q == R.qfd && op == EPOLL_CTL_MOD && e->data.fd == fd && fd >= 0 && fd < 8, "changes a registration of its own queue");
    CHECK(e->events & EPOLLONESHOT, "one event at a time");
    if (fd >= 0 && fd < 8) { armed[fd] = e->events; was_armed[fd] = true; }
    return 0;
}
static void vrun(int c) {
    sched_setup();
    int nw = dig(&c, 4), e = dig(&c, 4); int fdpat = dig(&c, 3), kpat = dig(&c, 8), evfd = dig(&c, 2);
    nev = e == 3 ? 0 : e; ret_ev = e == 3 ? -1 : nev;
    R.qfd = 5;
    timeout0 = nd_i64(); ASSUME(timeout0 >= 0 && timeout0 <= 500000000);
    for (int i = 0; i < nw; i++) {   // waiters: descriptor 3 or 4, read or write
        struct coroutine *co = CO(i);
        co->evfd = fdpat == 0 ? 3 : fdpat == 1 ? (i == 0 ? 4 : 3) : (i == 2 ? 4 : 3);
        co->evkind = (kpat >> i) & 1 ? EVWRITE : EVREAD;
        co->paused = true;
        G.in_ev[i+1] = true;
    }
    R.nevwaiters = (size_t)nw;
    for (int i = 0; i < NEV; i++) { EV[i].fd = i == 0 ? 3 + evfd : 4 - evfd; EV[i].ev = nd_uint() & (EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP); ASSUME(EV[i].ev); }
    rt_sched_event_step(timeout0);
    for (int i = 0; i < nw; i++) {
        struct coroutine *co = CO(i);
        bool hit = false, otherkind = false;
        for (int k = 0; k < nev; k++) if (EV[k].fd == co->evfd) {
            if (EV[k].ev & (EPOLLERR|EPOLLHUP|(co->evkind == EVREAD ? EPOLLIN : EPOLLOUT))) hit = true; else otherkind = true;
        }
        CHECK((nresumed[i+1] > 0) == hit, "exactly the coroutines waiting for what happened are woken");
        if (otherkind && !hit) CHECK(was_armed[co->evfd] && (armed[co->evfd] & (co->evkind == EVREAD ? EPOLLIN : EPOLLOUT)), "the others stay armed");
        CHECK(!co->deadlined && !co->canceled && G.in_ev[i+1], "an event is neither a timeout nor a cancelation");
        REACH(hit && co->evkind == EVWRITE, "writer woken"); REACH(otherkind && !hit, "stays armed");
    }
}
#endif

#ifdef U_SIGNALS
static int exited_with = -1;
void vc_sigexit(int signo) { exited_with = signo; }
static void vrun(int c) {
    sched_setup();
    int nw = dig(&c, 4), signo = dig(&c, 2) ? SIGPIPE : SIGINT, waits = dig(&c, 8);
    bool watched = dig(&c, 2), other = dig(&c, 2);      // another pending one nobody waits for
    R.mainthread = true;
    uint32_t m[3];
    R.sigwatchers[signo] = watched ? 2 : 0;
    R.sigqueue[signo] = 1 + dig(&c, 2);
    int q0 = R.sigqueue[signo];
    uint32_t others = nd_uint() & ~(UINT32_C(1) << signo);
    R.sigmask = others | UINT32_C(1) << signo;
    others = other ? others | (1u << SIGUSR1) : others & ~(1u << SIGUSR1);
    R.sigmask = others | UINT32_C(1) << signo;
    if (other) { R.sigqueue[SIGUSR1] = 2; R.sigwatchers[SIGUSR1] = 1; }
    int q1 = R.sigqueue[SIGUSR1];
    for (int i = 0; i < nw; i++) {
        m[i] = 1u << SIGTERM | (i == 1 ? 1u << SIGHUP : 0);
        if (waits >> i & 1) m[i] |= 1u << signo;
        CO(i)->sigmask = m[i]; CO(i)->paused = true; CO(i)->granted = false;
        colist_push_back(&R.sigwaiters, CO(i));
    }
    rt_sched_signal_step();
    int taker = -1;
    for (int i = nw - 1; i >= 0; i--) if (waits >> i & 1) taker = i;
    if (!watched) taker = -1;
    for (int i = 0; i < nw; i++) {
        CHECK((nresumed[i+1] == 1) == (i == taker) && nresumed[i+1] <= 1, "the first coroutine that waits for the signal is woken, and only it");
        CHECK(CO(i)->granted == (i == taker), "only it got the signal");
        CHECK(CO(i)->sigmask == (i == taker ? (uint32_t)signo : m[i]), "it learns which signal");
        CHECK(detached(CO(i)) == (i == taker), "the others go on waiting");
    }
    CHECK(R.sigqueue[signo] == q0 - (taker >= 0 || !watched), "each delivery is used once");
    CHECK(!!(R.sigmask & (UINT32_C(1) << signo)) == (R.sigqueue[signo] > 0), "and pending as long as any is left");
    CHECK((R.sigmask & ~(UINT32_C(1) << signo)) == others && R.sigqueue[SIGUSR1] == q1, "other signals stay pending");
    CHECK((exited_with == signo) == (!watched && signo != SIGPIPE), "a signal nobody watches ends the program, except SIGPIPE");
    REACH(taker == 1, "second waiter"); REACH(exited_with >= 0, "not watched any more");
}
#endif

#ifdef U_SIGHANDLER
static int exited_with = -1, crashed = -1;
void vc_sigexit(int signo) { exited_with = signo; }
void vc_crash(int signo) { crashed = signo; }
static void vrun(int c) {
    static const int all[13] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM, SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGTRAP };
    sched_setup();
    int i = dig(&c, 13), signo = all[i];
    for (int s = 0; s < 32; s++) { R.sigqueue[s] = nd_count(); R.sigwatchers[s] = nd_count(); }
    R.sigcrashed = 0;
    int k = nd_int(); ASSUME(k >= 0 && k < 32);
    int q0 = R.sigqueue[signo], qk = R.sigqueue[k]; uint32_t m0 = R.sigmask = nd_uint();
    bool watched = R.sigwatchers[signo] > 0;
    sighandler(signo, 0, 0);
    if (i < 8) {
        CHECK(R.sigqueue[signo] == q0 + watched && R.sigmask == (m0 | (watched ? UINT32_C(1) << signo : 0)), "a watched signal is queued");
        CHECK((exited_with == signo) == (!watched && signo != SIGPIPE) && crashed < 0, "one that is not watched ends the program, except SIGPIPE");
    } else {
        CHECK(crashed == signo && R.sigcrashed == signo && R.sigmask == m0 && R.sigqueue[signo] == q0, "a fault ends the program");
    }
    CHECK(k == signo || R.sigqueue[k] == qk, "no other signal is queued");
    CHECK(nord == 0, "a handler resumes nobody");
    REACH(watched, "watched");
}
#endif

#ifdef U_RC
static int freed[NCO+1], nclosed;
void vc_cofree(struct coroutine *co) { CHECK(detached(co), "a coroutine is not freed while listed"); freed[coidx(co)]++; }
int close(int fd) { CHECK(fd == R.qfd && fd > 0, "only its own queue is closed"); nclosed++; return 0; }
static void vrun(int c) {
    sched_setup();
    int n = dig(&c, 4), old = dig(&c, 4);
    if (old > n) { ASSUME(0); }
    R.qfd = nd_bool() ? 5 : 0; R.qfdcreated = nd_i64(); ASSUME(R.qfdcreated >= 0 && R.qfdcreated <= vc_now);
    R.nevwaiters = (size_t)(nd_bool() ? nd_count() : 0);
    int64_t ts[3] = { 0 };
    for (int i = 0; i < n; i++) {
        // timestamps do not decrease along the pool; new entries have none
        int64_t t = 0;
        if (i < old) { t = nd_i64(); ASSUME(t > 0 && t <= vc_now && (i == 0 || t >= ts[i-1])); }
        CO(i)->pool_ts = ts[i] = t;
        colist_push_back(&R.pool, CO(i));
    }
    R.npool = n;
    ASSUME(vc_now > 0);
    int q0 = R.qfd;
    rt_rc_step();
    int left = 0;
    for (int i = 0; i < n; i++) {
        bool stale = i < old && vc_now - ts[i] >= 100 * NECO_MILLISECOND;
        CHECK(freed[i+1] == stale, "a coroutine is given back after resting in the pool, not before");
        CHECK(freed[i+1] || CO(i)->pool_ts == (i < old ? ts[i] : vc_now), "the time of pooling is kept");
        left += !stale;
    }
    CHECK(R.npool == left && list_len(&R.pool) == left, "the pool is counted");
    CHECK(nclosed == (q0 > 0 && R.qfd == 0), "a closed queue is forgotten");
    CHECK(IMP(R.nevwaiters > 0, nclosed == 0 && R.qfd == q0), "the event queue is not closed while anybody waits");
    REACH(nclosed, "closed"); REACH(freed[1] && !freed[2] && n > 1, "some freed");
}
#endif

#ifdef U_LOOP
// the main loop: runs until nobody is left, and then gives everything back
static int left0, steps, rcs, nfreed, nclosed; static bool pausedstep;
static int np;
bool sco_active(void) { return left0 > 0; }
size_t sco_info_paused(void) { return (size_t)np; }
static void vrun(int c) {
    (void)c;
}
#endif
