// Contracts of the background workers (the pool itself) and of neco_work.
#ifdef U_NECOWORK
#include "world.h"
#else
#define _GNU_SOURCE
#include "vc.h"
#ifdef REPO_WORKER
#include REPO_WORKER
#else
#ifndef REPLAY
#define malloc vc_malloc
#define free vc_free
void *vc_malloc(size_t n); void vc_free(void *p);
#endif
#include NECO_C
#endif
#endif
static int locked;           // who holds the mutex of the thread: 0 nobody, 1 we
#ifdef U_NECOWORK
static bool submitted, finished; static int nrun, nsub, refuse, early, left_yield; static void (*wfn)(void*); static void *warg;
static char token; static int es;
static void userwork(void *u) { CHECK(u == &token, "the work gets its argument"); CHECK(!locked, "and runs unlocked"); nrun++; }
int pthread_mutex_lock(pthread_mutex_t *m) { CHECK(m == &R.iomu && !locked, "locks the list of finished work"); locked = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(m == &R.iomu && locked, "unlocks it"); locked = 0; return 0; }
static int64_t pin0;
bool vc_submit(struct worker *w, int64_t pin, void (*fn)(void*), void *arg) {
    CHECK(w == R.worker && pin == pin0, "submits to its own workers");
    CHECK(!submitted, "submits once");
    CHECK(nsub == left_yield, "others run before it is tried again");
    nsub++;
    if (refuse > 0) { refuse--; return false; }
    submitted = true; wfn = fn; warg = arg;
    return true;
}
static bool canc;
static void unit_leave(int why) {
    CHECK(!locked, "not while locked");
    CHECK(why != W_EXIT, "work can not be canceled");
    if (why == W_YIELD) { CHECK(!submitted, "yields only while no worker is free"); return; }
    CHECK(why == W_PAUSE && submitted && !finished, "waits for the work");
    CHECK(R.niowaiters == S0.niowaiters + 1, "and is counted");
}
static void unit_env(int why) {
    if (why == W_YIELD) { left_yield++; if (nd_bool()) { ME.canceled = true; canc = true; } return; }
    if (early > 0) { early--; ME.canceled = true; canc = true; return; }      // woken by a cancel, the work goes on
    wfn(warg);
    finished = true;
    CHECK(list_is(&R.iolist, dig(&es, 2) ? &C0 : &ME, 0, 0, 0) || list_at(&R.iolist, 0) == &C0, "the coroutine is listed as finished");
    if (nd_bool()) { ME.canceled = true; canc = true; }
    if (dig(&es, 2)) remove_from_list(&ME);       // taken by the scheduler; or woken by the cancel before that
}
static void vrun(int c) {
    world_init();
    refuse = dig(&c, 3); early = dig(&c, 3); int form = dig(&c, 3), other = dig(&c, 2); es = c;
    bool c0 = ME.canceled = nd_bool(); ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    int64_t d0 = ME.deadline; bool dl = ME.deadlined = false; (void)d0; (void)dl;
    R.worker = (struct worker*)&token;
    pin0 = nd_i64();
    if (other) colist_push_back(&R.iolist, &C0);
    if (form == 2) rt = NULL;
    int r = neco_work(pin0, form == 1 ? NULL : userwork, &token);
    if (form) CHECK(r == (form == 1 ? NECO_INVAL : NECO_PERM) && !nsub && !nrun, "misuse is refused");
    else {
        CHECK(r == NECO_OK && finished && nrun == 1, "returns when the work is done, once");
        CHECK(ME.canceled == (c0 || canc), "a cancel stays pending");
        CHECK(detached(&ME) && IMP(other, !detached(&C0)), "the coroutine is no longer listed, others are");
    }
    CHECK(lasterr == (r < 0 ? r : 0), "the error is recorded");
    if (rt) CHECK(no_trace(), "no trace is left");
    REACH(r == NECO_OK && nsub == 3, "submitted later"); REACH(r == NECO_OK && canc, "canceled");
}
#else
enum { N = 4 };
static struct worker_thread T, T1; static struct worker_thread *TT[2]; static struct worker W;
static struct worker_entry E[N]; static char U[N+4]; static int nent;
#ifdef U_SUBMIT
static int ncreate, nsignal; static bool create_fails;
int pthread_mutex_lock(pthread_mutex_t *m) { CHECK(m == &T.mu && !locked, "locks the thread"); locked = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(m == &T.mu && locked, "unlocks it"); locked = 0; return 0; }
int pthread_cond_signal(pthread_cond_t *c) { CHECK(c == &T.cond && locked, "wakes the thread"); nsignal++; return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *p) {
    CHECK(t == &T.th && f == worker_entry && p == &T && locked, "starts the thread"); (void)a;
    ncreate++;
    T.th = (pthread_t)nd_u64();
    if (create_fails) return EAGAIN;
    ASSUME(T.th != 0);
    return 0;
}
static void job(void *u) { (void)u; }
static void vrun(int c) {
    int len = dig(&c, N + 1), pos = dig(&c, N), running = dig(&c, 2); create_fails = dig(&c, 2); nent = dig(&c, 2) ? N : N - 1; int bad = dig(&c, 3), pk = dig(&c, 2);
    if (len > nent || pos >= nent) { ASSUME(0); }
    T.nentries = nent; T.len = len; T.pos = pos; T.entries = E; T.th = running ? (pthread_t)77 : 0;
    for (int i = 0; i < N; i++) { E[i].work = job; E[i].udata = &U[i]; }
    W.nthreads = pk ? 2 : 1; W.threads = TT; TT[0] = &T; TT[1] = pk ? &T : &T1;
    int64_t pin = nd_i64();
    bool ok = worker_submit(bad == 1 ? NULL : &W, pin, bad == 2 ? NULL : job, &U[N]);
    CHECK(!locked, "unlocked");
    bool room = len < nent && !bad, created = !running && room;
    CHECK(ok == (room && !(created && create_fails)), "work is accepted if there is room and a thread for it");
    CHECK(ncreate == created, "a thread is started if there is none");
    CHECK(T.len == len + ok && T.pos == pos && T.nentries == nent, "accepted work is queued, other work is not");
    for (int i = 0; i < N; i++) if (i < len) {
        int k = (pos + i) % nent;
        CHECK(E[k].work == job && E[k].udata == &U[k], "the work before it stays");
    }
    if (ok) { int k = (pos + len) % nent; CHECK(E[k].work == job && E[k].udata == &U[N], "it is queued last"); }
    CHECK(IMP(ok && running, nsignal >= 1), "and the thread is woken");
    CHECK(IMP(!ok && !running, T.th == 0), "no thread where there is none");
    CHECK(IMP(running, T.th == (pthread_t)77), "a running thread stays");
    REACH(ok, "accepted"); REACH(!ok && len == nent, "full"); REACH(ncreate && !ok, "no thread");
}
#endif
#ifdef U_ENTRY
// the thread: works off its queue in order, each entry once, unlocked, and ends only when there is none left
static int es, nrun, nwaits, detachs, nadded, order[8]; static bool ended; static int next_udata, maxadd; static pthread_t th0;
int clock_gettime(clockid_t id, struct timespec *ts) { (void)id; ts->tv_sec = nd_i64(); ts->tv_nsec = nd_i64(); ASSUME(ts->tv_sec >= 0 && ts->tv_sec < INT64_MAX); return 0; }
static void add(void) {         // another thread submits (worker_submit, U_SUBMIT)
    if (T.len < T.nentries && nadded < 3) {
        int k = (T.pos + T.len) % T.nentries;
        E[k].work = T.entries[0].work; E[k].udata = &U[next_udata++]; T.len++; nadded++;
    }
}
static void job(void *u) {
    CHECK(!locked, "work is done without the lock");
    if (nrun < 8) order[nrun] = (int)((char*)u - U);
    nrun++;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    CHECK(m == &T.mu && !locked, "locks the thread");
    if (nrun && dig(&es, 2)) add();     // while the work was done
    locked = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(m == &T.mu && locked, "unlocks it"); locked = 0; return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    CHECK(c == &T.cond && m == &T.mu && locked && T.len == 0, "waits when there is nothing to do"); (void)ts;
    nwaits++;
    if (nwaits < 3 && dig(&es, 2)) add();
    else if (nd_bool()) { T.end = ended = true; }       // worker_free
    return nd_bool() ? 0 : ETIMEDOUT;
}
int pthread_detach(pthread_t t) { CHECK(t == th0 && locked && !ended, "a thread nobody joins is detached"); detachs++; return 0; }
static void vrun(int c) {
    int len = dig(&c, 4), pos = dig(&c, 3); es = c;
    nent = 3;
    T.nentries = nent; T.len = len; T.pos = pos; T.entries = E; T.th = th0 = (pthread_t)77;
    for (int i = 0; i < N; i++) { E[i].work = job; E[i].udata = NULL; }
    for (int i = 0; i < len; i++) E[(pos + i) % nent].udata = &U[i];
    next_udata = len;
    void *r = worker_entry(&T);
    CHECK(r == NULL && !locked, "the thread ends unlocked");
    CHECK(nrun == len + nadded && T.len == 0, "every entry is worked off, once");
    for (int i = 0; i < 7; i++) if (i < nrun) CHECK(order[i] == i, "in order");
    CHECK(T.th == 0 && !T.end, "and can be started again");
    CHECK(detachs == !ended, "a thread is joined or detached");
    CHECK(nwaits >= 1, "a thread waits for more work before it ends");
    REACH(nrun == 6, "all"); REACH(detachs, "detached"); REACH(ended, "joined");
}
#endif
#ifdef U_NEWFREE
static int nal, nfr, fail_at, joined, signaled; static void *blk[8]; static bool live[8];
static struct worker_entry EB[2][8]; static struct worker_thread TB[2]; static struct worker WB; static struct worker_thread *PB[2];
static void *my_malloc(size_t n) {
    int k = nal++;
    if (k == fail_at) return NULL;
    static const size_t sz[] = { sizeof(struct worker), 2*sizeof(void*), sizeof(struct worker_thread), 4*sizeof(struct worker_entry), sizeof(struct worker_thread), 4*sizeof(struct worker_entry) };
    CHECK(k < 6 && n == sz[k], "memory for the workers");
    void *p = k == 0 ? (void*)&WB : k == 1 ? (void*)PB : k == 2 ? (void*)&TB[0] : k == 3 ? (void*)EB[0] : k == 4 ? (void*)&TB[1] : (void*)EB[1];
    if (k < 6) { blk[k] = p; live[k] = true; }
    return p;
}
static void my_free(void *p) {
    if (!p) return;
    int k = -1;
    for (int i = 0; i < 6; i++) if (live[i] && blk[i] == p) k = i;
    CHECK(k >= 0, "only live memory is freed, once");
    if (k >= 0) { live[k] = false; nfr++; }
    CHECK(!(k == 2 && TB[0].th) && !(k == 4 && TB[1].th), "not under a running thread");
}
static struct worker_thread *lk;
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a) { (void)m; (void)a; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { CHECK(!lk, "locks one"); lk = m == &TB[0].mu ? &TB[0] : &TB[1]; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(lk && m == &lk->mu, "unlocks it"); lk = NULL; return 0; }
int pthread_cond_signal(pthread_cond_t *c) { CHECK(lk && c == &lk->cond && lk->end, "told to end"); signaled++; return 0; }
int pthread_join(pthread_t t, void **r) { (void)r; CHECK(!lk && (t == 71 || t == 72), "joins a running thread"); struct worker_thread *x = t == 71 ? &TB[0] : &TB[1]; CHECK(x->end, "that was told to end"); x->th = 0; joined++; return 0; }
static void vrun(int c) {
    fail_at = dig(&c, 7); int run = dig(&c, 4);
    if (fail_at == 6) fail_at = 99;
    for (int i = 0; i < 2; i++) { TB[i].th = nd_u64(); TB[i].len = nd_int(); TB[i].pos = nd_int(); TB[i].end = nd_bool(); TB[i].nentries = nd_int(); PB[i] = (void*)&W; }
    struct worker_opts o = { .max_threads = 2, .max_thread_entries = 4, .malloc = my_malloc, .free = my_free };
    struct worker *w = worker_new(&o);
    if (fail_at < 6) {
        CHECK(w == NULL && nal - 1 == nfr, "without memory there are no workers, and nothing is left behind");
        worker_free(NULL);
        return;
    }
    CHECK(w == &WB && w->nthreads == 2, "workers");
    for (int i = 0; i < 2; i++) CHECK(w->threads[i] == &TB[i] && TB[i].len == 0 && TB[i].pos == 0 && TB[i].th == 0 && !TB[i].end && TB[i].nentries == 4 && TB[i].entries == EB[i], "that have nothing to do");
    if (run & 1) TB[0].th = 71;
    if (run & 2) TB[1].th = 72;
    worker_free(w);
    CHECK(nfr == 6 && joined == (run & 1) + (run >> 1), "all memory is given back after the running threads have ended");
    REACH(joined == 2, "joined");
}
#endif
#endif
