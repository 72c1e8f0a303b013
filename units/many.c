// Many waiters at once: everybody due is woken, in order, once, however many they are.
// (Concrete queues of NM coroutines; the jobs with small queues explore the other dimensions.)
#ifndef NM
#define NM 70
#endif
struct coroutine;
struct coroutine *vm_dl_first(struct coroutine **root); struct coroutine *vm_dl_next(struct coroutine **root, struct coroutine *co);
void vm_cofree(struct coroutine *co);
#ifdef MANY_SCHED
#define UNIT_SCHEDULER
#endif
#include "world.h"
// one object each: the verifier tells them apart without arrays
static struct coroutine w0; static struct coroutine w1; static struct coroutine w2; static struct coroutine w3; static struct coroutine w4; static struct coroutine w5; static struct coroutine w6; static struct coroutine w7; static struct coroutine w8; static struct coroutine w9; static struct coroutine w10; static struct coroutine w11; static struct coroutine w12; static struct coroutine w13; static struct coroutine w14; static struct coroutine w15; static struct coroutine w16; static struct coroutine w17; static struct coroutine w18; static struct coroutine w19; static struct coroutine w20; static struct coroutine w21; static struct coroutine w22; static struct coroutine w23; static struct coroutine w24; static struct coroutine w25; static struct coroutine w26; static struct coroutine w27; static struct coroutine w28; static struct coroutine w29; static struct coroutine w30; static struct coroutine w31; static struct coroutine w32; static struct coroutine w33; static struct coroutine w34; static struct coroutine w35; static struct coroutine w36; static struct coroutine w37; static struct coroutine w38; static struct coroutine w39; static struct coroutine w40; static struct coroutine w41; static struct coroutine w42; static struct coroutine w43; static struct coroutine w44; static struct coroutine w45; static struct coroutine w46; static struct coroutine w47; static struct coroutine w48; static struct coroutine w49; static struct coroutine w50; static struct coroutine w51; static struct coroutine w52; static struct coroutine w53; static struct coroutine w54; static struct coroutine w55; static struct coroutine w56; static struct coroutine w57; static struct coroutine w58; static struct coroutine w59; static struct coroutine w60; static struct coroutine w61; static struct coroutine w62; static struct coroutine w63; static struct coroutine w64; static struct coroutine w65; static struct coroutine w66; static struct coroutine w67; static struct coroutine w68; static struct coroutine w69;
static struct coroutine *const W_[NM] = { &w0, &w1, &w2, &w3, &w4, &w5, &w6, &w7, &w8, &w9, &w10, &w11, &w12, &w13, &w14, &w15, &w16, &w17, &w18, &w19, &w20, &w21, &w22, &w23, &w24, &w25, &w26, &w27, &w28, &w29, &w30, &w31, &w32, &w33, &w34, &w35, &w36, &w37, &w38, &w39, &w40, &w41, &w42, &w43, &w44, &w45, &w46, &w47, &w48, &w49, &w50, &w51, &w52, &w53, &w54, &w55, &w56, &w57, &w58, &w59, &w60, &w61, &w62, &w63, &w64, &w65, &w66, &w67, &w68, &w69 };
#define W(i) (*W_[i])
static __attribute__((unused)) int nw(struct coroutine *co) { for (int i = 0; i < NM; i++) if (co == W_[i]) return i; return -1; }
static void many_init(void) {
    for (int i = 0; i < NM; i++) {
        W(i).next = W(i).prev = W_[i]; W(i).kind = COROUTINE; W(i).id = 1000 + i; W(i).paused = true;
        W(i).cancelstate = NECO_CANCEL_ENABLE;
    }
}
static void queue_all(struct colist *l) { for (int i = 0; i < NM; i++) colist_push_back(l, W_[i]); }
static __attribute__((unused)) bool all_resumed(void) {
    struct coroutine *p = R.resumers.head.next;
    for (int i = 0; i < NM; i++) { if (p != W_[i]) return false; p = p->next; }
    return p == (struct coroutine*)&R.resumers.tail;
}
#ifndef MANY_SCHED
static int op; static bool left, viares;
static struct colist *Q;
static struct neco_mutex M; static struct neco_waitgroup WG; static struct neco_cond CV;
static struct { struct neco_chan c; char data[8]; } CH; static char mb[NM][2], msg[2];
static int nh; static struct cleanup H[NM]; static bool inorder = true;
static void handler(void *a) { if (a != &H[NM - 1 - nh]) inorder = false; nh++; }
static void check(void) {
    CHECK(op == 9 || colist_is_empty(Q), "nobody is left waiting");
    CHECK(all_resumed(), "everybody due is woken, in order, before control leaves");
}
static void unit_leave(int why) {
    if (op == 9) { CHECK(why == W_EXIT && nh == NM && inorder, "every handler runs, last pushed first"); return; }
    if (left) return;
    left = true;
    CHECK(why == W_YIELD, "yields to those woken");
    check();
    if (op == 8) for (int i = 0; i < NM; i++) CHECK(mb[i][0] == 'm' && mb[i][1] == 'n', "with the message");
    if (op == 7) for (int i = 0; i < NM; i++) CHECK(W(i).cclosed, "and told that it is closed");
}
static void unit_env(int why) { (void)why; colist_init(&R.resumers); R.nresumers = 0; }
static void vrun(int c) {
    world_init(); many_init();
    op = dig(&c, 10);
    ME.canceled = false; G.in_all[0] = true; ME.argv = ME.aargv; ME.argc = 1;
    M.rtid = WG.rtid = CV.rtid = CH.c.rtid = R.id; colist_init(&M.queue); colist_init(&WG.queue); colist_init(&CV.queue); colist_init(&CH.c.queue);
    Q = op < 2 ? &WG.queue : op == 2 ? &CV.queue : op == 3 ? &M.queue : op == 4 ? &ME.cancellist : op == 5 ? &ME.joinlist : op == 6 ? &ME.cancellist : &CH.c.queue;
    if (op < 9) queue_all(Q);
    int r = NECO_OK;
    if (op == 0) { WG.count = 1; r = neco_waitgroup_done((neco_waitgroup*)&WG); }
    if (op == 1) { WG.count = nd_count() + 1; r = neco_waitgroup_add((neco_waitgroup*)&WG, -WG.count); }
    if (op == 2) r = neco_cond_broadcast((neco_cond*)&CV);
    if (op == 3) { M.locked = true; for (int i = 0; i < NM; i++) W(i).rlocked = true; r = neco_mutex_unlock((neco_mutex*)&M); CHECK(M.locked, "the readers hold the lock"); }
    if (op == 4) { ME.cancelstate = NECO_CANCEL_DISABLE; r = neco_setcancelstate(NECO_CANCEL_ENABLE, 0); if (!left) { left = true; check(); } }
    if (op == 5 || op == 6) coexit(false);
    if (op == 7) { CH.c.qrecv = true; CH.c.msgsize = 2; for (int i = 0; i < NM; i++) W(i).cmsg = mb[i]; r = neco_chan_close((neco_chan*)&CH.c); }
    if (op == 8) { CH.c.qrecv = true; CH.c.msgsize = 2; for (int i = 0; i < NM; i++) W(i).cmsg = mb[i]; msg[0] = 'm'; msg[1] = 'n'; r = neco_chan_broadcast((neco_chan*)&CH.c, msg); CHECK(r == NM, "and their number is returned"); r = 0; }
    if (op == 9) { for (int i = 0; i < NM; i++) __neco_c0(&H[i], handler, &H[i]); neco_exit(); }
    CHECK(r == NECO_OK && left, "OK");
#ifndef M_EXIT
    REACH(1, "completes");
#endif
}
#else
static void unit_leave(int why) { (void)why; CHECK(0, "the scheduler is not a coroutine"); }
static void unit_env(int why) { (void)why; }
static int op, seen, ndue, nfreed; static bool ok = true;
static void unit_resume(struct coroutine *co) { (void)co; }
void sco_resume_many(int64_t id) { if (id != 1000 + seen) ok = false; seen++; }
static struct coroutine *from(int i) { return op == 2 && i < NM ? W_[i] : NULL; }
struct coroutine *vm_dl_first(struct coroutine **root) { (void)root; return from(0); }
struct coroutine *vm_dl_next(struct coroutine **root, struct coroutine *co) { (void)root; return from(nw(co) + 1); }
void vm_cofree(struct coroutine *co) { if (co != W_[nfreed]) ok = false; nfreed++; }
int pthread_mutex_lock(pthread_mutex_t *m) { (void)m; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { (void)t; (void)r; return 0; }
size_t sco_info_scheduled(void) { return 0; }
static void vrun(int c) {
    world_init(); many_init();
    self_ = NULL; op = dig(&c, 4);
    R.nevwaiters = 0; R.sigmask = 0; R.niowaiters = 0; R.ndeadlines = 0; vc_now = INT64_C(1) << 49;
    if (op == 0) { queue_all(&R.resumers); R.nresumers = NM; }
    if (op == 1) { queue_all(&R.iolist); R.niowaiters = NM; }
    if (op == 2) { R.ndeadlines = NM; for (int i = 0; i < NM; i++) W(i).deadline = nd_bool() ? 5 : 6; }
    if (op == 3) {
        queue_all(&R.pool); R.npool = NM; R.qfd = 0;
        for (int i = 0; i < NM; i++) W(i).pool_ts = 1;
        rt_rc_step();
        CHECK(ok && nfreed == NM && R.npool == 0 && colist_is_empty(&R.pool), "everything that rested long enough is freed, oldest first");
    } else {
        rt_sched_paused_step();
        CHECK(ok && seen == NM, "everybody due is woken in one step, in order");
        CHECK(colist_is_empty(&R.resumers) && R.nresumers == 0 && colist_is_empty(&R.iolist), "nobody is left behind");
        for (int i = 0; i < NM; i++) CHECK(W(i).deadlined == (op == 2), "exactly those whose time has come are timed out");
    }
    REACH(1, "completes");
}
#endif
