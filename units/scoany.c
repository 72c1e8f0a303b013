// The coroutine scheduler (sco) with any number of coroutines: run queues with a
// gap that stands for any number of coroutines (see gap.h), any number of paused
// ones.  No loop is involved.  The machine context switch and the AA-tree shards
// are stubs with contracts.
#define _GNU_SOURCE
#include "vc.h"
#ifndef REPLAY
// the list and tree views of struct sco are kept apart (CBMC loses track of
// pointers in unions); the tree contracts overwrite the list links instead
#include "world_headers.h"
#define union struct
#define malloc vc_malloc
#define free vc_free
void *vc_malloc(size_t n); void vc_free(void *p);
#endif
#include NECO_C
#undef union
// the gap of a queue is [first, GAP, last]: GAP stands for any number of further
// coroutines; its links lead back to it, so code that walks through it never ends
static struct sco RG, RG1, RG2, YG, YG1, YG2;
#define ISGAP(p) ((p) == &RG || (p) == &YG)
static struct sco C, R1, R2, RZ, Y1, Y2, YZ, P;
static char ll[9];
static struct sco *rnn[10], *yld[10]; static int nrun_, nyld_;     // expected order
static size_t nrunners, nyielders, npaused;                      // expected numbers
static int op, arg; static bool cur, frommain; static int64_t next0;
static bool p_in, c_in;
static int sw;
struct sco *vc_sco_insert(struct sco **root, struct sco *s) {
    CHECK(s == &C && !c_in, "the coroutine that pauses is paused");
    CHECK(root == &sco_paused.roots[sco_mix13((uint64_t)s->id) & (SCO_NSHARDS-1)], "in the shard of its identifier");
    c_in = true;
    s->prev = nd_bool() ? &P : NULL; s->next = nd_bool() ? &P : NULL;
    return NULL;
}
struct sco *vc_sco_delete(struct sco **root, struct sco *key) {
    CHECK(root == &sco_paused.roots[sco_mix13((uint64_t)key->id) & (SCO_NSHARDS-1)], "from the shard of its identifier");
    if (p_in && key->id == P.id) { p_in = false; return &P; }
    return NULL;
}
static void fill(struct sco_list *l, struct sco **e, int n) {
    struct sco *p = (void*)&l->head, *t = (void*)&l->tail;
    for (int i = 0; i < n; i++) {
        if (!ISGAP(p)) p->next = e[i];
        if (!ISGAP(e[i])) e[i]->prev = p;
        p = e[i];
    }
    p->next = t; l->tail.prev = p;
}
static bool has(struct sco_list *l, struct sco **e, int n) {
    struct sco *p = (void*)&l->head, *t = (void*)&l->tail;
    for (int i = 0; i < n; i++) {
        if (!ISGAP(p) && p->next != e[i]) return false;
        if (!ISGAP(e[i]) && e[i]->prev != p) return false;
        p = e[i];
    }
    return p->next == t && l->tail.prev == p && RG.prev == &RG && RG.next == &RG && YG.prev == &YG && YG.next == &YG;
}
static bool state(struct sco *c) {
    return sco_cur == c && sco_nrunners == nrunners && sco_nyielders == nyielders && has(&sco_runners, rnn, nrun_) && has(&sco_yielders, yld, nyld_);
}
static void drop_first(void) { for (int i = 0; i + 1 < 10; i++) rnn[i] = rnn[i+1]; nrun_--; nrunners--; }
void vc_llco_switch(struct llco *co, bool final) {
    sw++;
    CHECK(sw == 1, "one switch");
    CHECK(final == (op == 4 || op == 5), "only the end of a coroutine is final");
    bool to_main = co == 0, round = nrun_ == 0;
    size_t nobody = nrunners + nyielders == 0;
    if (!round) CHECK(!to_main, "a coroutine that is due in this round runs before anything else");
    else if (nobody) CHECK(to_main, "with nobody to rnn, control returns to the caller");
    else if (!frommain && (npaused > 0 || op == 4)) CHECK(to_main, "after each round, paused coroutines get their chance, however many coroutines yield");
    else CHECK(!to_main, "somebody runs while there is somebody to run");
    if (to_main) {
        CHECK(state(NULL) && !sco_exit_to_main_requested, "no coroutine is lost on the way to the caller");
    } else {
        if (round) { for (int i = 0; i < 10; i++) rnn[i] = yld[i]; nrun_ = nyld_; nrunners = nyielders; nyld_ = 0; nyielders = 0; }
        struct sco *f = rnn[0];
        CHECK(co == f->llco, "the coroutine that has waited longest runs next");
        drop_first();
        CHECK(state(f), "everybody else keeps their place");
    }
    CHECK(sco_npaused == npaused && sco_paused.count == (int)npaused && c_in == (op == 2), "paused coroutines are counted");
    CHECK(sco_info_paused() == npaused && sco_info_scheduled() == nyielders && sco_info_running() == nrunners + (sco_cur ? 1 : 0), "the counters are reported");
    CHECK(sco_active() == (!nobody || npaused > 0), "active while anybody is left");
    REACH(to_main, "to the caller");
    REACH(!to_main && round, "next round");
    REACH(!to_main && !round, "same round");
    NORETURN_END();
}
static char stk[10]; static int udata;
static void user_clean(void *a, size_t b, void *c) { (void)a; (void)b; (void)c; }
void vc_llco_start(struct llco_desc *d, bool final) {
    CHECK(!final && d->stack == stk && d->stack_size == 4711 && d->udata == &udata && d->cleanup == user_clean, "stack, cleanup and argument are passed on");
    d->entry(d->udata);
}
struct llco *vc_llco_current(void) { return (struct llco*)&ll[10]; }
static void entry(void *u) {
    CHECK(u == &udata && sco_cur && sco_cur->udata == u && sco_cur->llco == (struct llco*)&ll[10], "the new coroutine is the current one");
    CHECK(sco_id() == next0 + 1, "with a new identifier");
    CHECK(state(sco_cur), "the starter runs next in this round, before any that yielded");
}
static void init(struct sco *t, int64_t id, int i) { t->prev = t->next = t; t->id = id; t->llco = (struct llco*)&ll[i]; }
static int seq(struct sco **e, int k, struct sco *a, struct sco *b, struct sco *z, struct sco *g1, struct sco *g, struct sco *g2, size_t *n) {
    if (k == 0) { *n = 0; return 0; }
    e[0] = a; if (k == 1) { *n = 1; return 1; }
    e[1] = b; if (k == 2) { *n = 2; return 2; }
    e[2] = g1; e[3] = g; e[4] = g2; e[5] = z;
    *n = nd_size(); ASSUME(*n >= 5 && *n < ((size_t)1 << 40));
    return 6;
}
static void vrun(int c) {
    op = dig(&c, 6); cur = dig(&c, 2); int kr = dig(&c, 4), ky = dig(&c, 4); arg = dig(&c, 3);
    init(&C, 10, 0); init(&R1, 11, 1); init(&R2, 12, 2); init(&RZ, 13, 3); init(&Y1, 14, 4); init(&Y2, 15, 5); init(&YZ, 16, 6); init(&P, 17, 7);
    RG.prev = RG.next = &RG; YG.prev = YG.next = &YG;
    sco_init();
    nrun_ = seq(rnn, kr, &R1, &R2, &RZ, &RG1, &RG, &RG2, &nrunners);
    nyld_ = seq(yld, ky, &Y1, &Y2, &YZ, &YG1, &YG, &YG2, &nyielders);
    fill(&sco_runners, rnn, nrun_); fill(&sco_yielders, yld, nyld_);
    sco_nrunners = nrunners; sco_nyielders = nyielders;
    npaused = nd_size(); ASSUME(npaused < 1u << 30);
    p_in = op == 3 && arg == 0;
    ASSUME(npaused >= (p_in ? 1 : 0));
    sco_npaused = npaused; sco_paused.count = (int)npaused;
    next0 = nd_i64(); ASSUME(next0 >= 0 && next0 < INT64_MAX - 2);
    sco_next_id = next0;
    sco_cur = cur ? &C : NULL;
    if (op == 1) { yld[nyld_++] = &C; nyielders++; sco_yield(); CHECK(0, "a switch"); }
    else if (op == 2) { npaused++; sco_pause(); CHECK(0, "a switch"); }
    else if (op == 4) { sco_exit(); CHECK(0, "a switch"); }
    else if (op == 3) {       // 0 a paused one, 1 one that is not paused, 2 "next round" from the caller
        frommain = !cur;
        int64_t id = arg == 0 ? P.id : arg == 1 ? 12345 : 0;
        if (arg == 0) { yld[nyld_++] = &P; nyielders++; npaused--; if (cur) { yld[nyld_++] = &C; nyielders++; } }
        sco_resume(id);
        CHECK(sw == 0 && (arg == 1 || (arg == 0 && !cur) || (arg == 2 && cur)), "returns only if the coroutine goes on");
        CHECK(state(cur ? &C : NULL) && sco_npaused == npaused && sco_paused.count == (int)npaused, "the resumed coroutine is scheduled behind the others");
        REACH(arg == 0, "scheduled from the caller");
        REACH(arg == 1, "nothing to do");
    } else {
        if (op == 0) sco_cur = NULL;
        struct sco_desc d = { .stack = stk, .stack_size = 4711, .entry = entry, .cleanup = user_clean, .udata = &udata };
        if (op == 5) { rnn[nrun_++] = &C; nrunners++; }
        op = 5;
        sco_start(&d);
        CHECK(0, "a finished coroutine does not come back");
    }
}
