// Contracts of the coroutine scheduler (sco): the real code, with the machine
// level context switch (llco) as the only stub.
#define _GNU_SOURCE
#include "vc.h"
#ifdef SCO_DEP
#include REPO_SCO
#else
#ifndef REPLAY
// the list and tree views of struct sco are kept apart (CBMC loses track of
// pointers in unions); the tree contracts overwrite the list links instead
#include "world_headers.h"
#define union struct
#define malloc vc_malloc      // not used by sco; keeps the candidates of function pointers small
#define free vc_free
void *vc_malloc(size_t n); void vc_free(void *p);
#endif
#include NECO_C
#undef union
#endif
enum { NR = 3, NY = 3 };
static struct sco T0, T1, T2, T3, T4, T5, T6, T7;  // 0 current, 1..3 runners, 4..6 yielders, 7 paused
#define TT(i) ((i) == 0 ? &T0 : (i) == 1 ? &T1 : (i) == 2 ? &T2 : (i) == 3 ? &T3 : (i) == 4 ? &T4 : (i) == 5 ? &T5 : (i) == 6 ? &T6 : &T7)
static struct sco P2;              // second paused one
static char ll[9];                 // stands for the machine contexts
static int sw, started, cleanups;
static int nr, ny, np, cur;
static int op;
static bool exit_req;
static int64_t next0;
static struct sco *expect[8]; static int nexpect;   // run order that must be preserved
static struct sco *newco;
static int64_t arg;
static int stage;

// contract of the AA-tree shards: a set of coroutines by identifier.  A member's
// links belong to the tree, so they are overwritten here
static bool in_map[3];
static struct sco *map_co(int i) { return i == 0 ? &T0 : i == 1 ? &T7 : &P2; }
static bool map_has(struct sco *s) { return s == &T0 ? in_map[0] : s == &T7 ? in_map[1] : in_map[2]; }
struct sco *vc_sco_insert(struct sco **root, struct sco *s) {
    CHECK(s == &T0 || s == &T7 || s == &P2, "a coroutine is paused");
    CHECK(root == &sco_paused.roots[sco_mix13((uint64_t)s->id) & (SCO_NSHARDS-1)], "in the shard of its identifier");
    CHECK(!map_has(s), "once");
    for (int i = 0; i < 3; i++) if (map_co(i) == s) in_map[i] = true;
    s->prev = s->next = NULL;
    return NULL;
}
struct sco *vc_sco_delete(struct sco **root, struct sco *key) {
    CHECK(root == &sco_paused.roots[sco_mix13((uint64_t)key->id) & (SCO_NSHARDS-1)], "from the shard of its identifier");
    for (int i = 0; i < 3; i++) if (in_map[i] && map_co(i)->id == key->id) { in_map[i] = false; return map_co(i); }
    return NULL;
}
static bool lists_ok(struct sco *c, int from, bool all_in_runners, int nrun) {
    // runners then yielders are exactly expect[from..], runners first
    struct sco *p = (struct sco*)&sco_runners.head;
    int i = from;
    size_t n = 0;
    for (int k = 0; k < 8; k++) {
        if (p->next == (struct sco*)&sco_runners.tail) break;
        if (i >= nexpect || p->next != expect[i] || p->next->prev != p) return false;
        p = p->next; i++; n++;
    }
    if (((struct sco*)&sco_runners.tail)->prev != p || n != sco_nrunners) return false;
    if (all_in_runners && i != nexpect) return false;
    if (!all_in_runners && (int)n != nrun) return false;
    p = (struct sco*)&sco_yielders.head; n = 0;
    for (int k = 0; k < 8; k++) {
        if (p->next == (struct sco*)&sco_yielders.tail) break;
        if (i >= nexpect || p->next != expect[i] || p->next->prev != p) return false;
        p = p->next; i++; n++;
    }
    return ((struct sco*)&sco_yielders.tail)->prev == p && n == sco_nyielders && i == nexpect && sco_cur == c;
}
static bool frommain;
// control goes to another context: here the scheduling decision is checked
void vc_llco_switch(struct llco *co, bool final) {
    sw++;
    CHECK(sw == 1, "one switch");
    CHECK(final == (op == 4 || op == 5), "only the end of a coroutine is final");
    // the run order: remaining runners, then yielders
    int nrun = frommain ? nr : nr;
    bool to_main = co == 0;
    int paused_now = np + (op == 2 ? 1 : 0) - (op == 3 && arg == 0 ? 1 : 0);
    if (nrun > 0) {
        CHECK(!to_main, "a coroutine that is due in this round runs before anything else");
    } else if (nexpect == 0) {
        CHECK(to_main, "with nobody to run, control returns to the caller");
    } else if (!frommain && (paused_now > 0 || op == 4)) {
        CHECK(to_main, "after each round, paused coroutines get their chance");
    } else {
        CHECK(!to_main, "somebody runs while there is somebody to run");
    }
    if (to_main) {
        CHECK(lists_ok(NULL, 0, false, 0), "no coroutine is lost on the way to the caller");
        CHECK(!sco_exit_to_main_requested, "an exit request is used up");
    } else {
        CHECK(nexpect > 0 && co == expect[0]->llco, "the coroutine that has waited longest runs next");
        CHECK(lists_ok(expect[0], 1, nrun == 0, nrun - 1), "everybody else keeps their place");
    }
    CHECK(IMP(np > 0 && !(op == 3 && arg == 0), map_has(&T7)) && IMP(np > 1, map_has(&P2)), "paused coroutines stay paused");
    CHECK(IMP(np > 0 && op == 3 && arg == 0, !map_has(&T7)), "a resumed coroutine is not paused any more");
    CHECK(IMP(op == 2, map_has(&T0)), "the pausing coroutine is paused");
    CHECK((int)sco_npaused == paused_now && sco_paused.count == paused_now, "paused coroutines are counted");
    CHECK(sco_info_paused() == sco_npaused && sco_info_scheduled() == sco_nyielders && sco_info_running() == sco_nrunners + (sco_cur ? 1 : 0), "the counters are reported");
    CHECK(sco_active() == (nexpect > 0 || paused_now > 0), "active while anybody is left");
    REACH(to_main, "to the caller");
    REACH(!to_main && nrun == 0, "next round");
    REACH(!to_main && nrun > 0, "same round");
    NORETURN_END();
}
static void (*user_cleanup)(void*, size_t, void*);
static char stk[8];
static int udata;
void vc_llco_start(struct llco_desc *d, bool final) {
    started++;
    CHECK(!final && d->stack == stk && d->stack_size == 4711 && d->udata == &udata && d->cleanup == user_cleanup, "stack, cleanup and argument are passed on");
    d->entry(d->udata);
}
struct llco *vc_llco_current(void) { return (struct llco*)&ll[8]; }
static void entry(void *u) {
    CHECK(u == &udata, "the entry gets its argument");
    CHECK(sco_cur && sco_cur->udata == &udata && sco_udata() == &udata && sco_cur->llco == (struct llco*)&ll[8], "the new coroutine is the current one");
    CHECK(sco_id() == next0 + 1 && sco_id() > 0, "with a new identifier");
    CHECK(lists_ok(sco_cur, 0, false, nr), "the starter runs next in this round, before any that yielded");
    stage = 1;
}
static void user_clean(void *a, size_t b, void *c) { (void)a; (void)b; (void)c; }
static void init(int i, int64_t id) { struct sco *t = TT(i); t->prev = t->next = t; t->id = id; t->llco = (struct llco*)&ll[i]; }
static void vrun(int c) {
    op = dig(&c, 6); cur = dig(&c, 2); nr = dig(&c, NR); ny = dig(&c, NY); np = dig(&c, 3);
    if (op != 3) cur = 1;
    for (int i = 0; i < 8; i++) init(i, 10 + i);
    P2 = T7; P2.id = 99; P2.prev = P2.next = &P2;
    sco_init();
    for (int i = 0; i < nr; i++) { sco_list_push_back(&sco_runners, TT(1+i)); sco_nrunners++; expect[nexpect++] = TT(1+i); }
    for (int i = 0; i < ny; i++) { sco_list_push_back(&sco_yielders, TT(4+i)); sco_nyielders++; expect[nexpect++] = TT(4+i); }
    if (np > 0) { sco_map_insert(&sco_paused, &T7); sco_npaused++; }
    if (np > 1) { sco_map_insert(&sco_paused, &P2); sco_npaused++; }
    next0 = nd_i64(); ASSUME(next0 >= 0 && next0 < INT64_MAX - 2);
    sco_next_id = next0;
    sco_cur = cur ? &T0 : NULL;
    if (op == 1) { expect[nexpect++] = &T0; sco_yield(); }
    else if (op == 2) { sco_pause(); }
    else if (op == 4) { sco_exit(); }
    else if (op == 3) {
        arg = dig(&c, 3);        // 0 a paused one, 1 one that is not paused, 2 "next round" from the caller
        frommain = !cur;
        int64_t id = arg == 0 ? T7.id : arg == 1 ? 12345 : 0;
        if (arg == 0) expect[nexpect++] = &T7;
        if (arg == 0 && cur) expect[nexpect++] = &T0;
        sco_resume(id);
        // back without a switch: only if there was nothing to do, or the caller is not a coroutine
        CHECK(sw == 0 && (arg == 1 || (arg == 0 && !cur) || (arg == 2 && cur)), "returns only if the coroutine goes on");
        CHECK(lists_ok(cur ? &T0 : NULL, 0, false, nr), "the resumed coroutine is scheduled behind the others");
        CHECK(IMP(np > 0 && arg != 0, map_has(&T7)) && IMP(np > 1, map_has(&P2)) && (int)sco_npaused == np - (arg == 0), "only the named coroutine is resumed");
        REACH(arg == 0, "scheduled from the caller");
        REACH(arg == 1, "nothing to do");
    } else if (op == 5 || op == 0) {   // start from a coroutine (5: cur, 0: from the caller)
        if (op == 0) sco_cur = NULL;
        user_cleanup = user_clean;
        struct sco_desc d = { .stack = stk, .stack_size = 4711, .entry = entry, .cleanup = user_cleanup, .udata = &udata };
        if (op == 5) {           // the starter goes behind the runners of this round
            for (int i = nexpect; i > nr; i--) expect[i] = expect[i-1];
            expect[nr] = &T0; nexpect++; nr++;
        }
        if (op == 0) op = 5;
        sco_start(&d);
        CHECK(0, "a finished coroutine does not come back");
    }
}
