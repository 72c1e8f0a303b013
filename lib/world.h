// world.h - the verification environment of one neco coroutine.
//
// The real neco.c is included below, unmodified.  What lies outside a single
// coroutine's own steps is given by executable contracts (stubs):
//   sco_pause/sco_yield/sco_resume/sco_exit : control leaves the coroutine here.
//       Precondition (asserted): the unit's guarantee `unit_leave()`.
//       Effect: the unit's rely step `unit_env()` - everything other coroutines
//       and the scheduler may have done before control comes back.  Where the
//       rely step is the action of a peer, it runs the peer's real code.
//   deadline queue / coroutine map / event map: set contracts of the AA-tree
//       (the tree itself is verified against the same contract in units/aat.c)
//   clock: non-decreasing.
#ifndef WORLD_H
#define WORLD_H
#define NECO_NOAMALGA
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vc.h"
#include "world_headers.h"
struct coroutine;
void vc_coexit(bool async);
int64_t vc_getnow(void);
struct coroutine *vc_dl_insert(struct coroutine **root, struct coroutine *co);
struct coroutine *vc_dl_delete(struct coroutine **root, struct coroutine *co);
struct coroutine *vc_all_search(struct coroutine **root, struct coroutine *key);
struct coroutine *vc_all_insert(struct coroutine **root, struct coroutine *co);
struct coroutine *vc_all_delete(struct coroutine **root, struct coroutine *co);
struct coroutine *vc_ev_insert(struct coroutine **root, struct coroutine *co);
struct coroutine *vc_ev_delete(struct coroutine **root, struct coroutine *co);
struct coroutine *vc_ev_iter(struct coroutine **root, struct coroutine *key);
struct coroutine *vc_ev_next(struct coroutine **root, struct coroutine *key);
struct coroutine *vc_dl_first(struct coroutine **root);
struct coroutine *vc_dl_next(struct coroutine **root, struct coroutine *co);
static int64_t vc_now;

#ifdef WORLD_SYSCALLS
#include WORLD_SYSCALLS
#endif
#include NECO_C

enum { NCO = 3 };
static struct runtime R;
static struct coroutine ME, C0, C1, C2;   // separate objects: cheap aliasing
#define CO(i) ((i) == 0 ? &C0 : (i) == 1 ? &C1 : &C2)

struct ghost {
    int pauses, yields, nres, exits;     // switch points taken by ME
    int64_t res[4];                      // ids passed to sco_resume, in order
    bool in_dl[NCO+1], in_all[NCO+1], in_ev[NCO+1];
    bool left;                           // control has left the coroutine once
    bool exited;
    int peer_exits;
    int peer_switches;                   // switch points taken by a peer
};
static struct ghost G;
static struct coroutine *self_ = &ME;
static struct runtime S0;                // counters on entry

static void unit_leave(int why);      // guarantee at a switch point
static void unit_env(int why);        // rely step
enum { W_PAUSE = 1, W_YIELD = 2, W_RESUME = 3, W_EXIT = 4 };
#ifdef NEVER_LEAVES
static void unit_leave(int why) { (void)why; CHECK(0, "the operation never gives up control"); }
static void unit_env(int why) { (void)why; }
#endif

static int coidx(struct coroutine *co) {
    return co == &ME ? 0 : co == &C0 ? 1 : co == &C1 ? 2 : co == &C2 ? 3 : -1;
}
static struct coroutine *coat(int i) { return i == 0 ? &ME : CO(i-1); }

void *sco_udata(void) { return rt ? self_ : NULL; }
int64_t sco_id(void) { return rt && self_ ? self_->id : 0; }
static void vc_switch(int why) {
    // a peer executed by the rely step: its own continuation is not part of it
    if (self_ != &ME) { G.peer_switches++; return; }
    unit_leave(why);
    G.left = true;
    unit_env(why);
}
void sco_pause(void) { if (self_ == &ME) G.pauses++; vc_switch(W_PAUSE); }
void sco_yield(void) { if (self_ == &ME) G.yields++; vc_switch(W_YIELD); }
#ifdef UNIT_SCHEDULER
// scheduler step: sco_resume() only makes the coroutine runnable, it runs later
static void unit_resume(struct coroutine *co);
void sco_resume(int64_t id) {
    unit_resume(id == ME.id ? &ME : id == C0.id ? &C0 : id == C1.id ? &C1 : id == C2.id ? &C2 : NULL);
}
#else
void sco_resume(int64_t id) {
    if (self_ == &ME) {
        CHECK(G.nres < 4, "sco_resume is called a bounded number of times");
        if (G.nres < 4) G.res[G.nres] = id;
        G.nres++;
    }
    vc_switch(W_RESUME);
}
#endif
void sco_exit(void) {
    G.exits++;
    G.exited = true;
    if (self_ == &ME) unit_leave(W_EXIT);
    NORETURN_END();
}
// contract of coexit() as seen by its callers: control never returns.
// (coexit itself is verified in units/exit.c)
void vc_coexit(bool async) {
    if (self_ != &ME && !async) { G.peer_exits++; return; }
    G.exited = true;
    if (self_ == &ME) unit_leave(W_EXIT);
    NORETURN_END();
}

// contract of getnow(): the monotonic clock (units/time.c verifies it)
int64_t vc_getnow(void) {
    int64_t t = nd_i64();
    ASSUME(t >= vc_now && t < INT64_C(1) << 62);
    vc_now = t;
    return t;
}

/* AA-tree set contracts */
struct coroutine *vc_dl_insert(struct coroutine **root, struct coroutine *co) {
    (void)root;
    int i = coidx(co);
    CHECK(i >= 0, "only a known coroutine enters the deadline queue");
    CHECK(i < 0 || !G.in_dl[i], "a coroutine enters the deadline queue at most once");
    if (i >= 0) G.in_dl[i] = true;
    return NULL;
}
struct coroutine *vc_dl_delete(struct coroutine **root, struct coroutine *co) {
    (void)root;
    int i = coidx(co);
    CHECK(i >= 0 && G.in_dl[i], "deleting from the deadline queue finds the coroutine");
    if (i >= 0) G.in_dl[i] = false;
    return co;
}
// deadline queue in order of (deadline, id); the coroutine left out is `after`
static struct coroutine *vc_dl_min(struct coroutine *after) {
    struct coroutine *best = NULL;
    for (int i = 0; i <= NCO; i++) {
        struct coroutine *c = coat(i);
        if (!G.in_dl[i] || (after && dl_compare(c, after) <= 0)) continue;
        if (!best || dl_compare(c, best) < 0) best = c;
    }
    return best;
}
struct coroutine *vc_dl_first(struct coroutine **root) { (void)root; return vc_dl_min(NULL); }
struct coroutine *vc_dl_next(struct coroutine **root, struct coroutine *co) { (void)root; return vc_dl_min(co); }
struct coroutine *vc_ev_next(struct coroutine **root, struct coroutine *key) {
    (void)root;
    struct coroutine *best = NULL;
    for (int i = 0; i <= NCO; i++) {
        struct coroutine *c = coat(i);
        if (G.in_ev[i] && evcompare(key, c) < 0 && (!best || evcompare(c, best) < 0)) best = c;
    }
    return best;
}
struct coroutine *vc_all_search(struct coroutine **root, struct coroutine *key) {
    (void)root;
    if (G.in_all[0] && ME.id == key->id) return &ME;
    if (G.in_all[1] && C0.id == key->id) return &C0;
    if (G.in_all[2] && C1.id == key->id) return &C1;
    if (G.in_all[3] && C2.id == key->id) return &C2;
    return NULL;
}
struct coroutine *vc_all_insert(struct coroutine **root, struct coroutine *co) {
    (void)root;
    int i = coidx(co);
    CHECK(i >= 0 && !G.in_all[i], "a coroutine is entered in the map once");
    if (i >= 0) G.in_all[i] = true;
    return NULL;
}
struct coroutine *vc_all_delete(struct coroutine **root, struct coroutine *co) {
    (void)root;
    int i = coidx(co);
    CHECK(i >= 0 && G.in_all[i], "the coroutine leaving the map is in the map");
    if (i >= 0) G.in_all[i] = false;
    return co;
}
struct coroutine *vc_ev_insert(struct coroutine **root, struct coroutine *co) {
    (void)root;
    int i = coidx(co);
    CHECK(i >= 0 && !G.in_ev[i], "a coroutine waits for one event at a time");
    if (i >= 0) G.in_ev[i] = true;
    return NULL;
}
struct coroutine *vc_ev_delete(struct coroutine **root, struct coroutine *co) {
    (void)root;
    int i = coidx(co);
    CHECK(i >= 0 && G.in_ev[i], "the coroutine leaving the event map is in it");
    if (i >= 0) G.in_ev[i] = false;
    return co;
}
// evmap_iter: first waiter with key >= (fd,kind); ties broken by id
struct coroutine *vc_ev_iter(struct coroutine **root, struct coroutine *key) {
    (void)root;
    struct coroutine *best = NULL;
    for (int i = 0; i <= NCO; i++) {
        struct coroutine *c = coat(i);
        if (G.in_ev[i] && evcompare(key, c) <= 0 &&
            (!best || evcompare(c, best) < 0)) best = c;
    }
    return best;
}

static __attribute__((unused)) int nd_count(void) {
    int n = nd_int(); ASSUME(n >= 0 && n < 1000000); return n;
}

static void co_init(struct coroutine *co, int64_t id) {
    co->prev = co->next = co;
    co->kind = COROUTINE;
    co->id = id;
    colist_init(&co->cancellist);
    colist_init(&co->joinlist);
    co->canceltype = NECO_CANCEL_INLINE;
    co->cancelstate = NECO_CANCEL_ENABLE;
    // what the operations must not depend on
    co->starterid = nd_i64(); co->lastid = nd_i64(); co->pool_ts = nd_i64();
    co->argc = nd_int(); co->evfd = nd_int();
}
static int64_t id0;

static void world_init(void) {
    vc_now = nd_i64();
    ASSUME(vc_now >= 0 && vc_now < INT64_C(1) << 50);
    rt = &R;
    R.id = 7;                 // opaque; another runtime is 9
    R.nsleepers = nd_count(); R.nlocked = nd_count();
    R.nreceivers = nd_count(); R.nsenders = nd_count();
    R.nwaitgroupers = nd_count(); R.ncondwaiters = nd_count();
    R.nsuspended = nd_count(); R.ndeadlines = nd_count();
    R.nevwaiters = nd_count(); R.nsigwaiters = nd_count();
    R.niowaiters = nd_count(); R.all.count = nd_count() + NCO + 1;
    S0.nsleepers = R.nsleepers; S0.nlocked = R.nlocked;
    S0.nreceivers = R.nreceivers; S0.nsenders = R.nsenders;
    S0.nwaitgroupers = R.nwaitgroupers; S0.ncondwaiters = R.ncondwaiters;
    S0.nsuspended = R.nsuspended; S0.ndeadlines = R.ndeadlines;
    S0.nevwaiters = R.nevwaiters; S0.nsigwaiters = R.nsigwaiters;
    S0.niowaiters = R.niowaiters; S0.all.count = R.all.count;
    colist_init(&R.sigwaiters);
    colist_init(&R.pool);
    colist_init(&R.resumers);
    colist_init(&R.iolist);
    R.nresumers = 0;
    id0 = 100;                // identifiers are opaque
    co_init(&ME, id0);
    co_init(&C0, id0 + 1);
    co_init(&C1, id0 + 2);
    co_init(&C2, id0 + 3);
    C0.deadline = nd_i64(); C1.deadline = nd_i64(); C2.deadline = nd_i64();
    lasterr = nd_int();
}
// one blocking operation is counted while blocked, and never afterwards
static __attribute__((unused)) bool stats_same(void) {
    return R.nsleepers == S0.nsleepers && R.nlocked == S0.nlocked &&
    R.nreceivers == S0.nreceivers && R.nsenders == S0.nsenders &&
    R.nwaitgroupers == S0.nwaitgroupers && R.ncondwaiters == S0.ncondwaiters &&
    R.nsuspended == S0.nsuspended && R.ndeadlines == S0.ndeadlines &&
    R.nevwaiters == S0.nevwaiters && R.nsigwaiters == S0.nsigwaiters &&
    R.niowaiters == S0.niowaiters && R.all.count == S0.all.count;
}

// ---- list specification helpers (walks over the known nodes) ----
static __attribute__((unused)) int list_len(struct colist *l) {
    int n = 0;
    struct coroutine *c = l->head.next;
    for (int i = 0; i < NCO+1; i++) {
        if (c == (void*)&l->tail) break;
        n++;
        c = c->next;
    }
    return n;
}
static __attribute__((unused)) struct coroutine *list_at(struct colist *l, int k) {
    struct coroutine *c = l->head.next;
    for (int i = 0; i < NCO+1; i++) {
        if (c == (void*)&l->tail) return NULL;
        if (i == k) return c;
        c = c->next;
    }
    return NULL;
}
// the list holds exactly the given nodes in this order (NULL ends), consistently
// linked in both directions
static __attribute__((unused)) bool list_is(struct colist *l, struct coroutine *a,
    struct coroutine *b, struct coroutine *c, struct coroutine *d)
{
    struct coroutine *e[4] = { a, b, c, d };
    struct coroutine *p = (void*)&l->head;
    struct coroutine *t = (void*)&l->tail;
    for (int i = 0; i < 4 && e[i]; i++) {
        if (p->next != e[i] || e[i]->prev != p) return false;
        p = e[i];
    }
    return p->next == t && t->prev == p;
}
static __attribute__((unused)) bool detached(struct coroutine *co) {
    return co->next == co && co->prev == co;
}
// the coroutine left no trace of a wait behind
static __attribute__((unused)) bool no_trace(void) {
    return detached(&ME) && !ME.deadlined && !ME.paused && !ME.rlocked &&
        !ME.suspended && !G.in_dl[0] && !G.in_ev[0] && stats_same();
}
#endif
