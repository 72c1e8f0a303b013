// gap.h - queues of any length.
//
// GAP stands for any number of list nodes that are not spelled out.  Its address
// belongs to an object too small to be read or written as a node, so the
// verifier rejects every access to a node inside the gap: an operation verified
// on  [A, B, GAP, C]  neither reads nor writes the nodes in between, and its
// contract therefore holds for every length of the gap.  Together with the short
// queues that are spelled out, that is every length.
//
// A loop that takes waiters from such a queue until some condition holds is cut
// at the call that takes the next one (colist_pop_front): there, INV requires the
// loop invariant for the state so far, the state is replaced by any state that
// satisfies the invariant, and when the next call comes INV requires it again.
// INV and GAP obligations that fail mean that the argument for all lengths does
// not apply to this tree (jobs with lift=True: NOT-LIFTED); the bounded jobs over
// the same functions decide then.
#ifndef GAP_H
#define GAP_H
static char gap_;
#define GAP ((struct coroutine*)&gap_)
static struct coroutine XR;              // last of the coroutines already resumed
#ifndef REPLAY
#define INV(t, c) __CPROVER_assert(c, "INV " t)
#else
#define INV(t, c) CHECK(c, t)
#endif
enum { NSEQ = 8 };
#define LINK(l, ...) link_(l, (struct coroutine*[NSEQ]){ __VA_ARGS__ })
#define HAS(l, ...) has_(l, (struct coroutine*[NSEQ]){ __VA_ARGS__ })
static __attribute__((unused)) void link_(struct colist *l, struct coroutine **e) {
    struct coroutine *p = (void*)&l->head, *t = (void*)&l->tail;
    for (int i = 0; i < NSEQ && e[i]; i++) {
        if (p != GAP) p->next = e[i];
        if (e[i] != GAP) e[i]->prev = p;
        p = e[i];
    }
    if (p != GAP) p->next = t;
    t->prev = p;
}
static __attribute__((unused)) bool has_(struct colist *l, struct coroutine **e) {
    struct coroutine *p = (void*)&l->head, *t = (void*)&l->tail;
    for (int i = 0; i < NSEQ && e[i]; i++) {
        if (p != GAP && p->next != e[i]) return false;
        if (e[i] != GAP && e[i]->prev != p) return false;
        p = e[i];
    }
    return (p == GAP || p->next == t) && t->prev == p;
}
// ---- the cut ----
static struct colist *cutq; static int cutat, npop;
static void cut_havoc(void);             // INV for the state so far, then any state
static void cut_inv(void);               // INV for the state after the iteration
struct coroutine *vc_pop(struct colist *l) {
    if (l == cutq) {
        npop++;
        if (npop == cutat) cut_havoc();
        else if (npop == cutat + 1 && l->head.next != (void*)&l->tail) { cut_inv(); ASSUME(0); }
    }
    struct coroutine *co = l->head.next;
    if (co == (void*)&l->tail) return NULL;
    co->prev->next = co->next; co->next->prev = co->prev; co->next = co->prev = co;
    return co;
}
#endif
