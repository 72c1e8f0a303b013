// Contracts of the channel's memory: make, retain, release, the pool of empty
// channels, the ring arithmetic for all sizes; and of the generator calls.
#define NEVER_LEAVES
#include "world.h"
static struct { struct neco_chan c; char more[8]; } A, B;
static int nalloc, nfreeA, nfreeB, nfreePool, nrealloc; static size_t asize, rsize; static bool fail;
static struct neco_chan *OLD[256], *NEW[256];
void *vc_malloc(size_t n) { nalloc++; asize = n; return fail ? NULL : &A.c; }
void vc_free(void *p) {
    CHECK(p == &A.c || p == &B.c || p == OLD || p == NEW, "only own memory is freed");
    if (p == &A.c) nfreeA++; else if (p == &B.c) nfreeB++; else nfreePool++;
}
void *vc_realloc(void *p, size_t n) {
    nrealloc++; rsize = n;
    CHECK(p == R.zchanpool, "the pool grows");
    if (fail) return NULL;
    for (int i = 0; i < 256; i++) if (i < R.zchanpoolcap) NEW[i] = OLD[i];
    return NEW;
}
static void havoc_chan(struct neco_chan *c) {
    c->rtid = nd_i64(); c->rc = nd_int(); c->sclosed = nd_bool(); c->rclosed = nd_bool(); c->qrecv = nd_bool(); c->lok = nd_bool();
    c->msgsize = nd_int(); c->bufcap = nd_int(); c->buflen = nd_int(); c->bufpos = nd_int();
}
static int pk; // which pool entry is watched
static void pool_init(int capk) {
    static const int caps[] = { 0, 16, 32, 64, 128, 256 };
    R.zchanpoolcap = caps[capk];
    R.zchanpool = capk ? OLD : NULL;
    R.zchanpoollen = nd_int(); ASSUME(R.zchanpoollen >= 0 && R.zchanpoollen <= R.zchanpoolcap);
    for (int i = 0; i < 256; i++) OLD[i] = &B.c;
}

// one of two factors is picked from a set (products of two unknowns are out of the solver's reach)
static __attribute__((unused)) size_t pick(int k) {
    static const size_t v[] = { 0, 1, 2, 3, 4, 5, 8, 16, 48, 256, 1 << 10, 4096, 3 << 14, 1 << 16, 1 << 20, 1 << 30 };
    return v[k];
}
#if defined(U_MAKE) || defined(U_ROOM)
static void vrun(int c) {
    world_init();
    int form = dig(&c, 3), pool = dig(&c, 2); fail = dig(&c, 2);
    pool_init(pool ? 1 : 0);
    if (pool) ASSUME(R.zchanpoollen > 0);
    havoc_chan(&A.c); havoc_chan(&B.c);
    size_t msz = nd_size(), cap = nd_size();
    if (form == 1) ASSUME(msz == 0 || cap == 0);
#ifdef U_ROOM
    if (dig(&c, 2)) msz = pick(dig(&c, 16)); else cap = pick(dig(&c, 16));
#endif
    int len0 = R.zchanpoollen;
    struct neco_chan *ch = (void*)&ch;
    int r;
    if (form == 2) {          // for a generator
        ASSUME(msz <= INT_MAX);
        ch = chan_fastmake(msz, 0, true); cap = 0;
        r = ch ? NECO_OK : NECO_NOMEM;
    } else r = neco_chan_make(&ch, msz, cap);
    bool ok = msz <= INT_MAX && cap <= INT_MAX;
    CHECK((r == NECO_INVAL) == !ok && IMP(!ok, nalloc == 0), "sizes out of range are refused");
    CHECK(r == NECO_OK || r == NECO_INVAL || (r == NECO_NOMEM && fail && nalloc == 1 && !ch), "the result of a make");
    CHECK(IMP(ok && nalloc && fail, r == NECO_NOMEM), "without memory there is no channel");
    CHECK(form == 2 || lasterr == (r < 0 ? r : 0), "the error is recorded");
    CHECK(R.zchanpoollen == len0 - (r == NECO_OK && nalloc == 0), "a pooled channel is taken out of the pool");
    if (r == NECO_OK) {
        CHECK(ch == (nalloc ? &A.c : &B.c), "the channel is new");
#ifdef U_ROOM
        if (nalloc) CHECK(asize >= sizeof(struct neco_chan) && asize - sizeof(struct neco_chan) >= (form == 2 ? 0 : msz * (cap + 1)), "there is room for every message");
#endif
        if (!nalloc) CHECK(msz == 0 || form == 2, "a pooled channel has no room for messages");
        CHECK(ch->rtid == R.id && ch->rc == 0 && !ch->sclosed && !ch->rclosed && ch->buflen == 0 && ch->bufpos == 0, "a new channel is open and empty");
        CHECK(ch->msgsize == (int)msz && ch->bufcap == (int)cap && colist_is_empty(&ch->queue), "and has the given sizes");
    }
    CHECK(nfreeA + nfreeB + nfreePool == 0 && no_trace(), "nothing else changes");
#ifndef U_ROOM
    REACH(r == NECO_OK && !nalloc, "pooled"); REACH(r == NECO_NOMEM, "no memory");
#endif
    REACH(r == NECO_OK && nalloc && msz > 1 && cap > 1, "allocated"); REACH(!ok, "too large");
}
#endif

#ifdef U_RELEASE
static void vrun(int c) {
    world_init();
    int op = dig(&c, 4), bad = dig(&c, 3), capk = dig(&c, 6); fail = dig(&c, 2);
    pool_init(capk);
    havoc_chan(&A.c);
    struct neco_chan *ch = &A.c;
    A.c.rtid = bad == 2 ? 9 : R.id;
    A.c.msgsize = nd_int(); ASSUME(A.c.msgsize >= 0);
    colist_init(&A.c.queue);
    ASSUME(A.c.rc >= 0 && A.c.rc < INT_MAX);
    if (bad == 1) ch = NULL;
    int rc0 = A.c.rc, len0 = R.zchanpoollen, cap0 = R.zchanpoolcap; bool z = A.c.msgsize == 0;
    int k = nd_int(); ASSUME(k >= 0 && k < 256 && k < len0); // a watched entry
    if (len0 == 0) k = -1;
    int r = op == 0 ? neco_chan_retain(ch) : op == 1 ? neco_chan_release(ch) : op == 2 ? neco_gen_retain((neco_gen*)ch) : neco_gen_release((neco_gen*)ch);
    CHECK(r == (bad == 1 ? NECO_INVAL : bad == 2 ? NECO_PERM : NECO_OK), "the result");
    CHECK(lasterr == (r < 0 ? r : 0), "the error is recorded");
    bool rel = op & 1;
    bool last = r == NECO_OK && rel && rc0 == 0;
    if (!last) {
        CHECK(A.c.rc == rc0 + (r != NECO_OK ? 0 : rel ? -1 : 1) && nfreeA == 0 && R.zchanpoollen == len0 && nrealloc == 0, "references are counted, and the channel lives as long as there is one");
    } else {
        bool pooled = R.zchanpoollen == len0 + 1;
        CHECK(R.zchanpoollen == len0 || pooled, "at most once into the pool");
        CHECK((nfreeA == 1) != pooled && nfreeA <= 1, "the last release frees the memory or pools it");
        CHECK(IMP(!z, nfreeA == 1), "a channel with room for messages is not pooled");
        CHECK(IMP(pooled, R.zchanpool[len0] == &A.c), "the pool has it");
        CHECK(R.zchanpoollen <= R.zchanpoolcap && R.zchanpoolcap <= 256, "the pool is limited");
        CHECK(IMP(R.zchanpoolcap != cap0, R.zchanpool == NEW && rsize >= (size_t)R.zchanpoolcap * sizeof(void*)), "and has the memory it needs");
        CHECK(IMP(R.zchanpoolcap == cap0, R.zchanpool == (capk ? OLD : NULL)), "a pool that cannot grow stays");
    }
    CHECK(nfreeB == 0 && nfreePool == 0 && IMP(k >= 0, R.zchanpool[k] == &B.c) && no_trace(), "nothing else changes");
    REACH(nfreeA, "freed"); REACH(last && !nfreeA, "pooled"); REACH(r == NECO_OK && !last && rel, "still referenced");
}
#endif

#ifdef U_FREEPOOL
static void vrun(int c) {
    world_init();
    int n = dig(&c, 4);
    for (int i = 0; i < n; i++) OLD[i] = i == 1 ? &A.c : &B.c;
    R.zchanpool = n ? OLD : NULL; R.zchanpoollen = n > 2 ? 2 : n; R.zchanpoolcap = 16;
    if (n == 3) R.zchanpoollen = 0;
    n = R.zchanpoollen; bool have = R.zchanpool != NULL;
    rt_freezchanpool();
    CHECK(nfreeB == (n > 0) && nfreeA == (n > 1) && nfreePool == have, "a pool is given back with its channels");
}
#endif

#ifdef U_RING
// The ring for every capacity, message size and position: memcpy() is replaced
// by a recorder, so that addresses and sizes are judged, not contents.
static const void *msrc; static void *mdst; static size_t mn; static int ncpy, nslot, slot;
void *vc_memcpy(void *d, const void *s, size_t n) { ncpy++; mdst = d; msrc = s; mn = n; return d; }
char *vc_slot(struct neco_chan *ch, int i) { nslot++; slot = i; CHECK(ch == &A.c, "the channel"); return A.c.data + i; }
static char data;
static void vrun(int c) {
    world_init();
    int op = dig(&c, 3);
    A.c.msgsize = nd_int(); A.c.bufcap = nd_int(); A.c.buflen = nd_int(); A.c.bufpos = nd_int();
    int ms = A.c.msgsize, cap = A.c.bufcap, len = A.c.buflen, pos = A.c.bufpos;
    ASSUME(ms >= 0 && cap >= 0 && len >= 0 && len <= cap && pos >= 0 && (pos < cap || pos == 0));
    if (op == 0) {
        ASSUME(len < cap);
        cbuf_push(&A.c, &data);
        int64_t want = ((int64_t)pos + len) % cap;
        CHECK(A.c.buflen == len + 1 && A.c.bufpos == pos, "one more message");
        CHECK(IMP(ms > 0, ncpy == 1 && msrc == &data && mn == (size_t)ms && nslot == 1 && (int64_t)slot == want && mdst == A.c.data + slot), "stored behind the last one");
    } else if (op == 1) {
        ASSUME(len > 0);
        cbuf_pop(&A.c, &data);
        CHECK(A.c.buflen == len - 1 && A.c.bufpos == (pos + INT64_C(1) == cap ? 0 : pos + 1), "one message less");
        CHECK(IMP(ms > 0, ncpy == 1 && mdst == &data && mn == (size_t)ms && nslot == 1 && slot == pos && msrc == A.c.data + slot), "the first one is taken");
    }
    if (op < 2) {
        CHECK(IMP(ms == 0, ncpy == 0 || mn == 0), "nothing is copied for empty messages");
        CHECK(nslot == 0 || (slot >= 0 && slot < cap), "inside the ring");
        CHECK(A.c.bufcap == cap && A.c.msgsize == ms, "the sizes stay");
        CHECK(A.c.bufpos >= 0 && (A.c.bufpos < cap || A.c.bufpos == 0) && A.c.buflen >= 0 && A.c.buflen <= cap, "the ring stays valid");
    }
    REACH(slot > 5, "stored");
}
#endif
#ifdef U_SLOT
// the slots do not overlap and lie inside the memory that neco_chan_make asked for
static void vrun(int c) {
    world_init();
    int i = nd_int(); int cap = nd_int(); A.c.msgsize = nd_int(); A.c.bufcap = cap;
    ASSUME(A.c.msgsize >= 0 && i >= 0 && cap >= 0 && i <= cap);
    // (memory is limited by the address space; a pointer of the verifier has 56 bits)
    ASSUME(i < 1 << 22);
    if (dig(&c, 2)) A.c.msgsize = (int)pick(dig(&c, 16)); else i = (int)pick(dig(&c, 15));
    ASSUME(i <= cap);
    char *p = cbufslot(&A.c, i);
    CHECK((uintptr_t)p - (uintptr_t)A.c.data == (size_t)A.c.msgsize * (size_t)i, "the slot of a message");
    REACH(i > 1 && A.c.msgsize > 1, "slot");
}
#endif

#ifdef U_GEN
// generators: every call is the channel operation on the generator's channel
static int nsend, nrecv, nclose, nret_; static void *sch, *sdata; static int64_t sdl; static int sret;
int vc_send(struct neco_chan *ch, void *d, int64_t dl) { nsend++; sch = ch; sdata = d; sdl = dl; sret = nd_int(); return sret; }
int vc_recv_(struct neco_chan *ch, void *d, int64_t dl) { nrecv++; sch = ch; sdata = d; sdl = dl; sret = nd_int(); return sret; }
int vc_close(struct neco_chan *ch) { nclose++; sch = ch; sret = nd_int(); return sret; }
static void vrun(int c) {
    world_init();
    int op = dig(&c, 5), where = dig(&c, 3);
    char d; int64_t dl = nd_i64();
    struct neco_chan *ch = &A.c;
    ME.gen = where == 0 ? ch : NULL;
    C0.gen = &B.c;
    if (where == 2) rt = NULL;
    int r = op == 0 ? neco_gen_yield_dl(&d, dl) : op == 1 ? neco_gen_yield(&d) : op == 2 ? neco_gen_next_dl((neco_gen*)ch, &d, dl) :
            op == 3 ? neco_gen_next((neco_gen*)ch, &d) : neco_gen_close((neco_gen*)ch);
    if (op < 2 && where) {
        CHECK(r == (where == 2 ? NECO_PERM : NECO_NOTGENERATOR) && lasterr == r && nsend == 0, "only a generator yields values");
    } else {
        CHECK(nsend == (op < 2) && nrecv == (op == 2 || op == 3) && nclose == (op == 4), "one channel operation");
        CHECK(sch == ch && r == sret, "on the generator's own channel, with its result");
        CHECK(op == 4 || (sdata == &d && sdl == (op == 1 || op == 3 ? INT64_MAX : dl)), "with the same value and deadline");
    }
    if (rt) CHECK(no_trace(), "nothing else changes");
    REACH(nsend, "yield"); REACH(nclose, "close");
}
#endif
