// chan.h - abstract state of a channel and the shapes it is verified in.
// Abstract state: the sequence of messages sent but not yet received (buffer
// first, then the blocked senders in queue order), the waiting receivers in
// queue order, and whether it is closed.
#include "world.h"
#ifndef MSZ
#define MSZ 2
#endif
enum { GUARD = 2, MAXP = 5 };
static struct { struct neco_chan c; char ring[MSZ*4+8]; } CB;
#define CH (&CB.c)
static unsigned char mbuf[4][MSZ+GUARD];   // message/data buffers of ME, C0..C2
static unsigned char S[MAXP][MSZ];         // pending messages on entry
static int Sn;                             // how many
static int Wn;                             // waiting receivers on entry
static struct coroutine *Wq[3];            // their queue nodes
static struct coroutine *Wc[3];            // the coroutines behind the nodes
static int Wk[3];                          // 0 plain, 1 select, 2 stale select
static struct coselectcase SC[3];
static int RI[3];
static struct { int cap, len, pos, q, n, scl; } sh;
static bool canceled_in;
enum { NONE = 0, SENDERS = 1, RECEIVERS = 2 };

// pending message k of the present state, byte b
static int pend_count(void) {
    return CH->buflen + (CH->qrecv ? 0 : list_len(&CH->queue));
}
static unsigned char pend(int k, int b) {
    if (k < CH->buflen) {
        int i = CH->bufpos + k;
        if (i >= CH->bufcap) i -= CH->bufcap;
        return (unsigned char)CB.ring[i*MSZ + b];
    }
    struct coroutine *co = list_at(&CH->queue, k - CH->buflen);
    return co && co->cmsg ? ((unsigned char*)co->cmsg)[b] : 0;
}
// the pending messages are S[from..Sn) followed by `extra` (if not null)
static bool pend_is(int from, unsigned char *extra) {
    int n = Sn - from + (extra ? 1 : 0);
    if (pend_count() != n) return false;
    bool ok = true;
    for (int k = 0; k < MAXP; k++) {
        if (k >= n) break;
        for (int b = 0; b < MSZ; b++)
            ok = ok && pend(k, b) == (from + k < Sn ? S[from+k][b] : extra[b]);
    }
    return ok;
}
static bool chan_inv(void) {
    return CH->buflen >= 0 && CH->buflen <= CH->bufcap &&
        CH->bufpos >= 0 && (CH->bufpos < CH->bufcap || CH->bufpos == 0) &&
        CH->bufcap == sh.cap && CH->msgsize == MSZ && CH->rtid == R.id &&
        CH->rc == 0 &&
        IMP(!CH->qrecv && CH->queue.head.next != (void*)&CH->queue.tail, CH->buflen == CH->bufcap) &&
        IMP(CH->rclosed, CH->sclosed && pend_count() == 0) &&
        IMP(CH->sclosed && pend_count() == 0, CH->rclosed) &&
        IMP(CH->sclosed && CH->qrecv, CH->queue.head.next == (void*)&CH->queue.tail);
}
static bool guards_ok(void) {
    bool ok = true;
    for (int i = 0; i < 4; i++)
        for (int g = 0; g < GUARD; g++) ok = ok && mbuf[i][MSZ+g] == 0xA5;
    for (int g = 0; g < 4; g++) ok = ok && CB.ring[MSZ*(sh.cap+1)+g] == 0x5A;
    return ok;
}
static unsigned char me0[MSZ+1];
static bool mydata_same(void) {
    bool ok = true;
    for (int b = 0; b < MSZ; b++) ok = ok && mbuf[0][b] == me0[b];
    return ok;
}
static bool is_msg(unsigned char *p, unsigned char *m) {
    bool ok = true;
    for (int b = 0; b < MSZ; b++) ok = ok && p[b] == m[b];
    return ok;
}
static bool receivers_are(int from, struct coroutine *extra) {
    struct coroutine *e[5] = { 0 };
    int m = 0;
    for (int i = 0; i < 3; i++) if (i >= from && i < Wn) e[m++] = Wq[i];
    if (extra) e[m++] = extra;
    return list_is(&CH->queue, e[0], e[1], e[2], e[3]);
}

static void chan_setup(int *c) {
    world_init();
    sh.cap = dig(c, 3); sh.len = dig(c, 3); sh.pos = dig(c, 2);
    sh.q = dig(c, 3); sh.n = dig(c, 3); sh.scl = dig(c, 2);
    CH->rtid = R.id;
    CH->msgsize = MSZ;
    CH->bufcap = sh.cap; CH->buflen = sh.len; CH->bufpos = sh.pos;
    colist_init(&CH->queue);
    for (int g = 0; g < 4; g++) CB.ring[MSZ*(sh.cap+1)+g] = 0x5A;
    for (int i = 0; i < 4; i++) {
        for (int b = 0; b < MSZ; b++) mbuf[i][b] = nd_u8();
        for (int g = 0; g < GUARD; g++) mbuf[i][MSZ+g] = 0xA5;
    }
    for (int b = 0; b < MSZ; b++) me0[b] = mbuf[0][b];
    for (int k = 0; k < sh.len; k++) {
        int i = sh.pos + k;
        if (i >= sh.cap) i -= sh.cap;
        for (int b = 0; b < MSZ; b++) {
            S[Sn][b] = nd_u8();
            CB.ring[i*MSZ + b] = (char)S[Sn][b];
        }
        Sn++;
    }
    CH->qrecv = sh.q == RECEIVERS;
    if (sh.q == NONE && !sh.scl && sh.len == 0) CH->qrecv = nd_bool();
    for (int j = 0; j < sh.n; j++) {
        struct coroutine *co = CO(j);
        co->paused = true;
        if (sh.q == SENDERS) {
            for (int b = 0; b < MSZ; b++) S[Sn][b] = mbuf[1+j][b];
            Sn++;
            co->cmsg = (char*)mbuf[1+j];
            colist_push_back(&CH->queue, co);
        } else {
            // plain receiver, select-case, or select-case already served
            int k = dig(c, 3);
            Wk[Wn] = k; Wc[Wn] = co;
            if (k == 0) {
                co->cmsg = (char*)mbuf[1+j];
                Wq[Wn] = co;
            } else {
                RI[j] = k == 1 ? -1 : 5;
                SC[j] = (struct coselectcase){ .kind = SELECTCASE, .chan = CH, .co = co,
                    .data = CB.ring + MSZ*sh.cap, .ok = &CH->lok, .idx = 3, .ret_idx = &RI[j] };
                SC[j].next = SC[j].prev = (struct coroutine*)&SC[j];
                Wq[Wn] = (struct coroutine*)&SC[j];
            }
            colist_push_back(&CH->queue, Wq[Wn]);
            Wn++;
        }
    }
    CH->sclosed = sh.scl;
    CH->rclosed = sh.scl && Sn == 0;
    ME.canceled = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    ME.granted = nd_bool(); ME.cclosed = nd_bool();   // stale values
    canceled_in = ME.canceled;
}
static __attribute__((unused)) bool chan_same(void) {
    return pend_is(0, 0) && IMP(sh.q == RECEIVERS, receivers_are(0, 0)) &&
        CH->sclosed == sh.scl && CH->rclosed == (sh.scl && Sn == 0);
}
// other coroutines used the channel in between
static __attribute__((unused)) void chan_scramble(void) {
    colist_init(&CH->queue);
    CH->buflen = 0; CH->qrecv = true;
    CH->sclosed = CH->rclosed = nd_bool();
    for (int b = 0; b < MSZ*(sh.cap+1); b++) CB.ring[b] = nd_u8();
}
