// Contracts of sending, receiving, broadcasting on and closing a channel.
#if defined(U_TRYRECV)
#define TRY 1
#else
#define TRY 0
#endif
#include "chan.h"

static int es;                   // shape of the rely step
static int64_t dl0;
static bool env_done, granted, canc, deadl;   // what happened while waiting
static int outcome;              // result a served waiter must return
static unsigned char expect[MSZ+1];

static void events(void) {
    deadl = nd_bool() && dl0 < INT64_MAX; canc = nd_bool();
    ASSUME(granted || deadl || canc);
    if (deadl) ME.deadlined = true;
    if (canc) ME.canceled = true;
}

#if defined(U_RECV) || defined(U_TRYRECV)
static bool got(void) {   // the first pending message was taken by ME
    return is_msg(mbuf[0], S[0]) && pend_is(1, 0);
}
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && lasterr == NECO_CANCELED && (canceled_in || canc),
            "only an asynchronously canceled coroutine is ended by the operation");
        CHECK(mydata_same() && IMP(!env_done, chan_same()), "a canceled receive takes nothing");
        CHECK(no_trace() && chan_inv(), "a coroutine ended by a cancel leaves no trace");
        return;
    }
    if (why == W_RESUME) {
        CHECK(got() && chan_inv() && guards_ok(), "the first message was received and the others kept in order before control leaves");
        CHECK(sh.q == SENDERS && G.nres == 1 && G.res[0] == C0.id, "the first waiting sender is woken");
        CHECK(detached(&C0), "the woken sender no longer waits");
        return;
    }
    CHECK(why == W_PAUSE && !TRY, "blocks only by pausing, and only if it may");
    CHECK(Sn == 0, "a receive does not block while messages are pending");
    CHECK(!sh.scl, "a receive does not block on a closed channel");
    CHECK(CH->qrecv && receivers_are(0, &ME), "the receiver queues behind earlier receivers");
    CHECK(pend_count() == 0 && chan_inv(), "no message appears");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
    CHECK(R.nreceivers == S0.nreceivers + 1, "one more receiver is reported");
}
static void unit_env(int why) {
    env_done = true;
    if (why == W_RESUME) { chan_scramble(); return; }
    ASSUME(G.pauses <= 1);
    int before = dig(&es, 2), action = dig(&es, 4), popped = dig(&es, 2);
    colist_init(&CH->queue);
    ME.next = ME.prev = &ME;
    C0.next = C0.prev = &C0;
    CH->qrecv = true; CH->buflen = 0; CH->sclosed = CH->rclosed = false;
    if (before) { C0.cmsg = (char*)mbuf[1]; colist_push_back(&CH->queue, &C0); }
    colist_push_back(&CH->queue, &ME);
    self_ = &C2;
    outcome = NECO_OK;
    if (action == 1) {         // a message is sent
        int r = neco_chan_send(CH, mbuf[3]);
        CHECK(r == NECO_OK, "a message is accepted while a receiver waits");
        granted = !before;
    } else if (action == 2) {  // a message is broadcast
        int r = neco_chan_broadcast(CH, mbuf[3]);
        CHECK(r == 1 + before, "a broadcast counts every receiver");
        granted = true;
    } else if (action == 3) {  // the channel is closed
        int r = neco_chan_close(CH);
        CHECK(r == NECO_OK, "the channel is closed");
        granted = true;
        outcome = NECO_CLOSED;
    }
    self_ = &ME;
    for (int b = 0; b < MSZ; b++) expect[b] = outcome == NECO_CLOSED ? 0 : mbuf[3][b];
    if (granted && popped) remove_from_list(&ME);   // the scheduler resumed it
    events();
}
#if TRY
#define FN neco_chan_tryrecv
CONTRACT(int, FN, struct neco_chan *chan, void *data)
#else
#define FN neco_chan_recv_dl
CONTRACT(int, FN, struct neco_chan *chan, void *data, int64_t deadline)
#endif
ENS("a drained closed channel reports CLOSED", IMP(sh.scl && Sn == 0, RET == NECO_CLOSED && mydata_same() && chan_same()))
ENS("a pending cancel is reported and takes nothing", IMP(canceled_in && !(sh.scl && Sn == 0), RET == NECO_CANCELED && !ME.canceled && mydata_same() && chan_same()))
ENS("the first pending message is received", IMP(!canceled_in && Sn > 0, RET == NECO_OK && is_msg(mbuf[0], S[0]) && G.pauses == 0))
ENS("the remaining messages keep their order", IMP(!canceled_in && Sn > 0 && !env_done, pend_is(1, 0) && CH->sclosed == sh.scl && CH->rclosed == (sh.scl && Sn == 1)))
ENS("a waiting sender is woken", IMP(!canceled_in && Sn > 0 && sh.q == SENDERS, G.nres == 1))
#if TRY
ENS("EMPTY when nothing is pending", IMP(!canceled_in && Sn == 0 && !sh.scl, RET == NECO_EMPTY && mydata_same() && chan_same()))
#endif
ENS("a receiver that was served returns what it was served", IMP(granted, RET == outcome && is_msg(mbuf[0], expect)))
ENS("a cancel that lost the race stays pending", IMP(granted, ME.canceled == canc))
ENS("a receiver that was not served reports why and received nothing", IMP(G.pauses == 1 && !granted, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && !ME.canceled && mydata_same()))
ENS("a receiver that stopped waiting is not in the queue", IMP(G.pauses == 1, list_is(&CH->queue, granted ? 0 : CH->queue.head.next == &C0 ? &C0 : 0, 0, 0, 0)))
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the channel stays consistent", chan_inv() && guards_ok())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    chan_setup(&c);
    int wrap = dig(&c, 2);
    es = c;
    dl0 = wrap ? INT64_MAX : nd_i64();
#if TRY
    int r = CALL(int, FN, CH, mbuf[0]);
    REACH(r == NECO_EMPTY, "empty");
#else
    int r;
    if (wrap) { r = neco_chan_recv(CH, mbuf[0]); POST(FN)(r, CH, mbuf[0], dl0); }
    else r = CALL(int, FN, CH, mbuf[0], dl0);
    REACH(r == NECO_OK && granted && canc, "served and canceled");
    REACH(r == NECO_CLOSED && granted && deadl, "closed and timed out");
    REACH(r == NECO_TIMEDOUT, "timed out");
#endif
    REACH(r == NECO_OK && G.nres == 1, "received from a sender");
    REACH(r == NECO_OK && G.nres == 0, "received from the buffer");
    REACH(r == NECO_CLOSED, "closed");
    REACH(r == NECO_CANCELED, "canceled");
}
#endif

#ifdef U_SEND
static int first;      // first live receiver, -1 if none
static bool delivered(void) {
    unsigned char *p = Wk[first] == 0 ? mbuf[1+first] : (unsigned char*)CB.ring + MSZ*sh.cap;
    return is_msg(p, me0) && receivers_are(first + 1, 0) &&
        IMP(Wk[first] == 1, RI[first] == 3 && CH->lok);
}
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && lasterr == NECO_CANCELED && (canceled_in || canc),
            "only an asynchronously canceled coroutine is ended by the operation");
        CHECK(IMP(!env_done, chan_same()), "a canceled send sends nothing");
        CHECK(no_trace() && chan_inv(), "a coroutine ended by a cancel leaves no trace");
        return;
    }
    if (why == W_RESUME) {
        CHECK(first >= 0 && delivered() && pend_count() == 0 && guards_ok() && chan_inv(), "the message is given to the first waiting receiver only");
        CHECK(first >= 0 && G.nres == 1 && G.res[0] == Wc[first]->id, "which is woken");
        return;
    }
    CHECK(why == W_PAUSE, "blocks only by pausing");
    CHECK(first < 0 && sh.len == sh.cap, "a send blocks only without receivers and without space");
    CHECK(pend_is(0, me0) && !CH->qrecv, "the message queues behind all pending messages");
    CHECK(chan_inv() && CH->sclosed == sh.scl, "the channel stays consistent");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
    CHECK(R.nsenders == S0.nsenders + 1, "one more sender is reported");
}
static bool closed_in_between; static int left_before;
static void unit_env(int why) {
    env_done = true;
    if (why == W_RESUME) { chan_scramble(); return; }
    ASSUME(G.pauses <= 1);
    // queue: [C0] ME [C1], buffer full; then the real code of a receiver runs
    int before = dig(&es, 2), after = dig(&es, 2), action = dig(&es, 3), closed = dig(&es, 2);
    colist_init(&CH->queue);
    ME.next = ME.prev = &ME; C0.next = C0.prev = &C0; C1.next = C1.prev = &C1;
    ME.cmsg = (char*)mbuf[0];
    CH->qrecv = false; CH->buflen = sh.cap; CH->sclosed = closed; CH->rclosed = false;
    if (before) { C0.cmsg = (char*)mbuf[1]; colist_push_back(&CH->queue, &C0); }
    colist_push_back(&CH->queue, &ME);
    if (after) { C1.cmsg = (char*)mbuf[2]; colist_push_back(&CH->queue, &C1); }
    Sn = 0;
    for (int k = 0; k < MAXP; k++) {
        if (k >= pend_count()) break;
        for (int b = 0; b < MSZ; b++) S[k][b] = pend(k, b);
        Sn++;
    }
    if (action) {
        self_ = &C2;
        unsigned char was[MSZ+1];
        for (int b = 0; b < MSZ; b++) was[b] = S[0][b];
        int r = neco_chan_recv(CH, mbuf[3]);
        CHECK(r == NECO_OK && is_msg(mbuf[3], was), "a receiver gets the first pending message");
        granted = !before;
        if (action == 2 && before) {
            for (int b = 0; b < MSZ; b++) was[b] = S[1][b];
            r = neco_chan_recv(CH, mbuf[3]);
            CHECK(r == NECO_OK && is_msg(mbuf[3], was), "a second receiver gets the second pending message");
            granted = true;
        }
        self_ = &ME;
    }
    closed_in_between = closed;
    left_before = pend_count();
    events();
}
#define FN neco_chan_send_dl
CONTRACT(int, FN, neco_chan *chan, void *data, int64_t deadline)
ENS("nothing is sent on a closed channel", IMP(sh.scl, RET == NECO_CLOSED && chan_same() && ME.canceled == canceled_in))
ENS("a pending cancel is reported and sends nothing", IMP(!sh.scl && canceled_in, RET == NECO_CANCELED && !ME.canceled && chan_same()))
ENS("a waiting receiver is served", IMP(!sh.scl && !canceled_in && first >= 0, RET == NECO_OK && G.nres == 1))
ENS("the message is appended to the buffer", IMP(!sh.scl && !canceled_in && first < 0 && sh.len < sh.cap, RET == NECO_OK && !G.left && pend_is(0, me0)))
ENS("a sender whose message was taken returns OK", IMP(granted, RET == NECO_OK && ME.canceled == canc))
ENS("a sender whose message was not taken reports why", IMP(G.pauses == 1 && !granted, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && !ME.canceled))
ENS("and takes its message and nothing else back", IMP(G.pauses == 1 && !granted, pend_count() == left_before - 1 && detached(&ME)))
ENS("a sender whose message was taken disturbs nothing", IMP(granted, pend_count() == left_before))
ENS("the message is not changed", mydata_same())
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the channel stays consistent", chan_inv() && guards_ok())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    chan_setup(&c);
    int wrap = dig(&c, 2);
    es = c;
    dl0 = wrap ? INT64_MAX : nd_i64();
    first = -1;
    for (int i = Wn - 1; i >= 0; i--) if (Wk[i] != 2) first = i;
    int r;
    if (wrap) { r = neco_chan_send(CH, mbuf[0]); POST(FN)(r, CH, mbuf[0], dl0); }
    else r = CALL(int, FN, CH, mbuf[0], dl0);
    REACH(r == NECO_OK && granted && canc, "taken and canceled");
    REACH(r == NECO_TIMEDOUT, "timed out");
    REACH(r == NECO_CANCELED && closed_in_between && CH->rclosed, "last sender gives up on a closed channel");
    REACH(r == NECO_OK && G.nres == 1, "receiver served");
    REACH(r == NECO_OK && G.nres == 0, "buffered");
    REACH(r == NECO_CLOSED, "closed");
}
#endif

#if defined(U_BCAST) || defined(U_CLOSE)
static int live, livei[3];
static bool woken(void) {     // exactly the live receivers, in order
    return list_is(&R.resumers, live > 0 ? Wc[livei[0]] : 0, live > 1 ? Wc[livei[1]] : 0, live > 2 ? Wc[livei[2]] : 0, 0);
}
static bool served(void) {
    bool ok = true;
    for (int i = 0; i < 3; i++) if (i < Wn) {
        if (Wk[i] == 2) ok = ok && RI[i] == 5;
        else {
#ifdef U_BCAST
            unsigned char *p = Wk[i] == 0 ? mbuf[1+i] : (unsigned char*)CB.ring + MSZ*sh.cap;
            ok = ok && is_msg(p, me0) && IMP(Wk[i] == 1, CH->lok);
#else
            ok = ok && Wc[i]->cclosed && IMP(Wk[i] == 1, !CH->lok);
#endif
            ok = ok && IMP(Wk[i] == 1, RI[i] == 3);
        }
    }
    return ok;
}
static bool done(void) {
    return woken() && served() && chan_inv() && guards_ok() &&
#ifdef U_BCAST
        IMP(sh.q == RECEIVERS, receivers_are(3, 0)) && pend_is(0, 0) && CH->sclosed == sh.scl;
#else
        CH->sclosed && pend_is(0, 0) && IMP(sh.q == RECEIVERS, receivers_are(3, 0)) && CH->rclosed == (Sn == 0);
#endif
}
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && (canceled_in || canc),
            "only an asynchronously canceled coroutine is ended by the operation");
        return;
    }
    if (G.left) return;
    CHECK(why == W_YIELD, "never blocks");
    CHECK(done(), "every waiting receiver is served before control leaves");
}
static void unit_env(int why) {
    (void)why;
    chan_scramble();
    colist_init(&R.resumers);
    R.nresumers = 0;
    if (nd_bool()) ME.canceled = canc = true;
}
#ifdef U_BCAST
#define FN neco_chan_broadcast
CONTRACT(int, FN, struct neco_chan *chan, void *data)
ENS("nothing is sent on a closed channel", IMP(sh.scl, RET == NECO_CLOSED && chan_same() && !G.left))
ENS("the number of receivers served is returned", IMP(!sh.scl, RET == live))
ENS("the receivers are served", IMP(!sh.scl && !G.left, done()))
ENS("the receivers get to run", IMP(!sh.scl && live > 0, G.left))
#else
#define FN neco_chan_close
CONTRACT(int, FN, struct neco_chan *chan)
ENS("a channel is closed once", IMP(sh.scl, RET == NECO_CLOSED && chan_same() && !G.left))
ENS("OK otherwise", IMP(!sh.scl, RET == NECO_OK))
ENS("pending messages stay available", IMP(!sh.scl && !G.left, done()))
ENS("the receivers get to run", IMP(!sh.scl && live > 0, G.left))
#endif
ENS("a pending cancel is left alone", ME.canceled == (canceled_in || canc))
ENS("no trace is left", no_trace())
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    chan_setup(&c);
    for (int i = 0; i < 3; i++) if (i < Wn && Wk[i] != 2) livei[live++] = i;
#ifdef U_BCAST
    int r = CALL(int, FN, CH, mbuf[0]);
    REACH(r == 2, "two receivers");
    REACH(r == 0, "no receivers");
#else
    int r = CALL(int, FN, CH);
    REACH(r == NECO_OK && live == 2, "two receivers");
    REACH(r == NECO_OK && Sn == 4, "four pending messages");
#endif
    REACH(r == NECO_CLOSED, "closed");
}
#endif
