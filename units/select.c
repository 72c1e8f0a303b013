// Contracts of neco_chan_select*/tryselect*/case over two channels.
#include "world.h"
enum { MSZ = 2 };
struct box { struct neco_chan c; char ring[MSZ*2+4]; };
static struct box A, B;
static unsigned char msg[2][MSZ], omsg[MSZ], out[MSZ+2];
static struct neco_chan *chans[9];
// state of a channel on entry: 0 open and empty, 1 one buffered message,
// 2 one waiting sender (no capacity), 3 closed, 4 open with another receiver
static int st[2];
static bool canceled_in, canc, deadl, granted, paused, closed_it;
static int64_t dl0;
static int es, nch, gidx;
static bool tryit;

static struct box *bx(int i) { return i == 0 ? &A : &B; }
static void box_init(struct box *b, int i, int s) {
    st[i] = s;
    b->c.rtid = R.id;
    b->c.msgsize = MSZ;
    b->c.bufcap = s == 1 ? 1 : 0;
    colist_init(&b->c.queue);
    for (int k = 0; k < MSZ; k++) msg[i][k] = nd_u8();
    b->ring[MSZ*(b->c.bufcap+1)] = 0x5A;
    b->c.lok = nd_bool();
    struct coroutine *o = i == 0 ? &C0 : &C1;
    if (s == 1) { b->c.buflen = 1; for (int k = 0; k < MSZ; k++) b->ring[k] = (char)msg[i][k]; }
    if (s == 2) { o->cmsg = (char*)msg[i]; o->paused = true; colist_push_back(&b->c.queue, o); }
    if (s == 3) b->c.sclosed = b->c.rclosed = true;
    if (s == 4) { o->cmsg = (char*)omsg; o->paused = true; b->c.qrecv = true; colist_push_back(&b->c.queue, o); }
}
static bool ready(int i) { return st[i] >= 1 && st[i] <= 3; }
static bool box_same(int i) {
    struct box *b = bx(i);
    struct coroutine *o = i == 0 ? &C0 : &C1;
    return list_is(&b->c.queue, st[i] == 2 || st[i] == 4 ? o : 0, 0, 0, 0) &&
        b->c.buflen == (st[i] == 1) && b->c.sclosed == (st[i] == 3) && b->c.rclosed == (st[i] == 3) &&
        IMP(st[i] == 1, (unsigned char)b->ring[0] == msg[i][0] && (unsigned char)b->ring[1] == msg[i][1]);
}
static bool taken(int i) {      // the message of channel i was taken
    struct box *b = bx(i);
    return list_is(&b->c.queue, 0, 0, 0, 0) && b->c.buflen == 0 && b->c.sclosed == (st[i] == 3);
}
static int firstready(void) { return ready(0) ? 0 : nch > 1 && ready(1) ? 1 : -1; }
static void unit_leave(int why) {
    if (why == W_EXIT) {
        CHECK(ME.canceltype == NECO_CANCEL_ASYNC && lasterr == NECO_CANCELED && (canceled_in || canc),
            "only an asynchronously canceled coroutine is ended by the operation");
        CHECK(IMP(!paused, box_same(0) && box_same(1)), "a canceled select takes nothing");
        CHECK(no_trace(), "a coroutine ended by a cancel leaves no trace");
        return;
    }
    if (why == W_RESUME) {
        CHECK(firstready() >= 0 && G.nres == 1, "wakes one sender");
        return;
    }
    CHECK(why == W_PAUSE && !tryit, "blocks only by pausing, and only if it may");
    CHECK(firstready() < 0, "a select does not block while a case is ready");
    CHECK(A.c.qrecv && IMP(nch > 1, B.c.qrecv), "waits as a receiver");
    CHECK(list_len(&A.c.queue) == (st[0] == 4) + 1 && IMP(nch > 1, list_len(&B.c.queue) == (st[1] == 4) + 1), "waits on every channel");
    CHECK(IMP(st[0] == 4, list_at(&A.c.queue, 0) == &C0) && IMP(nch > 1 && st[1] == 4, list_at(&B.c.queue, 0) == &C1), "behind earlier receivers");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0, "the deadline of the wait is armed");
    CHECK(R.nreceivers == S0.nreceivers + 1, "one more receiver is reported");
    paused = true;
}
static unsigned char m1[MSZ], m2[MSZ], expect[MSZ];
static int second;
// other selects that share a channel may have left anything in its slot
static void slots(void) {
    for (int k = 0; k < MSZ; k++) { A.ring[MSZ*A.c.bufcap+k] = (char)nd_u8(); B.ring[MSZ*B.c.bufcap+k] = (char)nd_u8(); }
    A.c.lok = nd_bool(); B.c.lok = nd_bool();
}
static void unit_env(int why) {
    if (why == W_RESUME) { slots(); return; }
    ASSUME(G.pauses <= 1);
    int action = dig(&es, 4), on = dig(&es, 2), twice = dig(&es, 2);
    if (on >= nch) on = 0;
    for (int k = 0; k < MSZ; k++) { m1[k] = nd_u8(); m2[k] = nd_u8(); }
    self_ = &C2;
    struct neco_chan *c = &bx(on)->c, *d = &bx(nch > 1 ? 1 - on : on)->c;
    if (action == 1) {
        CHECK(neco_chan_send(c, m1) == NECO_OK, "accepted");
        granted = st[on] != 4;
        gidx = on;
    } else if (action == 2) {
        CHECK(neco_chan_broadcast(c, m1) == 1 + (st[on] == 4), "every receiver counted");
        granted = true; gidx = on;
    } else if (action == 3) {
        CHECK(neco_chan_close(c) == NECO_OK, "closed");
        granted = true; gidx = on; closed_it = true;
    }
    if (granted && twice && nch > 1) {
        // before ME runs again, something arrives on the other channel too
        if (st[1-on] == 4) {
            second = neco_chan_broadcast(d, m2);
            CHECK(second == 1, "a served select is not counted again");
        } else {
            second = neco_chan_broadcast(d, m2);
            CHECK(second == 0, "a served select does not swallow another message");
        }
    }
    self_ = &ME;
    for (int k = 0; k < MSZ; k++) expect[k] = m1[k];
    deadl = nd_bool() && dl0 < INT64_MAX; canc = nd_bool();
    ASSUME(granted || deadl || canc);
    if (deadl) ME.deadlined = true;
    if (canc) ME.canceled = true;
    if (granted) remove_from_list(&ME);
    slots();
}
static void vrun(int c) {
    world_init();
    int form = dig(&c, 7);            // selectv_dl, selectv, tryselectv, many cases, varargs
    nch = dig(&c, 2) + 1;
    if (form >= 3) nch = 2;
    int sa = dig(&c, 5), sb = dig(&c, 5);
    es = c;
    box_init(&A, 0, sa);
    box_init(&B, 1, nch > 1 ? sb : 0);
    ME.canceled = canceled_in = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    ME.granted = nd_bool(); ME.cclosed = nd_bool();
    chans[0] = &A.c; chans[1] = nch > 1 ? &B.c : 0;
    dl0 = form == 1 || form == 5 ? INT64_MAX : nd_i64();
    tryit = form == 2 || form == 6;
    int r;
    if (form == 0) r = neco_chan_selectv_dl(nch, chans, dl0);
    else if (form == 1) r = neco_chan_selectv(nch, chans);
    else if (form == 2) r = neco_chan_tryselectv(nch, chans);
    else if (form == 4) r = neco_chan_select_dl(dl0, 2, &A.c, &B.c);
    else if (form == 5) r = neco_chan_select(2, &A.c, &B.c);
    else if (form == 6) r = neco_chan_tryselect(2, &A.c, &B.c);
    else {
        for (int i = 2; i < 9; i++) chans[i] = &B.c;
        r = neco_chan_tryselectv(9, chans);
        tryit = true;
    }
    int f = firstready();
    int rc = 0;
    if (r >= 0) {
        CHECK(r < nch, "a select returns the index of one of its cases");
        rc = neco_chan_case(chans[r], out);
    }
    if (form == 3 && r == NECO_NOMEM) { CHECK(box_same(0) && box_same(1), "no memory, nothing taken"); return; }
    CHECK(IMP(canceled_in, r == NECO_CANCELED && !ME.canceled && box_same(0) && box_same(1)), "a pending cancel is reported and takes nothing");
    if (!canceled_in && f >= 0) {
        CHECK(r >= 0 && r < nch && ready(r), "a ready case is chosen");
        if (r >= 0 && r < nch) {
            CHECK(rc == (st[r] == 3 ? NECO_CLOSED : NECO_OK), "a closed case is reported as closed");
            CHECK(IMP(st[r] != 3, out[0] == msg[r][0] && out[1] == msg[r][1]), "the case holds the first message of its channel");
            CHECK(taken(r), "the message is taken once");
            CHECK(box_same(1 - r), "the other channels are left alone");
            CHECK(IMP(st[r] == 2, G.nres == 1 && G.res[0] == (r == 0 ? C0.id : C1.id)), "the sender is woken");
        }
    }
    CHECK(IMP(!canceled_in && f < 0 && tryit, r == NECO_EMPTY && box_same(0) && box_same(1)), "EMPTY when no case is ready");
    CHECK(IMP(!canceled_in && f < 0 && !tryit, paused), "waits when no case is ready");
    if (granted) {
        CHECK(r == gidx && ME.canceled == canc, "a select that was served returns the served case");
        CHECK(rc == (closed_it ? NECO_CLOSED : NECO_OK), "the case tells a message from a close");
        CHECK(IMP(!closed_it, out[0] == expect[0] && out[1] == expect[1]), "the message sent is the message received");
    }
    CHECK(IMP(paused && !granted, r == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && !ME.canceled), "a select that was not served reports why");
    if (paused) {
        CHECK(list_len(&A.c.queue) <= (st[0] == 4) && list_len(&B.c.queue) <= (st[1] == 4), "a select leaves every queue");
        CHECK(IMP(!granted && st[0] == 4 && G.peer_switches == 0, list_is(&A.c.queue, &C0, 0, 0, 0)), "other receivers keep waiting");
    }
    CHECK(no_trace(), "no trace of the wait is left");
    CHECK(IMP(r == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE), "asynchronous cancelation does not return");
    CHECK(A.ring[MSZ*(A.c.bufcap+1)] == 0x5A && B.ring[MSZ*(B.c.bufcap+1)] == 0x5A, "nothing is written beyond the channel");
    CHECK(IMP(r < 0, lasterr == r), "the error is recorded");
    REACH(r == 1 && granted && canc, "second case served and canceled");
    REACH(r == 0 && granted && closed_it && deadl, "first case closed and timed out");
    REACH(r == NECO_TIMEDOUT, "timed out");
    REACH(r == NECO_EMPTY, "empty");
    REACH(r == 1 && !paused, "second case ready");
    REACH(r == 0 && rc == NECO_CLOSED && !paused, "closed case ready");
}
