// Contracts of waiting for descriptors and of read, write, accept, connect.
#include "world.h"
static int es;                              // rest of the case number: the script of the kernel
static int64_t dl0, t_in;
static bool canceled_in, canc, deadl, event, env_done;
static int FD = 3;
static enum evkind kind0;
static uint32_t armed; static int nctl; static bool ctl_ok;
static bool other_waits;                    // a peer waits for the other kind of event
static void setup(void) {
    world_init();
    ME.canceled = canceled_in = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    for (int i = 0; i <= NCO; i++) G.in_all[i] = true;
    t_in = vc_now;
}
int epoll_create1(int f) { (void)f; return 5; }
int close(int fd);

// a peer may wait for the other kind of event on the descriptor, another one elsewhere
static void peers(int which) {
    if (which & 1) { C0.evfd = FD; C0.evkind = kind0 == EVREAD ? EVWRITE : EVREAD; G.in_ev[1] = true; other_waits = true; }
    if (which & 2) { C1.evfd = FD + 1; C1.evkind = EVREAD; G.in_ev[2] = true; }
}
static void exit_check(void) {
    CHECK(ME.canceltype == NECO_CANCEL_ASYNC && (canceled_in || canc), "only an asynchronously canceled coroutine is ended by the operation");
    CHECK(no_trace(), "a coroutine ended by a cancel leaves no trace");
}
static void wait_check(void) {
    CHECK(G.in_ev[0] && ME.evfd == FD && ME.evkind == kind0, "the coroutine waits for its event");
    CHECK(R.nevwaiters == S0.nevwaiters + 1, "and is counted");
    CHECK(R.qfd > 0 && ctl_ok, "the descriptor is registered with the event queue");
    CHECK(armed & (kind0 == EVREAD ? EPOLLIN : EPOLLOUT), "for its own event");
    CHECK(IMP(other_waits, (armed & (EPOLLIN|EPOLLOUT)) == (EPOLLIN|EPOLLOUT)), "and still for those of others");
    CHECK(armed & EPOLLONESHOT, "once");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0 && ME.paused, "the deadline of the wait is armed");
    CHECK(R.ndeadlines == S0.ndeadlines + (dl0 < INT64_MAX), "and counted");
}
static void wake(void) {
    event = nd_bool(); deadl = nd_bool() && dl0 < INT64_MAX; bool cn = nd_bool();
    ASSUME(event || deadl || cn);
    if (deadl) { ME.deadlined = true; (void)vc_getnow(); ASSUME(vc_now > dl0); }
    if (cn) { ME.canceled = true; canc = true; }
    env_done = true;
}

#ifdef U_WAIT
static int qmode, ctlmode;
int epoll_ctl(int q, int op, int fd, struct epoll_event *e) {
    CHECK(q == R.qfd && q > 0 && fd == FD && e->data.fd == fd, "registers the descriptor with its own queue");
    CHECK(op == EPOLL_CTL_MOD || op == EPOLL_CTL_ADD, "adds or changes");
    nctl++;
    if (ctlmode == 2 || (op == EPOLL_CTL_MOD) == (ctlmode == 1)) { errno = ctlmode == 2 ? EPERM : op == EPOLL_CTL_MOD ? ENOENT : EEXIST; return -1; }
    armed = e->events; ctl_ok = true;
    return 0;
}
#define epoll_create1 vc_epoll_create1
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_PAUSE && G.pauses == 1, "waits by pausing once");
    wait_check();
}
static void unit_env(int why) { (void)why; wake(); }
static int mode0;
#define FN neco_wait_dl
CONTRACT(int, FN, int fd, int mode, int64_t deadline)
ENS("only the two kinds of events can be waited for", (RET == NECO_INVAL) == (mode != NECO_WAIT_READ && mode != NECO_WAIT_WRITE))
ENS("a descriptor that cannot be waited for is reported", IMP(ctlmode == 2 && RET != NECO_INVAL, RET == -1 && !G.left))
ENS("a pending cancel is reported", IMP(canceled_in && RET != NECO_INVAL && RET != -1, RET == NECO_CANCELED && !ME.canceled && !G.left))
ENS("otherwise the coroutine waits", IMP(!canceled_in && RET != NECO_INVAL && RET != -1, G.pauses == 1))
ENS("the event ends the wait", IMP(env_done && !canc && !deadl, RET == NECO_OK))
ENS("OK only when the event occurred", IMP(RET == NECO_OK, event && !canc))
ENS("the reason is reported", IMP(env_done && RET != NECO_OK, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && (canc || deadl) && !ME.canceled))
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace() && !ME.deadlined)
ENS("the error is recorded", lasterr == (RET < -1 ? RET : RET == -1 ? neco_errconv_from_sys() : 0))
ENS("others still wait", G.in_ev[1] == other_waits)
END
static void vrun(int c) {
    setup();
    int form = dig(&c, 3), k = dig(&c, 2), pe = dig(&c, 4); ctlmode = dig(&c, 3); qmode = dig(&c, 2);
    kind0 = k ? EVWRITE : EVREAD;
    R.qfd = qmode ? 5 : 0;
    peers(pe);
    dl0 = form == 1 ? INT64_MAX : nd_i64();
    int mode = k ? NECO_WAIT_WRITE : NECO_WAIT_READ;
    if (form == 2) { mode = nd_int(); ASSUME(mode != NECO_WAIT_READ && mode != NECO_WAIT_WRITE); }
    int r;
    if (form == 1) { r = neco_wait(FD, mode); POST(FN)(r, FD, mode, dl0); }
    else r = CALL(int, FN, FD, mode, dl0);
    REACH(r == NECO_OK, "event"); REACH(r == NECO_TIMEDOUT, "timed out"); REACH(r == NECO_CANCELED && G.left, "canceled"); REACH(r == -1, "refused");
}
#endif

#if defined(U_READ) || defined(U_WRITE) || defined(U_ACCEPT) || defined(U_CONNECT)
// The kernel follows a script: one digit per system call. After three calls
// that ask for a retry the path is cut (bounded).
enum { K_DONE, K_AGAIN, K_INTR, K_ERR, K_PART };
static int ncalls, last = -1, err0; static bool left_since, partial_seen;
static int64_t result;                       // what the kernel answered last
static int step(int radix) {
    CHECK(last != K_AGAIN || left_since, "others run before the operation is tried again");
    CHECK(!canc && (!canceled_in || G.left), "a canceled operation is not tried again");
    if (ncalls == 3) ASSUME(0);
    ncalls++;
    left_since = false;
    last = dig(&es, radix);
    err0 = last == K_AGAIN ? EAGAIN : last == K_INTR ? EINTR : 0;
    if (last == K_ERR) { err0 = nd_int(); ASSUME(err0 > 0 && err0 < 133 && err0 != EAGAIN && err0 != EINTR); }
    if (err0) errno = err0;
    return last;
}
static int nctlfail;
int epoll_ctl(int q, int op, int fd, struct epoll_event *e) {
    CHECK(q == R.qfd && fd == FD && e->data.fd == fd, "registers the descriptor");
    if (nctlfail) { errno = EPERM; return -1; }
    armed = e->events; ctl_ok = true;
    return 0;
}
static int op_result_kind;
#endif

#if defined(U_READ) || defined(U_ACCEPT) || defined(U_CONNECT)
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_PAUSE || why == W_YIELD, "gives up control by waiting or yielding");
    if (why == W_PAUSE) wait_check();
}
static void unit_env(int why) {
    left_since = true;
    if (why == W_PAUSE) wake();
    else if (nd_bool()) { ME.canceled = true; canc = true; }
}
#endif

#ifdef U_READ
static char buf[8];
static size_t count0;
ssize_t read(int fd, void *p, size_t n) {
    CHECK(fd == FD && p == buf && n == count0, "reads what was asked for");
    CHECK(!canc || true, "");
    if (ncalls == 3) ASSUME(0);
    ncalls++;
    CHECK(last != K_AGAIN || left_since, "others run before the read is tried again");
    left_since = false;
    last = dig(&es, 4);
    if (last == K_DONE) { result = nd_i64(); ASSUME(result >= 0 && (uint64_t)result <= n); return result; }
    err0 = last == K_AGAIN ? EAGAIN : last == K_INTR ? EINTR : nd_int();
    if (last == K_ERR) ASSUME(err0 > 0 && err0 < 133 && err0 != EAGAIN && err0 != EINTR && err0 != ECANCELED && err0 != ETIMEDOUT);
    errno = err0;
    return -1;
}
#define FN neco_read_dl
CONTRACT(ssize_t, FN, int fd, void *p, size_t n, int64_t deadline)
ENS("a successful read is returned as it is", IMP(last == K_DONE, RET == result))
ENS("an error is returned with its cause", IMP(last == K_ERR, RET == -1 && errno == err0))
ENS("nothing else ends a read but the deadline or a cancel", IMP(last != K_DONE && last != K_ERR, RET == -1 && (errno == ECANCELED || errno == ETIMEDOUT)))
ENS("TIMEDOUT only after the deadline", IMP(RET == -1 && errno == ETIMEDOUT, vc_now > deadline))
ENS("a passed deadline is reported", IMP(t_in > deadline, RET == -1 && !ncalls))
ENS("a pending cancel is reported first", IMP(canceled_in, RET == -1 && errno == ECANCELED && !ncalls))
ENS("a cancel is seen exactly once", IMP(canceled_in || canc, (RET == -1 && errno == ECANCELED) != ME.canceled))
ENS("CANCELED only when canceled", IMP(RET == -1 && errno == ECANCELED, canceled_in || canc))
ENS("asynchronous cancelation does not return", IMP(RET == -1 && errno == ECANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the error is recorded", lasterr == (RET == -1 ? neco_errconv_from_sys() : 0))
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2); nctlfail = dig(&c, 2); es = c;
    R.qfd = 5; kind0 = EVREAD;
    count0 = nd_size(); ASSUME(count0 < (size_t)1 << 62);
    dl0 = wrap ? INT64_MAX : nd_i64();
    ssize_t r;
    if (wrap) { r = neco_read(FD, buf, count0); POST(FN)(r, FD, buf, count0, dl0); }
    else r = CALL(ssize_t, FN, FD, buf, count0, dl0);
    REACH(r > 0 && ncalls == 3, "read at the third attempt"); REACH(r == -1 && last == K_AGAIN && errno == ETIMEDOUT, "timed out");
    REACH(r == -1 && last == K_AGAIN && errno == ECANCELED, "canceled"); REACH(last == K_ERR, "error");
}
#endif

#ifdef U_WRITE
// The buffer is abstract: only addresses are tracked. What the kernel accepted
// is always the next piece.
static char base[1];
static size_t total, done_;                 // bytes accepted so far
static bool submitted, finished, in_thread, use_worker; static int locked, nsub;
static void (*work)(void*); static void *workarg;
ssize_t write(int fd, const void *p, size_t n) {
    CHECK(fd == FD, "writes to the descriptor");
    CHECK((const char*)p == base + done_ && n == total - done_, "continues after the last byte written");
    if (ncalls == 3) ASSUME(0);
    ncalls++;
    CHECK(last != K_AGAIN || left_since, "others run before the write is tried again");
    CHECK((last != K_PART && last != K_DONE) || left_since, "others run between two parts");
    left_since = false;
    last = dig(&es, 5);
    if (last == K_DONE) { done_ = total; return (ssize_t)n; }
    if (last == K_PART) { size_t m = nd_size(); ASSUME(m < n); done_ += m; return (ssize_t)m; }
    err0 = last == K_AGAIN ? EAGAIN : last == K_INTR ? EINTR : nd_int();
    if (last == K_ERR) ASSUME(err0 > 0 && err0 < 133 && err0 != EAGAIN && err0 != EINTR && err0 != ECANCELED && err0 != ETIMEDOUT);
    errno = err0;
    return -1;
}
int pthread_mutex_lock(pthread_mutex_t *m) { CHECK(m == &R.iomu && !locked, "locks the list of finished work"); locked = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(m == &R.iomu && locked, "unlocks it"); locked = 0; return 0; }
bool vc_submit(struct worker *w, int64_t pin, void (*fn)(void*), void *arg) {
    (void)w; (void)pin;
    if (!use_worker) return false;
    CHECK(!submitted, "one piece of work at a time");
    submitted = true; finished = false; work = fn; workarg = arg; nsub++;
    return true;
}
static void unit_leave(int why) {
    if (why == W_EXIT) { CHECK(!submitted, "not while a thread uses the stack of the coroutine"); exit_check(); return; }
    CHECK(!locked, "not while locked");
    if (why == W_PAUSE && submitted) {
        CHECK(!finished || true, "");
        CHECK(R.niowaiters == S0.niowaiters + 1, "background work is counted");
        return;
    }
    CHECK(!submitted, "waits for the work that was handed out");
    if (why == W_PAUSE) wait_check();
}
static bool cancel_first;
static void unit_env(int why) {
    left_since = true;
    if (why == W_PAUSE && submitted) {
        if (cancel_first) { cancel_first = false; canc = true; ME.canceled = true; return; }   // woken early by a cancel
        int e = errno;
        work(workarg);                                   // the thread, in parallel until now
        errno = nd_int(); (void)e;
        finished = true;
        if (nd_bool()) { canc = true; ME.canceled = true; }
        CHECK(list_is(&R.iolist, &ME, NULL, NULL, NULL), "the finished coroutine is listed once");
        if (dig(&es, 2) == 0) { (void)colist_pop_front(&R.iolist); }  // the scheduler took it, or the cancel came first
        submitted = false;
        return;
    }
    if (why == W_PAUSE) wake();
    else if (nd_bool()) { ME.canceled = true; canc = true; }
}
#define FN neco_write_dl
CONTRACT(ssize_t, FN, int fd, const void *p, size_t n, int64_t deadline)
ENS("all bytes, or as many as were written", IMP(RET >= 0, (size_t)RET == done_))
ENS("a failed write has written nothing", IMP(RET < 0, RET == -1 && done_ == 0))
ENS("everything is written unless there is a reason", IMP(RET >= 0 && (size_t)RET < n, last == K_ERR || canceled_in || canc || vc_now > deadline))
ENS("fewer bytes are reported as a partial write", lasterr == (RET == -1 ? neco_errconv_from_sys() : (size_t)RET < n ? NECO_PARTIALWRITE : 0))
ENS("the cause is given", IMP(RET == -1 || (size_t)RET < n, errno == (last == K_ERR ? err0 : errno == ECANCELED ? ECANCELED : ETIMEDOUT)))
ENS("TIMEDOUT only after the deadline", IMP(RET == -1 && last != K_ERR && errno == ETIMEDOUT, vc_now > deadline))
ENS("a passed deadline is reported", IMP(t_in > deadline, RET == -1 && !ncalls))
ENS("a pending cancel is reported first", IMP(canceled_in, RET == -1 && errno == ECANCELED && !ncalls))
ENS("a cancel is seen exactly once", IMP(canceled_in || canc, (RET == -1 && last != K_ERR && errno == ECANCELED) != ME.canceled))
ENS("CANCELED only when canceled", IMP(RET == -1 && last != K_ERR && errno == ECANCELED, canceled_in || canc))
ENS("asynchronous cancelation does not return", IMP(RET == -1 && last != K_ERR && errno == ECANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace() && colist_is_empty(&R.iolist) && !submitted && !locked)
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2); nctlfail = dig(&c, 2); use_worker = dig(&c, 2); cancel_first = dig(&c, 2); es = c;
    R.qfd = 5; kind0 = EVWRITE;
    total = nd_size(); ASSUME(total < (size_t)1 << 62);
    dl0 = wrap ? INT64_MAX : nd_i64();
    ssize_t r;
    if (wrap) { r = neco_write(FD, base, total); POST(FN)(r, FD, base, total, dl0); }
    else r = CALL(ssize_t, FN, FD, base, total, dl0);
    REACH(r > 0 && ncalls == 3, "written at the third attempt"); REACH(r > 0 && (size_t)r < total && last == K_ERR, "partial");
    REACH(r == -1 && errno == ECANCELED, "canceled"); REACH(last == K_ERR, "error"); REACH(r > 0 && (size_t)r < total && errno == ETIMEDOUT && last == K_PART, "partial, timed out");
}
#endif

#ifdef U_ACCEPT
enum { NEWFD = 9 };
static int nclosed, flags, nsetfl; static bool setfail; static struct sockaddr sa; static socklen_t salen;
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    CHECK(fd == FD && a == &sa && l == &salen, "accepts from the listener");
    if (ncalls == 3) ASSUME(0);
    ncalls++;
    CHECK(last != K_AGAIN || left_since, "others run before the accept is tried again");
    left_since = false;
    last = dig(&es, 4);
    if (last == K_DONE) return NEWFD;
    err0 = last == K_AGAIN ? EAGAIN : last == K_INTR ? EINTR : nd_int();
    if (last == K_ERR) ASSUME(err0 > 0 && err0 < 133 && err0 != EAGAIN && err0 != EINTR && err0 != ECANCELED && err0 != ETIMEDOUT);
    errno = err0;
    return -1;
}
int fcntl(int fd, int cmd, ...) {
    CHECK(fd == NEWFD, "only the new descriptor is changed");
    if (setfail) { errno = err0 = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR;
    va_list ap; va_start(ap, cmd); flags = va_arg(ap, int); va_end(ap);
    nsetfl++;
    return 0;
}
int close(int fd) { CHECK(fd == NEWFD, "only the new descriptor is closed"); nclosed++; return 0; }
#define FN neco_accept_dl
CONTRACT(int, FN, int fd, struct sockaddr *a, socklen_t *l, int64_t deadline)
ENS("an accepted connection is returned, not blocking", IMP(last == K_DONE && !setfail, RET == NEWFD && nsetfl == 1 && flags == (O_RDWR|O_NONBLOCK) && !nclosed))
ENS("a connection that cannot be used is closed", IMP(last == K_DONE && setfail, RET == -1 && nclosed == 1))
ENS("an error is returned with its cause", IMP(last == K_ERR, RET == -1 && errno == err0))
ENS("nothing is closed otherwise", IMP(last != K_DONE, RET == -1 && nclosed == 0))
ENS("nothing else ends an accept but the deadline or a cancel", IMP(last != K_DONE && last != K_ERR, errno == ECANCELED || errno == ETIMEDOUT))
ENS("TIMEDOUT only after the deadline", IMP(RET == -1 && errno == ETIMEDOUT, vc_now > deadline))
ENS("a passed deadline is reported", IMP(t_in > deadline, RET == -1 && !ncalls))
ENS("a pending cancel is reported first", IMP(canceled_in, RET == -1 && errno == ECANCELED && !ncalls))
ENS("a cancel is seen exactly once", IMP(canceled_in || canc, (RET == -1 && errno == ECANCELED) != ME.canceled))
ENS("CANCELED only when canceled", IMP(RET == -1 && errno == ECANCELED, canceled_in || canc))
ENS("asynchronous cancelation does not return", IMP(RET == -1 && errno == ECANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the error is recorded", lasterr == (RET == -1 ? neco_errconv_from_sys() : 0))
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2); nctlfail = dig(&c, 2); setfail = dig(&c, 2); es = c;
    R.qfd = 5; kind0 = EVREAD;
    dl0 = wrap ? INT64_MAX : nd_i64();
    int r;
    if (wrap) { r = neco_accept(FD, &sa, &salen); POST(FN)(r, FD, &sa, &salen, dl0); }
    else r = CALL(int, FN, FD, &sa, &salen, dl0);
    REACH(r > 0 && ncalls == 3, "accepted at the third attempt"); REACH(r == -1 && errno == ETIMEDOUT && ncalls, "timed out");
    REACH(r == -1 && errno == ECANCELED && ncalls, "canceled"); REACH(last == K_ERR, "error"); REACH(nclosed, "closed");
}
#endif

#ifdef U_CONNECT
// the kernel's side of a connection attempt
enum { CN_OK, CN_PROG, CN_INTR, CN_ERR, CN_ALREADY, CN_ISCONN };
static bool started; static struct sockaddr sa;
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    CHECK(fd == FD && a == &sa && l == sizeof sa, "connects to the address");
    if (ncalls == 3) ASSUME(0);
    ncalls++;
    CHECK((last != CN_PROG && last != CN_ALREADY) || left_since, "others run while the connection is made");
    left_since = false;
    last = dig(&es, 6);
    if (last == CN_ALREADY || (last == CN_ISCONN && ncalls > 1)) ASSUME(started);
    if (last == CN_PROG) ASSUME(!started);
    if (last == CN_PROG || last == CN_INTR) started = true;
    if (last == CN_OK) return 0;
    err0 = last == CN_PROG ? EINPROGRESS : last == CN_INTR ? EINTR : last == CN_ALREADY ? EALREADY : last == CN_ISCONN ? EISCONN : nd_int();
    if (last == CN_ERR) ASSUME(err0 > 0 && err0 < 133 && err0 != EINPROGRESS && err0 != EINTR && err0 != EALREADY && err0 != EISCONN && err0 != ENOMEM && err0 != ECANCELED && err0 != ETIMEDOUT);
    errno = err0;
    return -1;
}
#define FN neco_connect_dl
CONTRACT(int, FN, int fd, const struct sockaddr *a, socklen_t l, int64_t deadline)
ENS("a connected socket is reported", IMP(last == CN_OK || (last == CN_ISCONN && started), RET == NECO_OK))
ENS("OK only if the connection was made", IMP(RET == NECO_OK, last == CN_OK || (last == CN_ISCONN && started)))
ENS("an error is returned with its cause", IMP(last == CN_ERR || (last == CN_ISCONN && !started), RET == -1 && errno == (err0 == EAGAIN ? ECONNREFUSED : err0)))
ENS("nothing else ends a connect but the deadline or a cancel", IMP(last == CN_PROG || last == CN_INTR || last == CN_ALREADY, RET == -1 && (errno == ECANCELED || errno == ETIMEDOUT)))
ENS("TIMEDOUT only after the deadline", IMP(RET == -1 && errno == ETIMEDOUT, vc_now > deadline))
ENS("a passed deadline is reported", IMP(t_in > deadline, RET == -1 && !ncalls))
ENS("a pending cancel is reported first", IMP(canceled_in, RET == -1 && errno == ECANCELED && !ncalls))
ENS("a cancel is seen exactly once", IMP(canceled_in || canc, (RET == -1 && errno == ECANCELED) != ME.canceled))
ENS("CANCELED only when canceled", IMP(RET == -1 && errno == ECANCELED, canceled_in || canc))
ENS("asynchronous cancelation does not return", IMP(RET == -1 && errno == ECANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace())
ENS("the error is recorded", lasterr == (RET == -1 ? neco_errconv_from_sys() : 0))
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2); nctlfail = dig(&c, 2); es = c;
    R.qfd = 5; kind0 = EVWRITE;
    dl0 = wrap ? INT64_MAX : nd_i64();
    int r;
    if (wrap) { r = neco_connect(FD, &sa, sizeof sa); POST(FN)(r, FD, &sa, sizeof sa, dl0); }
    else r = CALL(int, FN, FD, &sa, sizeof sa, dl0);
    REACH(r == NECO_OK && ncalls == 2, "connected after a wait"); REACH(r == -1 && errno == ETIMEDOUT && ncalls, "timed out");
    REACH(r == -1 && errno == ECANCELED && ncalls, "canceled"); REACH(last == CN_ERR, "error");
}
#endif

#ifdef U_SIGWAIT
static int nother; static int gsig;
static void unit_leave(int why) {
    if (why == W_EXIT) { exit_check(); return; }
    CHECK(why == W_PAUSE && G.pauses == 1, "waits by pausing once");
    CHECK(list_at(&R.sigwaiters, nother) == &ME && list_len(&R.sigwaiters) == nother + 1, "waits behind those that came before");
    CHECK(R.nsigwaiters == S0.nsigwaiters + 1, "and is counted");
    CHECK(ME.sigmask == ME.sigwatch && !ME.granted, "for the signals it watches");
    CHECK(G.in_dl[0] == (dl0 < INT64_MAX) && ME.deadline == dl0 && ME.paused, "the deadline of the wait is armed");
}
static void unit_env(int why) {
    (void)why;
    if (dig(&es, 2)) {       // the scheduler delivers a signal (rt_sched_signal_step, units/sched.c)
        gsig = nd_int(); ASSUME(gsig >= 1 && gsig <= 31 && (ME.sigmask >> gsig & 1));
        remove_from_list(&ME); ME.sigmask = (uint32_t)gsig; ME.granted = true; event = true;
    }
    if (dig(&es, 2) && nother) remove_from_list(&C0);
    deadl = nd_bool() && dl0 < INT64_MAX; canc = nd_bool();
    ASSUME(event || deadl || canc);
    if (deadl) { ME.deadlined = true; (void)vc_getnow(); ASSUME(vc_now > dl0); }
    if (canc) ME.canceled = true;
    env_done = true;
}
static uint32_t watch0; static bool mainth;
#define FN neco_signal_wait_dl
CONTRACT(int, FN, int64_t deadline)
ENS("signals belong to the main thread", IMP(!mainth, RET == NECO_PERM && !G.left && ME.canceled == canceled_in))
ENS("a coroutine without watched signals does not wait", IMP(mainth && !watch0, RET == NECO_NOSIGWATCH && !G.left && ME.canceled == canceled_in))
ENS("a pending cancel is reported", IMP(mainth && watch0 && canceled_in, RET == NECO_CANCELED && !ME.canceled && !G.left))
ENS("otherwise it waits", IMP(mainth && watch0 && !canceled_in, G.pauses == 1))
ENS("a delivered signal is returned", IMP(env_done && event, RET == gsig))
ENS("a cancelation is not lost with it", IMP(env_done && event && canc, ME.canceled))
ENS("otherwise the reason is reported", IMP(env_done && !event, RET == (canc ? NECO_CANCELED : NECO_TIMEDOUT) && !ME.canceled))
ENS("asynchronous cancelation does not return", IMP(RET == NECO_CANCELED, ME.canceltype == NECO_CANCEL_INLINE))
ENS("no trace of the wait is left", no_trace() && !ME.sigmask && IMP(env_done, !ME.granted) && !ME.deadlined)
ENS("the watched signals stay", ME.sigwatch == watch0)
ENS("the error is recorded", lasterr == (RET < 0 ? RET : 0))
END
static void vrun(int c) {
    setup();
    int wrap = dig(&c, 2); nother = dig(&c, 3); int m = dig(&c, 3); es = c;
    mainth = R.mainthread = m > 0;
    for (int i = 0; i < nother; i++) { CO(i)->paused = true; colist_push_back(&R.sigwaiters, CO(i)); }
    ME.sigmask = 0; ME.granted = nd_bool();
    watch0 = nd_uint(); ASSUME(m == 2 ? watch0 != 0 && (watch0 & 1) == 0 : watch0 == 0 || m == 0); ME.sigwatch = watch0;
    dl0 = wrap ? INT64_MAX : nd_i64();
    int r;
    if (wrap) { r = neco_signal_wait(); POST(FN)(r, dl0); } else r = CALL(int, FN, dl0);
    if (nother > 1) CHECK(!detached(&C1) , "the others go on waiting");
    REACH(r > 0, "signal"); REACH(r == NECO_CANCELED && G.left, "canceled"); REACH(r == NECO_TIMEDOUT, "timed out");
}
#endif

#ifdef U_SIGWATCH
#define UNUSED_LEAVE
static void unit_leave(int why) { (void)why; CHECK(0, "the operation never gives up control"); }
static void unit_env(int why) { (void)why; }
static void vrun(int c) {
    setup();
    int un = dig(&c, 2), m = dig(&c, 2);
    int signo = nd_int(), k = nd_int(); ASSUME(k >= 0 && k < 32);
    R.mainthread = m;
    for (int i = 0; i < 32; i++) R.sigwatchers[i] = nd_count();
    uint32_t w0 = ME.sigwatch = nd_uint() & ~1u;
    ASSUME(!(w0 >> k & 1) || R.sigwatchers[k] > 0);
    bool ok = signo >= 1 && signo <= 31;
    bool had = ok && (w0 >> signo & 1);
    ASSUME(!had || R.sigwatchers[signo] > 0);
    int wk = R.sigwatchers[k];
    int r = un ? neco_signal_unwatch(signo) : neco_signal_watch(signo);
    CHECK(r == (!ok ? NECO_INVAL : !m ? NECO_PERM : NECO_OK), "the result of a watch");
    bool did = r == NECO_OK;
    CHECK(ME.sigwatch == (!did ? w0 : un ? w0 & ~(1u << signo) : w0 | 1u << signo), "exactly the given signal is watched or not");
    CHECK(R.sigwatchers[k] == wk + (did && k == signo ? (un ? -had : !had) : 0), "and its watchers are counted");
    CHECK(lasterr == (r < 0 ? r : 0), "the error is recorded");
    CHECK(ME.canceled == canceled_in && no_trace(), "nothing else changes");
    REACH(did && had, "was watched"); REACH(did && !had, "was not watched");
}
#endif
