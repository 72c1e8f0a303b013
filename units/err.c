// Contracts of the error reporting: refusal of misuse, neco_lasterr, error
// conversion and error messages.
#define NEVER_LEAVES
#include <stdbool.h>
char *vc_strerror(int e); const char *vc_gai_strerror(int e); void vc_trace(int s, bool c); void vc_abort(void);
#include "world.h"
#ifdef U_MISUSE
static struct neco_chan CH; static neco_mutex MU; static neco_waitgroup WG; static neco_cond CV; static struct neco_gen *gp; static neco_chan *cp; static struct neco_stream *sp;
static char token; static int dummy(void) { return 0; }
static void cofn(int c, void *v[]) { (void)c; (void)v; }
static void workfn_(void *u) { (void)u; }
static struct neco_chan *two[2];
static bool posix_;         // reports by -1 and errno
int vc_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r, int64_t d) { (void)n; (void)s; (void)h; (void)r; (void)d; CHECK(0, "not called"); return 0; }
static int64_t call(int op, bool bad) {
    int64_t d = nd_i64(); int x; 
    void *B = bad ? NULL : &token;
#define O(n, v) case n: return v;
#define X(n, v) case n: posix_ = true; return v;
    switch (op) {
    // only sensible inside of a coroutine
    O(0, neco_sleep(d)) O(1, neco_sleep_dl(d)) O(2, neco_suspend()) O(3, neco_suspend_dl(d))
    O(4, neco_resume(d)) O(5, neco_join(d)) O(6, neco_join_dl(d, d)) O(7, neco_cancel(d))
    O(8, neco_cancel_dl(d, d)) O(9, neco_yield())
    O(10, neco_getid()) O(11, neco_lastid()) O(12, neco_starterid()) O(13, neco_is_main_thread())
    O(14, neco_signal_wait()) O(15, neco_signal_wait_dl(d))
    O(16, neco_rand_setseed(d, NULL))
    O(17, neco_setcanceltype(NECO_CANCEL_ASYNC, &x)) O(18, neco_setcancelstate(NECO_CANCEL_ENABLE, &x))
    X(19, neco_read(3, &token, 1)) X(20, neco_read_dl(3, &token, 1, d)) X(21, neco_write(3, &token, 1)) X(22, neco_write_dl(3, &token, 1, d))
    X(23, neco_accept(3, 0, 0)) X(24, neco_accept_dl(3, 0, 0, d)) X(25, neco_connect(3, (void*)&token, 1)) X(26, neco_connect_dl(3, (void*)&token, 1, d))
    O(27, neco_signal_watch(10)) O(28, neco_signal_unwatch(10))
    O(29, neco_chan_tryselect(0)) O(30, neco_chan_select(0))
    // with an argument that can be invalid
    O(40, neco_chan_make(bad ? NULL : &cp, 8, 1)) O(41, neco_chan_retain(bad ? NULL : &CH)) O(42, neco_chan_release(bad ? NULL : &CH))
    O(43, neco_chan_send(bad ? NULL : &CH, &token)) O(44, neco_chan_send_dl(bad ? NULL : &CH, &token, d)) O(45, neco_chan_broadcast(bad ? NULL : &CH, &token))
    O(46, neco_chan_recv(bad ? NULL : &CH, &token)) O(47, neco_chan_recv_dl(bad ? NULL : &CH, &token, d)) O(48, neco_chan_tryrecv(bad ? NULL : &CH, &token))
    O(49, neco_chan_close(bad ? NULL : &CH)) O(50, neco_chan_case(bad ? NULL : &CH, &token))
    O(51, neco_chan_selectv(bad ? -1 : 1, two)) O(52, neco_chan_selectv_dl(bad ? -1 : 1, two, d)) O(53, neco_chan_tryselectv(bad ? -1 : 1, two))
    O(54, neco_mutex_init(bad ? NULL : &MU)) O(55, neco_mutex_lock(bad ? NULL : &MU)) O(56, neco_mutex_lock_dl(bad ? NULL : &MU, d)) O(57, neco_mutex_trylock(bad ? NULL : &MU))
    O(58, neco_mutex_unlock(bad ? NULL : &MU)) O(59, neco_mutex_rdlock(bad ? NULL : &MU)) O(60, neco_mutex_rdlock_dl(bad ? NULL : &MU, d)) O(61, neco_mutex_tryrdlock(bad ? NULL : &MU))
    O(62, neco_waitgroup_init(bad ? NULL : &WG)) O(63, neco_waitgroup_add(bad ? NULL : &WG, 1)) O(64, neco_waitgroup_done(bad ? NULL : &WG)) O(65, neco_waitgroup_wait(bad ? NULL : &WG)) O(66, neco_waitgroup_wait_dl(bad ? NULL : &WG, d))
    O(67, neco_cond_init(bad ? NULL : &CV)) O(68, neco_cond_signal(bad ? NULL : &CV)) O(69, neco_cond_broadcast(bad ? NULL : &CV)) O(70, neco_cond_wait(bad ? NULL : &CV, &MU)) O(71, neco_cond_wait_dl(&CV, bad ? NULL : &MU, d))
    O(72, neco_gen_start(bad ? NULL : &gp, 8, cofn, 0)) O(73, neco_gen_startv(&gp, 8, bad ? NULL : cofn, 0, NULL))
    O(74, neco_gen_retain(B)) O(75, neco_gen_release(B)) O(76, neco_gen_next(B, &token)) O(77, neco_gen_next_dl(B, &token, d)) O(78, neco_gen_close(B))
    O(79, neco_work(d, bad ? NULL : workfn_, 0)) O(80, neco_rand(&token, 0, bad ? 2 : NECO_PRNG)) O(81, neco_rand_dl(&token, 0, bad ? -1 : NECO_CSPRNG, d))
    O(82, neco_getstats(bad ? NULL : (neco_stats*)&S0))
    O(83, neco_wait(3, bad ? 0 : NECO_WAIT_READ)) O(84, neco_wait_dl(3, bad ? 3 : NECO_WAIT_WRITE, d))
    O(85, neco_stream_make(bad ? NULL : &sp, 3)) O(86, neco_stream_make_buffered(bad ? NULL : &sp, 3)) O(87, neco_stream_make(&sp, bad ? -1 : 3))
    O(88, neco_stream_close(B)) O(89, neco_stream_close_dl(B, d)) O(90, neco_stream_read(B, &token, 1)) O(91, neco_stream_read_dl(B, &token, 1, d))
    O(92, neco_stream_write(B, &token, 1)) O(93, neco_stream_write_dl(B, &token, 1, d)) O(94, neco_stream_readfull(B, &token, 1)) O(95, neco_stream_readfull_dl(B, &token, 1, d))
    O(96, neco_stream_read_byte(B)) O(97, neco_stream_read_byte_dl(B, d)) O(98, neco_stream_unread_byte(B)) O(99, neco_stream_flush(B)) O(100, neco_stream_flush_dl(B, d))
    O(101, neco_stream_buffered_read_size(B)) O(102, neco_stream_buffered_write_size(B))
    O(103, neco_setcanceltype(bad ? 77 : NECO_CANCEL_INLINE, &x)) O(104, neco_setcancelstate(bad ? 77 : NECO_CANCEL_DISABLE, &x))
    O(105, neco_signal_watch(bad ? 0 : 10)) O(106, neco_signal_unwatch(bad ? 32 : 10)) O(107, neco_startv(bad ? NULL : cofn, 0, NULL)) O(108, neco_startv(cofn, bad ? -1 : 0, NULL))
    }
    CHECK(0, "no such case");
    return 0;
}
static void vrun(int c) {
    int op = dig(&c, 128), bad = dig(&c, 2);
    world_init();
    posix_ = false; lasterr = 0;
    ME.canceled = nd_bool(); bool c0 = ME.canceled;
    two[0] = two[1] = &CH;
    errno = 0;
    if (!bad) rt = NULL;
    struct neco_chan ch0 = CH;
    int64_t r = call(op, bad);
    if (bad) { CHECK(r == NECO_INVAL, "an invalid argument is refused"); }
    else if (posix_) { CHECK(r == -1 && errno == EPERM, "refused outside of a coroutine"); }
    else CHECK(r == NECO_PERM, "refused outside of a coroutine");
    CHECK(lasterr == (bad ? NECO_INVAL : NECO_PERM), "and neco_lasterr tells why");
    CHECK(neco_lasterr() == lasterr, "neco_lasterr tells the last error");
    CHECK(ME.canceled == c0 && detached(&ME) && stats_same(), "nothing happens");
    CHECK(CH.rc == ch0.rc, "nothing is changed");
    (void)dummy;
    REACH(1, "case completes");
}
#endif
#ifdef U_CONV
static bool panicked;
void vc_trace(int s, bool c) { (void)s; (void)c; }
void vc_abort(void) { panicked = true; }
static bool same(const char *a, const char *b) { for (int i = 0; i < 24; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } return false; }
static const char *sysmsg; static int sysno;
char *vc_strerror(int e) { sysno = e; static char m[] = "system message"; return m; }
const char *vc_gai_strerror(int e) { sysno = -e; return "address message"; }
static void vrun(int c) {
    world_init();
    int op = dig(&c, 4);
    if (op == 0) {            // system errors
        errno = nd_int(); int e = errno;
        int r = neco_errconv_from_sys();
        CHECK(errno == e, "errno stays");
        CHECK(r == (e == EINVAL ? NECO_INVAL : e == EPERM ? NECO_PERM : e == ENOMEM ? NECO_NOMEM : e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR), "a system error is converted to its error code");
        errno = e;
        neco_errconv_to_sys(r);
        CHECK(IMP(r != NECO_ERROR, errno == e), "and back");
        REACH(r == NECO_TIMEDOUT, "converted");
    }
    if (op == 1) {            // messages
        static const char *const nm[19] = { "NECO_OK", "NECO_ERROR", "NECO_INVAL", "NECO_PERM", "NECO_NOMEM", "NECO_EOF", "NECO_NOTFOUND", "NECO_NOSIGWATCH", "NECO_CLOSED", "NECO_EMPTY", "NECO_TIMEDOUT", "NECO_CANCELED", "NECO_BUSY", "NECO_NEGWAITGRP", "NECO_GAIERROR", "NECO_UNREADFAIL", "NECO_PARTIALWRITE", "NECO_NOTGENERATOR", "NECO_NOTSUSPENDED" };
        static const int sys[19] = { 0, 1, EINVAL, EPERM, ENOMEM, 0, 0, 0, 0, 0, ETIMEDOUT, ECANCELED, EBUSY, 0, 1, 0, 0, 0, 0 };
        int k = dig(&c, 19);
        CHECK(same(neco_shortstrerror(-k), nm[k]), "every error code has its name");
        errno = 4321; neco_gai_errno = nd_bool() ? EAI_SYSTEM : 7;
        const char *m = neco_strerror(-k);
        CHECK(m && m[0], "every error code has a message");
        CHECK(!same(m, "Undefined error"), "that is its own");
        if (k == 1) CHECK(sysno == 4321, "a system error is explained by the system");
        else if (k == 14) CHECK(sysno == (neco_gai_errno == EAI_SYSTEM ? 4321 : -7), "an address error is explained by the resolver");
        else CHECK(sysno == sys[k], "common errors use the words of the system");
        if (!sys[k]) for (int i = 0; i < 19; i++) if (i != k && !sys[i]) CHECK(!same(m, neco_strerror(-i)), "two errors have two messages");
        (void)sysmsg;
        REACH(k == 5, "end of file");
    }
    if (op == 2) {            // what is recorded, and what panics
        env_paniconerror = nd_bool();
        errno = nd_int(); int e = errno; int64_t r = nd_i64(); ASSUME(r < 0 && r >= -18);
        errhpnd(r);
        int want = r == NECO_ERROR ? (errno = e, neco_errconv_from_sys()) : (int)r;
        CHECK(lasterr == want, "the error is recorded, a system error by its code");
        CHECK(panicked == (env_paniconerror && (want == NECO_INVAL || want == NECO_PERM || want == NECO_NOMEM)), "only misuse and lack of memory panic, if asked to");
        REACH(panicked, "panics"); REACH(!panicked && env_paniconerror, "does not");
    }
}
#endif
