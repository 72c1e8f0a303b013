// Contracts of the streams. neco_read_dl and neco_write_dl are used through
// their contracts (verified in units/io.c): bytes come in the order the
// descriptor delivers them, the written ones are a prefix of what was given.
#include "world.h"
static void unit_leave(int why) {
    CHECK(why == W_EXIT && ME.canceltype == NECO_CANCEL_ASYNC, "control is given up only to the descriptor's operation, or by an asynchronous cancel");
}
static void unit_env(int why) { (void)why; }
enum { CAP = 3, MAXB = 24 };
static struct { struct neco_stream s; char buf[CAP]; char guard[4]; } ST, ST2;
static char SEP[CAP+4];                       // a separate buffer
#ifdef U_SMAKE
static struct { struct neco_stream s; char buf[8192]; } BIG;
#define S (&BIG.s)
#else
#define S (&ST.s)
#endif
static int es; static int64_t dl0;
static char IN[MAXB]; static int nin;         // what the reader still has to get
static char OUT[MAXB]; static int nout;       // what was written to the descriptor
static int nrd, nwr, last_err, nfreeS, nfreeSep, nclosed; static bool sep_live, nomem, eof, canc_seen, wpart;
static int nalloc; static size_t asize;
static int reads_err(void) {
    int e = nd_int(); ASSUME(e > 0 && e < 133 && e != EAGAIN && e != EINTR);
    last_err = e; errno = e; lasterr = neco_errconv_from_sys();
    if (e == ECANCELED) { ASSUME(ME.canceltype == NECO_CANCEL_INLINE); canc_seen = true; ME.canceled = false; }
    return -1;
}
ssize_t vc_read(int fd, void *p, size_t n, int64_t dl) {
    CHECK(fd == 3 && dl == dl0, "reads from its descriptor, with the deadline");
    CHECK(n > 0 && __CPROVER_w_ok(p, n), "into memory of its own");
    if (nrd == 3) ASSUME(0);
    nrd++;
    int d = dig(&es, CAP + 2);
    if (d == CAP + 1) return reads_err();
    lasterr = 0;
    if (d == 0) { eof = true; return 0; }
    if ((size_t)d > n) d = (int)n;
    for (int i = 0; i < CAP; i++) if (i < d) { char b = (char)nd_u8(); ((char*)p)[i] = b; IN[nin++] = b; }
    return d;
}
ssize_t vc_write(int fd, const void *p, size_t n, int64_t dl) {
    CHECK(fd == 3 && dl == dl0, "writes to its descriptor, with the deadline");
    if (nwr == 3) ASSUME(0);
    nwr++;
    int d = dig(&es, CAP + 1);
    if (d == CAP && n > 0) return reads_err();
    int k = d == 0 || (size_t)d > n ? (int)n : d;
    for (int i = 0; i < 8; i++) if (i < k) OUT[nout++] = ((const char*)p)[i];
    lasterr = (size_t)k < n ? NECO_PARTIALWRITE : 0; errno = nd_int();
    wpart = (size_t)k < n;
    return k;
}
void *vc_malloc(size_t n) {
    nalloc++; asize = n;
    if (nomem) return NULL;
#ifdef U_SMAKE
    CHECK(n <= sizeof BIG, "a buffer of the default size");
    return &BIG;
#endif
    CHECK(n == CAP && !sep_live, "one buffer of the given size");
    sep_live = true;
    return SEP;
}
void vc_free(void *p) {
    if (!p) return;
    CHECK(p == S || (p == SEP && sep_live), "only own memory is freed, once");
    if (p == S) nfreeS++; else { nfreeSep++; sep_live = false; }
}
int close(int fd) { CHECK(fd == 3 && !nfreeS, "closes its descriptor"); nclosed++; return 0; }
static bool canceled_in;
// a stream with `rl` unread bytes behind `rp` consumed ones, and `wl` bytes to be written
// mem: 0 no buffer in use yet, 1 the reader's is the inner one, 2 the writer's is
static void mk(int rp, int rl, int wl, int mem) {
    world_init();
    ME.canceled = canceled_in = nd_bool();
    ME.canceltype = nd_bool() ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    S->fd = 3; S->rtid = R.id; S->buffered = true; S->cap = CAP;
    S->rd.pos = (size_t)rp; S->rd.len = (size_t)rl; S->wr.len = (size_t)wl;
    if (mem == 1) { S->rd.data = S->data; if (wl || nd_bool()) { S->wr.data = SEP; sep_live = true; } }
    if (mem == 2) { S->wr.data = S->data; if (rp + rl || nd_bool()) { S->rd.data = SEP; sep_live = true; } }
    for (int i = 0; i < CAP; i++) { ST.buf[i] = (char)nd_u8(); SEP[i] = (char)nd_u8(); }
    for (int i = 0; i < 4; i++) ST.guard[i] = SEP[CAP+i] = 0x5a;
    nin = 0;
    for (int i = 0; i < CAP; i++) if (i < rl) IN[nin++] = S->rd.data[rp + i];
}
static bool intact(void) {
    bool ok = true;
    for (int i = 0; i < 4; i++) ok = ok && ST.guard[i] == 0x5a && SEP[CAP+i] == 0x5a;
    return ok && S->fd == 3 && S->rtid == R.id && S->buffered && S->cap == CAP && S->rd.pos + S->rd.len <= CAP && S->wr.len <= CAP && (S->rd.data != S->wr.data || !S->rd.data);
}
static bool unread_is(int from) {           // what is buffered is IN[from..)
    if (S->rd.len != (size_t)(nin - from)) return false;
    bool ok = true;
    for (int i = 0; i < CAP; i++) if (i < nin - from) ok = ok && S->rd.data[S->rd.pos + (size_t)i] == IN[from + i];
    return ok;
}
static int codeof(int e) { return e == EINVAL ? NECO_INVAL : e == EPERM ? NECO_PERM : e == ENOMEM ? NECO_NOMEM : e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR; }

#ifdef U_SREAD
static void vrun(int c) {
    int form = dig(&c, 6), rp = dig(&c, CAP + 1), rl = dig(&c, CAP + 1), mem = dig(&c, 3), nb = dig(&c, 5); nomem = dig(&c, 2);
    es = c;
    mk(rp, rl, 0, mem);
    char data[8];
    for (int i = 0; i < 8; i++) data[i] = 0x33;
    dl0 = form == 1 || form == 3 || form == 5 ? INT64_MAX : nd_i64();
    char prev = rp ? S->rd.data[rp - 1] : 0;
    int want = form >= 4 ? 1 : nb;
    ssize_t r;
    if (form == 0) r = neco_stream_read_dl(S, data, (size_t)nb, dl0);
    else if (form == 1) r = neco_stream_read(S, data, (size_t)nb);
    else if (form == 2) r = neco_stream_readfull_dl(S, data, (size_t)nb, dl0);
    else if (form == 3) r = neco_stream_readfull(S, data, (size_t)nb);
    else {
        r = form == 4 ? neco_stream_read_byte_dl(S, dl0) : neco_stream_read_byte(S);
        if (r >= 0) { CHECK(r < 256, "a byte"); data[0] = (char)r; r = 1; }
    }
    int got = r > 0 ? (int)r : 0;
    CHECK(r <= want, "no more than asked for");
    for (int i = 0; i < 8; i++) CHECK(i < got ? data[i] == IN[i] : data[i] == 0x33 || i < want, "the bytes come in order, none lost or repeated");
    for (int i = want; i < 8; i++) CHECK(data[i] == 0x33, "nothing is written beyond the given memory");
    CHECK(intact() && unread_is(got), "what is not returned stays for the next read");
    bool fast = form >= 4 && rl > 0;
    if (!nomem || mem == 1 || rl || !nalloc) {
        CHECK(IMP(want > 0 && r == 0, 0), "no byte at all is an error or the end of the file");
        CHECK(IMP(r == NECO_EOF, eof && nin == 0), "EOF only at the end");
        CHECK(IMP(r < 0 && r != NECO_EOF, nrd || (fast && (r == NECO_CANCELED || r == NECO_TIMEDOUT))), "an error only if there was one");
        CHECK(IMP(r < 0 && r != NECO_EOF && nrd, last_err && (r == codeof(last_err) || r == -1)), "the error of the descriptor is reported");
        CHECK(IMP(form == 2 || form == 3, r == nb || eof || last_err), "readfull reads everything unless the input ends");
        CHECK(IMP(want > 0 && rl > 0, (form < 4 ? r > 0 : 1)), "buffered bytes are returned");
        CHECK(IMP(form < 2 && want > 0 && rl > 0, nrd == 0), "without waiting for more");
        CHECK(IMP(fast && !canceled_in && dl0 == INT64_MAX, r == 1), "a buffered byte is available");
    } else CHECK(r == NECO_NOMEM && nalloc == 1, "without memory for the buffer");
    if (!fast) CHECK(IMP(canc_seen, (r == NECO_CANCELED || r == -1) != ME.canceled), "a cancelation is reported or stays pending");
    else CHECK(IMP(canceled_in, r == NECO_CANCELED && !ME.canceled), "a pending cancel is reported");
    if (r < 0) CHECK(lasterr == (r == -1 ? codeof(errno) : (int)r), "the error is recorded");
    CHECK(IMP(r == 1 && form >= 4, lasterr == 0), "or none");
    // and the last byte can be unread
    if (r > 0 && !eof) {   // (an end seen behind it gives the buffer up)
        size_t p0 = S->rd.pos, l0 = S->rd.len;
        int u = neco_stream_unread_byte(S);
        CHECK(u == NECO_OK && S->rd.pos == p0 - 1 && S->rd.len == l0 + 1 && unread_is(got - 1), "the last byte read can be unread");
        CHECK(neco_stream_buffered_read_size(S) == (ssize_t)l0 + 1, "and counts as buffered");
    }
    (void)prev;
    REACH(r > 1, "several bytes"); REACH(r == NECO_EOF, "end"); REACH(r == NECO_TIMEDOUT, "timed out"); REACH(form == 2 && r > 0 && nrd == 2, "two reads"); REACH(r == NECO_NOMEM && nomem && nalloc, "no memory"); REACH(canc_seen && ME.canceled, "pending");
}
#endif

#ifdef U_SUNREAD
static void vrun(int c) {
    int rp = dig(&c, CAP + 1), rl = dig(&c, CAP + 1), mem = dig(&c, 3), kind = dig(&c, 4);
    mk(rp, rl, 0, mem);
    char first = rp ? S->rd.data[rp - 1] : 0;
    if (kind == 1) S->buffered = false;
    if (kind == 2) S->rtid = 9;
    struct neco_stream *s = kind == 3 ? NULL : S;
    int r = neco_stream_unread_byte(s);
    ssize_t n = neco_stream_buffered_read_size(s), w = neco_stream_buffered_write_size(s);
    int e = kind == 2 ? NECO_PERM : kind == 3 ? NECO_INVAL : 0;
    if (e) CHECK(r == e && n == e && w == e, "misuse is refused");
    else if (kind == 1) CHECK(r == NECO_UNREADFAIL && n == 0 && w == 0, "there is nothing buffered");
    else {
        CHECK(r == (rp ? NECO_OK : NECO_UNREADFAIL), "a byte that was read can be unread");
        CHECK(S->rd.pos == (size_t)(rp - (rp > 0)) && S->rd.len == (size_t)(rl + (rp > 0)) && n == (ssize_t)S->rd.len && w == 0, "it is the next one again");
        if (rp) CHECK(S->rd.data[S->rd.pos] == first, "unchanged");
    }
    REACH(rp && !kind, "unread");
}
#endif

#ifdef U_SWRITE
static void vrun(int c) {
    int form = dig(&c, 6), wl = dig(&c, CAP + 1), mem = dig(&c, 3), nb = dig(&c, 8); nomem = dig(&c, 2);
    es = c;
    mk(0, 0, wl, mem);
    char data[8], exp[16]; int ne = 0;
    for (int i = 0; i < 8; i++) data[i] = (char)nd_u8();
    for (int i = 0; i < CAP; i++) if (i < wl) exp[ne++] = S->wr.data[i];
    for (int i = 0; i < 8; i++) if (i < nb) exp[ne + i] = data[i];
    dl0 = form & 1 ? INT64_MAX : nd_i64();
    ssize_t r;
    if (form == 0) r = neco_stream_write_dl(S, data, (size_t)nb, dl0);
    else if (form == 1) r = neco_stream_write(S, data, (size_t)nb);
    else if (form == 2) r = neco_stream_flush_dl(S, dl0);
    else if (form == 3) r = neco_stream_flush(S);
    else if (form == 4) r = neco_stream_close_dl(S, dl0);
    else r = neco_stream_close(S);
    int acc = form < 2 && r > 0 ? (int)r : 0;
    bool oom = nomem && nalloc;
    // everything accepted so far is, in order, either written or still buffered
    for (int i = 0; i < 16; i++) if (i < nout) CHECK(i < ne + acc && OUT[i] == exp[i], "bytes are written in order, once");
    if (form < 4) {
        CHECK(intact() && nfreeS == 0 && nclosed == 0, "the stream stays usable");
        CHECK(nout + (int)S->wr.len == ne + acc, "no byte is lost or doubled");
        for (int i = 0; i < CAP; i++) if (i < (int)S->wr.len) CHECK(S->wr.data[i] == exp[nout + i], "what is not written yet stays buffered");
        CHECK(neco_stream_buffered_write_size(S) == (ssize_t)S->wr.len, "and counts as buffered");
        lasterr = lasterr;
    } else {
        CHECK(nclosed == 1 && nfreeS == 1 && !sep_live, "a closed stream is released with its descriptor");
        CHECK(IMP(r == NECO_OK, nout == ne), "OK only if everything was written");
    }
    bool failed = last_err != 0;
    if (oom) CHECK(r == NECO_NOMEM, "without memory for the buffer");
    else if (form < 2) {
        CHECK(IMP(!failed && !wpart, r == nb), "everything is accepted unless the descriptor fails");
        CHECK(IMP(r < 0, failed || wpart), "an error only if there was one");
        CHECK(r != 0 || nb == 0, "nothing accepted is an error");
    } else {
        CHECK(IMP(!failed && !wpart, r == NECO_OK), "a flush succeeds unless the descriptor fails");
        CHECK(IMP(form < 4 && r == NECO_OK, S->wr.len == 0), "and leaves nothing behind");
        CHECK(IMP(failed || wpart, r < 0), "a failed flush says so");
    }
    CHECK(IMP(r < 0 && failed && !wpart, r == codeof(last_err) || r == -1), "the error of the descriptor is reported");
    CHECK(IMP(r < 0 && wpart && !failed, r == NECO_PARTIALWRITE), "a partial write is reported");
    CHECK(IMP(canc_seen, (r == NECO_CANCELED) != ME.canceled), "a cancelation is reported or stays pending");
    REACH(acc > 0 && nout > 0, "written and accepted"); REACH(form == 2 && r == NECO_PARTIALWRITE, "partial"); REACH(canc_seen && ME.canceled, "pending"); REACH(form >= 4 && r < 0, "closed with an error");
    REACH(acc > CAP, "more than the buffer");
}
#endif

#ifdef U_SRAW
// unbuffered streams are the descriptor itself
static int rr; static const void *rp_; static size_t rn; static int k_;
ssize_t vc_read2(int fd, void *p, size_t n, int64_t dl) { CHECK(fd == 3 && dl == dl0, "its descriptor"); k_ = 1; rp_ = p; rn = n; rr = nd_int(); ASSUME(rr >= -1 && rr <= 8 && (size_t)rr + 1 <= n + 1); if (rr < 0) errno = ETIMEDOUT; lasterr = rr < 0 ? NECO_TIMEDOUT : 0; return rr; }
ssize_t vc_write2(int fd, const void *p, size_t n, int64_t dl) { CHECK(fd == 3 && dl == dl0, "its descriptor"); k_ = 2; rp_ = p; rn = n; rr = nd_int(); ASSUME(rr >= -1 && rr <= 8); if (rr < 0) errno = ETIMEDOUT; lasterr = rr < 0 ? NECO_TIMEDOUT : 0; return rr; }
static void vrun(int c) {
    int form = dig(&c, 4), kind = dig(&c, 3);
    mk(0, 0, 0, 0);
    S->buffered = false;
    S->rd.data = S->wr.data = (void*)1; S->rd.len = S->wr.len = S->cap = (size_t)-1;   // not part of an unbuffered stream
    if (kind == 1) S->rtid = 9;
    struct neco_stream *s = kind == 2 ? NULL : S;
    dl0 = nd_i64(); char d[8]; size_t n = nd_size(); ASSUME(n <= 8);
    ssize_t r = form == 0 ? neco_stream_read_dl(s, d, n, dl0) : form == 1 ? neco_stream_write_dl(s, d, n, dl0) : form == 2 ? neco_stream_close_dl(s, dl0) : neco_stream_release(s);
    if (kind) CHECK(r == (kind == 1 ? NECO_PERM : NECO_INVAL) && !k_ && !nclosed && !nfreeS && lasterr == r, "misuse is refused");
    else if (form < 2) CHECK(k_ == form + 1 && rp_ == d && rn == n && r == (rr == 0 && n && form == 0 ? NECO_EOF : rr), "the operation of the descriptor");
    else CHECK(r == NECO_OK && nclosed == (form == 2) && nfreeS == 1 && !k_, "released, and closed by a close");
    REACH(form == 0 && r == NECO_EOF, "end"); REACH(nfreeS, "released");
}
#endif

#ifdef U_SREL
static void vrun(int c) {
    int wl = dig(&c, 2), mem = dig(&c, 3), rl = dig(&c, 2);
    mk(0, rl, wl, mem);
    int r = neco_stream_release(S);
    CHECK(r == NECO_OK && nfreeS == 1 && !sep_live && !nclosed && lasterr == 0, "a released stream is freed with its buffers, its descriptor stays open");
    REACH(nfreeSep, "two buffers");
}
#endif

#ifdef U_SMAKE
static void vrun(int c) {
    int form = dig(&c, 3), bad = dig(&c, 4); nomem = dig(&c, 2);
    world_init();
    struct neco_stream *s = (void*)&s, **sp = bad == 1 ? NULL : &s;
    for (int i = 0; i < CAP; i++) ST.buf[i] = (char)nd_u8();
    S->rd.len = nd_size(); S->wr.len = nd_size(); S->rd.pos = nd_size(); S->rd.data = S->wr.data = (void*)&ST2;
    int fd = bad == 2 ? -1 : nd_int(); ASSUME(bad == 2 || fd >= 0);
    if (bad == 3) rt = NULL;
    int r = form == 0 ? neco_stream_make(sp, fd) : form == 1 ? neco_stream_make_buffered(sp, fd) : neco_stream_make_buffered_size(sp, fd, CAP);
    CHECK(r == (bad == 1 || bad == 2 ? NECO_INVAL : bad == 3 ? NECO_PERM : nomem ? NECO_NOMEM : NECO_OK), "the result of a make");
    CHECK(lasterr == (r < 0 ? r : 0), "the error is recorded");
    if (r == NECO_OK) {
        CHECK(s == S && S->fd == fd && S->rtid == R.id && S->buffered == (form > 0) && nalloc == 1, "a stream for the descriptor");
        if (form) CHECK(!S->rd.data && !S->wr.data && !S->rd.len && !S->wr.len && !S->rd.pos && S->cap > 0 && asize >= sizeof(struct neco_stream) + S->cap, "with an empty buffer");
        if (form == 2) CHECK(S->cap == CAP, "of the given size");
        else CHECK(asize >= offsetof(struct neco_stream, rd), "with the memory it needs");
    }
    REACH(r == NECO_OK, "made");
}
#endif
