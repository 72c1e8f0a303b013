// Contract of the life of a runtime: neco_start outside of a coroutine runs the
// scheduler until nobody is left, and gives everything back, whatever fails.
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
struct worker; struct worker_opts; struct stack_mgr; struct stack_opts; struct coroutine; struct neco_gen;
void *vc_malloc(size_t n); void vc_free(void *p); void vc_stk_init(struct stack_mgr *m, struct stack_opts *o); void vc_stk_destroy(struct stack_mgr *m);
struct worker *vc_wnew(struct worker_opts *o); void vc_wfree(struct worker *w); int vc_main(void); void vc_cofree(struct coroutine *co);
int vc_start(void(*f)(int, void**), int argc, va_list *args, void *argv[], struct neco_gen **gen, size_t sz);
bool vc_active(void); size_t vc_paused(void); void vc_paused_step(void); void vc_rc_step(void); void vc_resume(int64_t id);
#include "world.h"
static int fail, rounds, npooled, mainthr; static bool qf;
static char mem[3][8]; static int nmem; static bool live[3], freed[3];
static int stk, wrk, started, steps, rcs, resumes, closes, cofrees; static bool inrun, done_;
static struct worker *W; static char wobj[8];
static struct runtime RT;
static int64_t ids[2];
static struct { void *h; int fl; } disp[32], disp0[32];
static void *alt, *alt0; static int altfl, altfl0; static size_t altsz, altsz0;
static void unit_leave(int why) { (void)why; CHECK(0, "not a coroutine"); }
static void unit_env(int why) { (void)why; }
static const int WATCH[] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM, SIGILL, SIGFPE, SIGSEGV, SIGBUS, SIGTRAP };
static bool watched(int s) { for (unsigned i = 0; i < sizeof WATCH / sizeof *WATCH; i++) if (WATCH[i] == s) return true; return false; }
void *vc_malloc(size_t n) {
    if (n == sizeof(struct runtime)) { CHECK(!live[2], "one runtime"); if (fail == 1) return NULL; live[2] = true; return &RT; }
    CHECK(nmem < 2 && n > 8, "memory is requested");
    if (fail == 2) return NULL;
    live[nmem] = true;
    return mem[nmem++];
}
void vc_free(void *p) {
    if (!p) return;
    CHECK(p != alt || (altfl & SS_DISABLE), "the signal stack is not freed while in use");
    if (p == (void*)&RT) { CHECK(live[2] && !freed[2], "freed once"); CHECK(!stk && !wrk, "the runtime is given back last"); live[2] = false; freed[2] = true; return; }
    int i = p == (void*)mem[0] ? 0 : p == (void*)mem[1] ? 1 : -1;
    CHECK(i >= 0 && live[i], "only what was allocated is freed, once");
    if (i >= 0) live[i] = false;
}
void vc_stk_init(struct stack_mgr *m, struct stack_opts *o) { (void)o; CHECK(m == &rt->stkmgr && !stk, "the stacks are set up once"); stk = 1; }
void vc_stk_destroy(struct stack_mgr *m) { CHECK(m == &rt->stkmgr && stk == 1, "the stacks are given back once"); stk = 0; }
struct worker *vc_wnew(struct worker_opts *o) {
    CHECK(o->malloc == malloc0 && o->free == free0, "the workers use the allocator of the program");
    if (fail == 3) return NULL;
    wrk = 1; return W = (void*)wobj;
}
void vc_wfree(struct worker *w) { CHECK(w == (wrk ? W : NULL), "the workers are ended"); wrk = 0; }
int vc_main(void) { return mainthr; }
void vc_cofree(struct coroutine *co) { CHECK(stk == 1, "a coroutine is given back before the memory of its stack"); CHECK(coidx(co) > 0 && detached(co), "from the pool"); cofrees++; }
static void cofn(int c, void *v[]) { (void)c; (void)v; }
static void *args_[2];
int vc_start(void(*f)(int, void**), int argc, va_list *args, void *argv[], neco_gen **gen, size_t sz) {
    CHECK(f == cofn && argc == 2 && argv == args_ && !args && !gen, "the first coroutine is the given one"); (void)sz;
    CHECK(rt == &RT && stk == 1 && wrk == 1 && rt->worker == W && rt->mainthread == mainthr, "on a runtime that is ready");
    CHECK(list_is(&rt->pool, 0,0,0,0) && list_is(&rt->resumers, 0,0,0,0) && list_is(&rt->iolist, 0,0,0,0) && list_is(&rt->sigwaiters, 0,0,0,0), "and empty");
    CHECK(rt->all.count == 0 && rt->nsleepers == 0 && rt->nsuspended == 0 && rt->sigmask == 0, "and counts nobody");
    CHECK(rt->id != 0, "with an identifier");
    if (fail == 4) return NECO_NOMEM;
    started++;
    for (int i = 0; i < npooled; i++) { CO(i)->next = CO(i)->prev = CO(i); colist_push_back(&rt->pool, CO(i)); }
    rt->npool = npooled;
    rt->qfd = qf ? 6 : 0;
    return NECO_OK;
}
static bool paused_now;
bool vc_active(void) { CHECK(started == 1, "runs what was started"); paused_now = nd_bool(); return resumes < rounds; }
size_t vc_paused(void) { return paused_now; }
void vc_paused_step(void) {
    for (int s = 1; s < 32; s++) CHECK(IMP(mainthr && watched(s), disp[s].h == (void*)sighandler && (disp[s].fl & SA_SIGINFO)), "while it runs, its signals reach it");
    for (int s = 1; s < 32; s++) CHECK(IMP(!mainthr || !watched(s), disp[s].h == disp0[s].h), "all others are left alone");
    CHECK(paused_now && steps == resumes, "the paused get a turn in each round"); steps = resumes + 1;
}
void vc_rc_step(void) { CHECK(rcs == resumes, "memory is given back in each round"); rcs++; }
void vc_resume(int64_t id) { CHECK(id == 0 && rcs == resumes + 1 && (steps == resumes + 1 || !paused_now), "each round serves the paused first, then runs the runnable"); resumes++; if (steps < resumes) steps = resumes; }
int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    CHECK(s > 0 && s < 32, "a signal");
    if (o) { memset(o, 0, sizeof *o); o->sa_sigaction = disp[s].h; o->sa_flags = disp[s].fl; }
    if (a) { disp[s].h = (void*)a->sa_sigaction; disp[s].fl = a->sa_flags; }
    return 0;
}
int sigemptyset(sigset_t *s) { (void)s; return 0; }
int sigaltstack(const stack_t *s, stack_t *o) {
    if (o) { o->ss_sp = alt; o->ss_flags = altfl; o->ss_size = altsz; }
    if (s) { alt = s->ss_sp; altfl = s->ss_flags; altsz = s->ss_size; }
    return 0;
}
int close(int fd) { CHECK(fd == 6 && qf && started, "only its own queue is closed"); closes++; return 0; }
int dlclose(void *h) { (void)h; return 0; }
static void once(int k) {
    nmem = stk = wrk = started = steps = rcs = resumes = closes = cofrees = 0;
    live[0] = live[1] = live[2] = freed[2] = false;
    int r = neco_startv(cofn, 2, args_);
    CHECK(r == (fail ? NECO_NOMEM : NECO_OK) && lasterr == r, "the result is told");
    CHECK(!rt, "the runtime is gone");
    CHECK(!live[0] && !live[1] && !live[2], "no memory is left behind");
    CHECK(!stk && !wrk, "no stacks and no workers are left behind");
    CHECK(closes == (!fail && qf) && cofrees == (fail ? 0 : npooled), "no queue and no coroutine is left behind");
    CHECK(IMP(!fail, started == 1 && resumes == rounds), "it runs until nobody is left");
    for (int s = 1; s < 32; s++) CHECK(disp[s].h == disp0[s].h && disp[s].fl == disp0[s].fl, "the signal handlers of the program are back");
    CHECK(altfl == altfl0 && (altfl & SS_DISABLE || (alt == alt0 && altsz == altsz0)), "the signal stack of the program is back");
    (void)k;
}
static void vrun(int c) {
    world_init();
    rt = NULL; self_ = NULL;
    fail = dig(&c, 5); mainthr = dig(&c, 2); rounds = dig(&c, 3); npooled = dig(&c, 3); qf = dig(&c, 2);
    static char hobj[32];
    for (int s = 0; s < 32; s++) { disp[s].h = disp0[s].h = &hobj[s]; disp[s].fl = disp0[s].fl = nd_int(); }
    altfl = altfl0 = nd_bool() ? SS_DISABLE : 0; static char astk[8]; alt = alt0 = astk; altsz = altsz0 = nd_size();
    once(0);
    REACH(1, "completes");
}
