// Contracts of the stack allocator: what a coroutine's stack is, over every
// history of takes and returns up to a length (U_HIST), and the layout for all
// sizes (U_LAYOUT).  The mapping calls are stubs that keep a ledger.
#define _GNU_SOURCE
#include "vc.h"
#include <sys/mman.h>
#include <unistd.h>
static void *vs_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off);
static int vs_munmap(void *a, size_t n);
static int vs_mprotect(void *a, size_t n, int prot);
static long vs_sysconf(int w);
static void *vs_malloc(size_t n); static void vs_free(void *p);
#if defined(U_HIST) && !defined(REPLAY)
void *vs_memset(void *p, int c, size_t n);   // memset, typed where the object is known
#define memset vs_memset
#endif
static char mapfailed;
#undef MAP_FAILED                            // a concrete address that is nobody else's
#define MAP_FAILED ((void*)&mapfailed)
#define mmap vs_mmap
#define munmap vs_munmap
#define mprotect vs_mprotect
#define sysconf vs_sysconf
#define malloc vs_malloc
#define free vs_free
#include NECO_C
enum { PAGE = 128, NARENA = 5, ASZ = 1024, MAXS = 8 };
static bool guards, nofree, keep;
static int failmap, failprot;          // the call that fails
static int nmap, nprot;
// typed as the allocator sees them, so that their pointers stay concrete
static struct stack0 S_[MAXS];
#define SP(i) ((struct stack*)&S_[i])
static bool used[MAXS]; static int order[MAXS], nused;
static long vs_sysconf(int w) { CHECK(w == _SC_PAGESIZE, "the page size"); return PAGE; }
static char heap1[512]; static int nheap; static size_t heapsz;
static void *vs_malloc(size_t n) { nheap++; heapsz = n; return failmap ? NULL : heap1; }
static void vs_free(void *p) { CHECK(p == heap1 && nheap == 1, "heap stacks are freed once"); nheap--; }
#ifdef U_HIST
// a block: its header in the first page, every page can hold the link of a freed stack
struct page { struct stack_freed f; char rest[PAGE - sizeof(struct stack_freed)]; };
struct block { struct stack_group g; char rest[PAGE - sizeof(struct stack_group)]; struct page p[ASZ/PAGE - 1]; };
static _Alignas(128) struct block A0, A1, A2, A3, A4;
#define ARENA(i) ((char*)((i) == 0 ? &A0 : (i) == 1 ? &A1 : (i) == 2 ? &A2 : (i) == 3 ? &A3 : &A4))
#define FIRST(i, off) ((i) == 0 ? &A0.p[(off)/PAGE-1].f : (i) == 1 ? &A1.p[(off)/PAGE-1].f : (i) == 2 ? &A2.p[(off)/PAGE-1].f : (i) == 3 ? &A3.p[(off)/PAGE-1].f : &A4.p[(off)/PAGE-1].f)
static size_t mapped[NARENA];
static bool prot[NARENA][ASZ/PAGE];
static size_t size_, gap_;
static int arena_of(void *p, size_t *off) {
    for (int i = 0; i < NARENA; i++)
        for (size_t k = 0; k < ASZ; k += PAGE)       // every address of interest is that of a page
            if ((char*)p == ARENA(i) + k) { *off = k; return i; }
    return -1;
}
static bool overlaps(void *a, size_t n, int s) {
    char *b = stack_addr(SP(s));
    size_t o1, o2; int i = arena_of(a, &o1), j = arena_of(b, &o2);
    return i == j && o1 < o2 + stack_size(SP(s)) && o2 < o1 + n;
}
static struct stack_mgr0 M_;
#define M (*(struct stack_mgr*)&M_)
#ifndef REPLAY
void *vs_memset(void *p, int c, size_t n) {
    size_t o; int i = arena_of(p, &o);
    if (c == 0 && i >= 0 && o == 0 && n == sizeof(struct stack_group)) {
        struct stack_group z = { 0 };
        if (i == 0) A0.g = z; else if (i == 1) A1.g = z; else if (i == 2) A2.g = z; else if (i == 3) A3.g = z; else A4.g = z;
    } else if (c == 0 && p == &M_ && n == sizeof(M_)) { struct stack_mgr0 z = { 0 }; M_ = z; }
    else for (size_t k = 0; k < n; k++) ((char*)p)[k] = (char)c;
    return p;
}
#endif
static int putting = -1; static bool released_pages;
static void *vs_mmap(void *a, size_t n, int pr, int flags, int fd, off_t off) {
    (void)off;
    CHECK((pr & (PROT_READ|PROT_WRITE)) == (PROT_READ|PROT_WRITE) && (flags & MAP_ANONYMOUS) && fd == -1, "usable memory is mapped");
    if (flags & MAP_FIXED) {           // the pages of a stack that is given back
        size_t o, so; int i = arena_of(a, &o);
        CHECK(putting >= 0, "only a stack that is given back is mapped anew");
        int j = arena_of(stack_addr(SP(putting)), &so);
        CHECK(i == j && o % PAGE == 0 && o >= so && o + n <= so + size_, "only its own pages");
        released_pages = o <= so + PAGE && o + n == so + size_;
        return a;
    }
    CHECK(putting < 0 && a == NULL, "stacks are mapped only when one is needed");
    nmap++;
    if (nmap == failmap) return MAP_FAILED;
    for (int i = 0; i < NARENA; i++) if (!mapped[i]) {
        CHECK(n > 0 && n <= ASZ, "(room in the harness)");
        mapped[i] = n;
        for (size_t k = 0; k < ASZ/PAGE; k++) prot[i][k] = false;
        return ARENA(i);
    }
    CHECK(0, "blocks of unused stacks are given back");
    return MAP_FAILED;
}
static int vs_munmap(void *a, size_t n) {
    size_t o; int i = arena_of(a, &o);
    CHECK(i >= 0 && o == 0 && mapped[i] == n, "a mapped block is given back whole, and once");
    for (int s = 0; s < MAXS; s++) if (used[s]) { size_t so; CHECK(arena_of(stack_addr(SP(s)), &so) != i, "never while one of its stacks is in use"); }
    mapped[i] = 0;
    return 0;
}
static int vs_mprotect(void *a, size_t n, int pr) {
    nprot++;
    size_t o; int i = arena_of(a, &o);
    CHECK(guards && pr == PROT_NONE && i >= 0 && mapped[i] && o % PAGE == 0 && n % PAGE == 0 && o >= PAGE && o + n <= mapped[i], "guards lie in the block, behind its header");
    if (nprot == failprot) { errno = ENOMEM; return -1; }
    for (int s = 0; s < MAXS; s++) if (used[s]) CHECK(!overlaps(a, n, s), "never on a stack in use");
    for (size_t k = 0; k < n / PAGE; k++) prot[i][o / PAGE + k] = true;
    return 0;
}
static bool block_in_use(int i) {
    for (int s = 0; s < MAXS; s++) { size_t so; if (used[s] && arena_of(stack_addr(SP(s)), &so) == i) return true; }
    return false;
}
static bool untouched(int s) {
    size_t off; int i = arena_of(stack_addr(SP(s)), &off);
    struct stack_freed *u = FIRST(i, off);
    return u->prev == (void*)&used[s] && u->next == (void*)&used[s] && u->group == (void*)&used[s];
}
static int nfreed;                      // given back and not yet reused, in blocks still mapped
static char *freed[MAXS];
static bool failed;
static void get(void) {
    int s = 0; while (used[s]) s++;
    int m0 = nmap, p0 = nprot;
    int ret = stack_get(&M, SP(s));
    bool fail = (failmap && nmap == failmap && m0 < failmap) || (failprot && nprot == failprot && p0 < failprot);
    CHECK(ret == (fail ? -1 : 0), "a stack is given unless there is no memory");
    if (ret != 0) { failed = true; return; }
    char *a = stack_addr(SP(s));
    size_t off; int i = arena_of(a, &off);
    CHECK(stack_size(SP(s)) == size_, "of the size asked for");
    CHECK(i >= 0 && mapped[i] && off % PAGE == 0 && off >= PAGE && off + size_ + gap_ <= mapped[i], "in memory of its own, on a page boundary");
    for (int t = 0; t < MAXS; t++) if (used[t]) CHECK(!overlaps(a, size_ + gap_, t) && !overlaps(a - gap_, gap_, t), "apart from every other stack in use");
    for (size_t k = 0; k < size_ / PAGE; k++) CHECK(!prot[i][off / PAGE + k], "usable");
    if (guards) CHECK(prot[i][off / PAGE - 1] && prot[i][(off + size_) / PAGE], "between two guards");
    bool re = false;
    for (int k = 0; k < nfreed; k++) if (freed[k] == a) { re = true; for (int q = k; q + 1 < nfreed; q++) freed[q] = freed[q+1]; nfreed--; break; }
    if (!nofree) CHECK(re || nfreed == 0, "a stack that was given back is used first");
    if (!nofree) CHECK(IMP(re, nmap == m0 && nprot == p0), "without asking the system");
    used[s] = true; order[nused++] = s;
    struct stack_freed *u = FIRST(i, off);   // the coroutine uses it
    u->prev = u->next = (void*)&used[s]; u->group = (void*)&used[s];
    REACH(re, "reuse");
    REACH(!re && nmap > 1, "another block");
}
static void put(int k) {
    int s = order[k];
    char *a = stack_addr(SP(s));
    CHECK(untouched(s), "nobody else writes to a stack in use");
    used[s] = false;
    for (int q = k; q + 1 < nused; q++) order[q] = order[q+1];
    nused--;
    putting = s; released_pages = false;
    stack_put(&M, SP(s));
    putting = -1;
    size_t off; int i = arena_of(a, &off);
    CHECK(block_in_use(i) == (mapped[i] != 0), "a block is given back when its last stack is");
    CHECK(IMP(mapped[i] && !keep && size_ > PAGE, released_pages), "the pages of an unused stack go back to the system");
    if (mapped[i]) freed[nfreed++] = a;
    else { int w = 0; for (int q = 0; q < nfreed; q++) { size_t o2; if (arena_of(freed[q], &o2) != i) freed[w++] = freed[q]; } nfreed = w; }
    REACH(!mapped[i], "block given back");
    REACH(mapped[i] != 0, "block kept");
}
static void vrun(int c) {
    guards = dig(&c, 2); nofree = dig(&c, 2); keep = dig(&c, 2);
    int f = dig(&c, 7);                  // 0 all goes well, 1..3 a mapping fails, 4..6 a guard
    if (f >= 1 && f <= 3) failmap = f; else if (f) failprot = f - 3;
    int sz = dig(&c, 2);
    size_ = sz ? 2 * PAGE : PAGE; gap_ = PAGE;
    struct stack_opts o = { .stacksz = sz ? PAGE + 1 : 3, .defcap = 1, .maxcap = 2, .gapsz = 1, .useguards = guards, .nostackfreelist = nofree, .nopagerelease = keep };
    stack_mgr_init(&M, &o);
    // the history: base 5 digits; 0 end, 1 take, 2 return the oldest, 3 the newest, 4 the second
    while (c) {
        int k = dig(&c, 5);
        if (k == 1) get();
        else if (nused > 0) put(k == 2 ? 0 : k == 3 ? nused - 1 : nused > 1 ? 1 : 0);
    }
    for (int s = 0; s < MAXS; s++) if (used[s]) { CHECK(untouched(s), "nobody else writes to a stack in use"); used[s] = false; }
    stack_mgr_destroy(&M);
    for (int i = 0; i < NARENA; i++) CHECK(!mapped[i], "in the end every block is given back");
    REACH(failed, "no memory");
}
#endif
#ifdef U_LAYOUT
// one block, all sizes: addresses as offsets
static _Alignas(128) char base[PAGE]; static size_t total;
static size_t size_, gap_;
#ifdef REPLAY
static size_t off(void *p) { return (size_t)((uintptr_t)p - (uintptr_t)base); }
#else
static size_t off(void *p) { CHECK(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(base), "in the block"); return (size_t)__CPROVER_POINTER_OFFSET(p); }
#endif
static size_t pb[8], pe[8];             // guards so far
static void *vs_mmap(void *a, size_t n, int pr, int flags, int fd, off_t o) {
    (void)pr; (void)o; (void)flags; (void)fd;
    CHECK(a == NULL, "no release in this unit");
    nmap++; CHECK(nmap == 1, "one block has room for as many stacks as it was made for");
    total = n;
    return base;
}
static int vs_munmap(void *a, size_t n) { (void)a; (void)n; CHECK(0, "nothing is given back here"); return 0; }
static int vs_mprotect(void *a, size_t n, int pr) {
    CHECK(pr == PROT_NONE && nprot < 8, "guards");
    pb[nprot] = off(a); pe[nprot] = off(a) + n; nprot++;
    CHECK(off(a) >= PAGE && off(a) % PAGE == 0 && n % PAGE == 0 && off(a) + n <= total && n > 0, "guards lie in the block, behind its header");
    return 0;
}
static void vrun(int c) {
    static const size_t caps[] = { 1, 2, 3, 4, 8, 64, 1000, 8192 };
    size_t cap = caps[dig(&c, 8)]; guards = dig(&c, 2);
    if (dig(&c, 2)) {                    // stacks from the heap
        struct stack_mgr0 M_; struct stack0 s_;
#define M (*(struct stack_mgr*)&M_)
#define s1 (*(struct stack*)&s_)
        struct stack_opts o = { .stacksz = nd_size(), .onlymalloc = true };
        ASSUME(o.stacksz < (size_t)1 << 40);
        failmap = nd_bool();
        stack_mgr_init(&M, &o);
        int ret = stack_get(&M, &s1);
        CHECK(ret == (failmap ? -1 : 0), "a heap stack is given unless there is no memory");
        if (ret == 0) {
            CHECK(stack_addr(&s1) == heap1 && stack_size(&s1) == heapsz && heapsz >= (o.stacksz ? o.stacksz : 1) && heapsz % PAGE == 0, "of at least the size asked for");
            stack_put(&M, &s1);
            CHECK(nheap == 0, "and is freed when given back");
        }
        stack_mgr_destroy(&M);
        return;
    }
    size_t ask = nd_size(), gap = nd_size();
    ASSUME(ask >= 1 && ask < (size_t)1 << 26 && gap >= 1 && gap < (size_t)1 << 26);
    // more than one stack: whole pages (the rounding is decided with one)
    if (cap > 1) { ASSUME(ask < (size_t)1 << 17 && gap < (size_t)1 << 17); ask *= PAGE; gap *= PAGE; }
    struct stack_mgr0 M_; struct stack0 s_[4];
#define SI(i) (*(struct stack*)&s_[i])
    struct stack_opts o = { .stacksz = ask, .defcap = cap, .maxcap = cap, .gapsz = gap, .useguards = guards, .nostackfreelist = true };
    stack_mgr_init(&M, &o);
    int n = cap < 4 ? (int)cap : 4;
    size_t last = 0;
    for (int i = 0; i < n; i++) {
        int p0 = nprot;
        CHECK(stack_get(&M, &SI(i)) == 0, "a stack is given");
        size_t a = off(stack_addr(&SI(i))), z = stack_size(&SI(i));
        CHECK(z >= ask && z < ask + PAGE && z % PAGE == 0, "whole pages, at least what was asked for");
        CHECK(a % PAGE == 0 && a >= PAGE + gap && a >= last + (i ? gap : 0) && a + z + gap <= total, "apart from the header and from every other stack by the gap, inside the block");
        CHECK(total >= (z + gap) * cap, "room for all stacks of the block");
        size_t prev = last;
        last = a + z;
        // guards come in the order of the stacks: those of this call and the one before
        bool below = false, above = false;
        for (int k = i ? p0 - 1 : 0; k < nprot && k >= 0; k++) {
            CHECK(IMP(k >= p0, pb[k] >= prev) && (pe[k] <= a || pb[k] >= a + z), "no guard on a stack");
            if (pe[k] == a) below = true;
            if (pb[k] == a + z) above = true;
        }
        CHECK(IMP(guards, below && above), "each stack between two guards");
    }
    REACH(guards, "with guards");
    REACH(n == 4, "four stacks");
}
#endif
