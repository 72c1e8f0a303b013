// Contracts of the balanced trees (AA-trees) behind the coroutine map, the
// deadline queue, the event map and the map of paused coroutines.
//   U_CMP     the order of each tree is a total order on its keys (all keys)
//   U_SHAPES  every operation on every tree of at most two levels and some of
//             three: real recursion and loops
//   U_INDUCT  the recursive operations on trees of three or more levels, any
//             size: recursive calls by contract, subtrees below the second
//             level opaque (their links must not be followed)
#define _GNU_SOURCE
#include "vc.h"
#ifndef REPLAY
#define malloc vc_malloc
#define free vc_free
void *vc_malloc(size_t n); void vc_free(void *p);
#endif
#if TREE == 4
// The tree links of a paused coroutine share memory with its list links, which
// the tree operations do not use: laid out side by side here, so that the
// verifier can track them.  The system headers are not affected.
#include "world_headers.h"
#define union struct
#endif
#include NECO_C
#undef union
#if TREE == 1
typedef struct coroutine T; 
#define F(x) all_##x
#define LEFT all_left
#define RIGHT all_right
#define LEVEL all_level
#define CMP all_compare
#define SETKEY(n, k) ((n)->id = (k))
#elif TREE == 2
typedef struct coroutine T;
#define F(x) dlqueue_##x
#define LEFT dl_left
#define RIGHT dl_right
#define LEVEL dl_level
#define CMP dl_compare
#define SETKEY(n, k) ((n)->deadline = (k) / 4, (n)->id = (k) % 4)
#elif TREE == 3
typedef struct coroutine T;
#define F(x) evaat_##x
#define LEFT evleft
#define RIGHT evright
#define LEVEL evlevel
#define CMP evcompare
#define SETKEY(n, k) ((n)->evfd = (k) / 8, (n)->evkind = (k) / 4 % 2 ? EVWRITE : EVREAD, (n)->id = (k) % 4)
#else
typedef struct sco T;
#define F(x) sco_aat_##x
#define LEFT left
#define RIGHT right
#define LEVEL level
#define CMP sco_compare
#define SETKEY(n, k) ((n)->id = (k))
#endif
#if TREE == 4      // only this tree gets the full set of cases
#define REACHT REACH
#else
#define REACHT(c, t)
#endif
#ifdef U_CMP
static T A, B, C;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void key(T *t) {
    t->id = nd_i64();
#if TREE == 2
    t->deadline = nd_i64();
#elif TREE == 3
    t->evfd = nd_int(); t->evkind = nd_bool() ? EVREAD : EVWRITE;
#endif
}
static int spec(T *a, T *b) {
#if TREE == 2
    if (a->deadline != b->deadline) return a->deadline < b->deadline ? -1 : 1;
#elif TREE == 3
    if (a->evfd != b->evfd) return a->evfd < b->evfd ? -1 : 1;
    if (a->evkind != b->evkind) return 2;      // either order
#endif
    return a->id < b->id ? -1 : a->id > b->id;
}
static void vrun(int c) {
    (void)c;
    key(&A); key(&B); key(&C);
    int ab = sgn(CMP(&A, &B)), ba = sgn(CMP(&B, &A)), bc = sgn(CMP(&B, &C)), ac = sgn(CMP(&A, &C)), s = spec(&A, &B);
    CHECK(ab == -ba, "antisymmetric");
    CHECK(IMP(ab <= 0 && bc <= 0, ac <= 0), "transitive");
    CHECK(s == 2 ? ab != 0 : ab == s, "orders by its key, and only equal keys are equal");
#if TREE == 3
    if (A.evfd == B.evfd && B.evfd == C.evfd) CHECK(IMP(A.evkind == C.evkind && ab < 0 && bc < 0, A.evkind == B.evkind), "the waiters for one event are neighbours");
#endif
    REACH(ab < 0 && bc < 0, "ordered"); REACH(ab == 0, "equal");
}
#endif

#if defined(U_SHAPES)
enum { MAXN = 11 };
// separate objects: the verifier tracks the fields of each by itself
#define TEN(p) static T p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9;
#define PTEN(p) &p##0, &p##1, &p##2, &p##3, &p##4, &p##5, &p##6, &p##7, &p##8, &p##9
TEN(Na) TEN(Nb)
static T *const NP[] = { PTEN(Na), PTEN(Nb) }; static int nn;       // nodes in order; the last two are new
static int bits;
static int lev(T *t) { return t ? t->LEVEL : 0; }
// 2-node or 3-node of the given level
static T *mk(int level) {
    if (level == 0) return NULL;
    int three = dig(&bits, 2);
    T *l = mk(level - 1);
    T *a = NP[nn++];
    a->LEVEL = level; a->LEFT = l;
    T *m = mk(level - 1);
    if (!three) { a->RIGHT = m; return a; }
    T *b = NP[nn++];
    b->LEVEL = level; b->LEFT = m; b->RIGHT = mk(level - 1);
    a->RIGHT = b;
    return a;
}
static T *word[MAXN + 3]; static int nw; static bool valid;
static void walk(T *t, int depth) {
    if (!t) return;
    if (depth == 0 || nw > MAXN) { valid = false; return; }
    walk(t->LEFT, depth - 1);
    if (nw > 0 && CMP(word[nw-1], t) >= 0) valid = false;
    word[nw++] = t;
    int l = t->LEVEL;
    if (lev(t->LEFT) != l - 1) valid = false;
    if (lev(t->RIGHT) != l && lev(t->RIGHT) != l - 1) valid = false;
    if (lev(t->RIGHT) == l && lev(t->RIGHT->RIGHT) == l) valid = false;
    walk(t->RIGHT, depth - 1);
}
static T *build(int level, int b) {
    bits = b; nn = 0;
    for (int i = 0; i < MAXN + 2; i++) { NP[i]->LEFT = NP[i]->RIGHT = NULL; NP[i]->LEVEL = 0; SETKEY(NP[i], 2 * i + 1); }
    return mk(level);
}
static void check(T *root) { nw = 0; valid = true; walk(root, 7); CHECK(valid, "the tree stays an ordered balanced tree"); }
static void vrun(int c) {
    int level = dig(&c, 4), op = dig(&c, 4), b = c;
    T *root = build(level, b); int n = nn; T *x = NP[MAXN], *key = NP[MAXN+1];
    if (op == 0) for (int k = 0; k <= 2 * n; k++) {        // insert before, at or after each node
        root = build(level, b);
        SETKEY(x, k);
        T *r = F(insert)(&root, x);
        check(root);
        CHECK(r == (k % 2 ? NP[k/2] : NULL), "insert returns the item it replaces");
        if (r) CHECK(!r->LEFT && !r->RIGHT && !r->LEVEL, "which is no longer linked");
        CHECK(nw == n + !r, "one item more unless one is replaced");
        for (int i = 0; i < nw; i++) CHECK(word[i] == (i < k / 2 ? NP[i] : i == k / 2 ? x : r ? NP[i] : NP[i-1]), "all other items stay");
    }
    if (op == 1) for (int k = 0; k <= 2 * n; k++) {
        root = build(level, b);
        SETKEY(key, k);
        T *r = F(delete)(&root, key);
        check(root);
        CHECK(r == (k % 2 ? NP[k/2] : NULL), "delete returns the deleted item");
        if (r) CHECK(!r->LEFT && !r->RIGHT && !r->LEVEL, "which is no longer linked");
        CHECK(nw == n - !!r, "one item less if there was one");
        for (int i = 0; i < nw; i++) CHECK(word[i] == (r && i >= k / 2 ? NP[i+1] : NP[i]), "all other items stay");
    }
    if (op == 2) {
#if TREE != 4
        for (int k = 0; k <= 2 * n; k++) {
            SETKEY(key, k);
            CHECK(F(search)(&root, key) == (k % 2 ? NP[k/2] : NULL), "search finds the item with this key");
            CHECK(F(iter)(&root, key) == (k < 2 * n ? NP[k/2] : NULL), "iter finds the first item not before the key");
        }
#endif
        CHECK(F(first)(&root) == (n ? NP[0] : NULL), "first finds the first item");
        for (int i = 0; i < n; i++) {
            CHECK(F(next)(&root, NP[i]) == (i + 1 < n ? NP[i+1] : NULL), "next finds the next item");
        }
        check(root);
        CHECK(nw == n, "looking changes nothing");
        for (int i = 0; i < nw; i++) CHECK(word[i] == NP[i], "looking changes nothing");
    }
    REACHT(n >= 7 && level == 2, "large"); REACH(n == 0, "empty"); REACHT(level == 3, "three levels");
}
#endif

#ifdef U_INDUCT
// Levels L (>= 3, arbitrary) and L-1 are spelled out, level L-2 is opaque.
enum { MAXN = 36 };
// separate objects: the verifier tracks the fields of each by itself
#define TEN(p) static T p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9;
#define PTEN(p) &p##0, &p##1, &p##2, &p##3, &p##4, &p##5, &p##6, &p##7, &p##8, &p##9
TEN(Na) TEN(Nb)
TEN(Nc) TEN(Nd)
static T *const NP[] = { PTEN(Na), PTEN(Nb), PTEN(Nc), PTEN(Nd) }; static int nn;
static int at(T *t) { for (int i = 0; i < MAXN; i++) if (t == NP[i]) return i; CHECK(0, "a known node"); return 0; } static bool opaque[MAXN];
#define SEALED ((T*)(intptr_t)0x5a5a0)
static int base;             // level of the opaque subtrees, >= 1
static int three_;           // the opaque subtrees have two nodes on top
static T shadow, shadow2;    // the left and right child of each of them: their levels may be read
#define BELOW (base == 1 ? NULL : &shadow)
#define BESIDE (base == 1 && !three_ ? NULL : &shadow2)
static int bits;
static T *word[MAXN]; static int nw; static bool valid;
static bool is_opaque(T *t) { return opaque[at(t)]; }
static T *fresh(int level) { T *t = NP[nn++]; t->LEVEL = level; t->LEFT = BELOW; t->RIGHT = BESIDE; opaque[at(t)] = true; return t; }
static T *node(int level) { T *t = fresh(level); opaque[at(t)] = false; return t; }
// an arbitrary tree of level base+h; top: only one node on the top level
static int H[MAXN], K[MAXN];   // level above base, and nodes on that level, of the tree at a node
static T *mk(int h, int top) {
    if (h == 0) return fresh(base);
    int three = top ? 0 : dig(&bits, 2);
    T *l = mk(h - 1, 0), *a = node(base + h);
    H[at(a)] = h; K[at(a)] = three + 1;
    a->LEFT = l;
    T *m = mk(h - 1, 0);
    if (!three) { a->RIGHT = m; return a; }
    T *b = node(base + h);
    H[at(b)] = h; K[at(b)] = 1;
    b->LEFT = m; b->RIGHT = mk(h - 1, 0);
    a->RIGHT = b;
    return a;
}
static void walk(T *t, int depth) {
    if (depth == 0 || !t || nw >= MAXN) { valid = false; return; }
    if (is_opaque(t)) { if (t->LEFT != BELOW || t->RIGHT != BESIDE || t->LEVEL != base) valid = false; word[nw++] = t; return; }
    walk(t->LEFT, depth - 1);
    word[nw++] = t;
    int l = t->LEVEL;
    if (!t->LEFT || !t->RIGHT) { valid = false; return; }
    if (t->LEFT->LEVEL != l - 1) valid = false;
    if (t->RIGHT->LEVEL != l && t->RIGHT->LEVEL != l - 1) valid = false;
    if (t->RIGHT->LEVEL == l && (is_opaque(t->RIGHT) || !t->RIGHT->RIGHT || t->RIGHT->RIGHT->LEVEL == l)) valid = false;
    walk(t->RIGHT, depth - 1);
}
static int topcount(T *t, int level) { return t->LEVEL != level ? 0 : !is_opaque(t) && t->RIGHT->LEVEL == level ? 2 : 1; }
typedef struct { T *w[MAXN]; int n; } W;
static W wl, wr, ws;                         // contents of the subtrees
static void content(W *w, T *t) { nw = 0; valid = true; walk(t, 6); CHECK(valid, "spec"); for (int i = 0; i < nw; i++) w->w[i] = word[i]; w->n = nw; }
static int op, calls; static T *X, *sub_in, *leaf; static bool absent; static char token;
// contract of the recursive call, for a tree of level l:
//   insert  level l, or l+1 with one node on top (only if there were two)
//   delete  level l with no more nodes on top than before, or level l-1
static T *result(T *t, bool ins) {
    CHECK(calls == 0, "descends into one subtree");
    CHECK(t == sub_in, "into the one where the key belongs");
    calls++;
    T *out = sub_in;
    int h = H[at(sub_in)], k = K[at(sub_in)];
    if (!absent) {
        int change = dig(&bits, 2);
        out = ins ? change && k == 2 ? mk(h + 1, 1) : mk(h, 0) : change ? mk(h - 1, 0) : mk(h, k == 1);
    }
    content(&ws, out);
    return out;
}
T *vc_insert0(T *t, T *item, T **replaced) { CHECK(item == X, "the item"); if (absent) *replaced = (T*)&token; return result(t, true); }
T *vc_delete0(T *t, T *key, T **deleted) { CHECK(key == X, "the key"); if (!absent) *deleted = (T*)&token; return result(t, false); }
T *vc_delete_end(T *t, T **deleted) { leaf = node(base + 9); *deleted = leaf; return result(t, false); }
typedef T *(*f3)(T*, T*, T**); typedef T *(*f2)(T*, T**);
f3 p_ins = F(insert0), p_del = F(delete0); f2 p_first = F(delete_first0), p_last = F(delete_last0);
T *real_ins(T *a, T *b, T **c); T *real_del(T *a, T *b, T **c); T *real_first(T *a, T **c); T *real_last(T *a, T **c);   // aat_late.c
static void vrun(int c) {
    nn = calls = 0; leaf = NULL;
    op = dig(&c, 4); int where = dig(&c, 3); absent = dig(&c, 2); bits = c;
    base = dig(&bits, 2) ? 1000 : 1;      // levels enter only by comparison and steps of one
    three_ = dig(&bits, 2);
    shadow.LEVEL = base - 1; shadow2.LEVEL = base - !three_; shadow.LEFT = shadow.RIGHT = shadow2.LEFT = shadow2.RIGHT = SEALED;
    X = node(base + 9);
    T *root = mk(2, 0), *L = root->LEFT, *R = root->RIGHT, *found = NULL, *res;
    int k = K[at(root)];
    SETKEY(root, 9); SETKEY(X, where == 0 ? 5 : where == 1 ? 9 : 13);
    content(&wl, L); content(&wr, R);
    bool left = op == 0 ? where == 0 : op == 1 ? where < 2 : op == 2;
    sub_in = left ? L : R;
    if (op == 0) res = real_ins(root, X, &found);
    else if (op == 1) res = real_del(root, X, &found);
    else if (op == 2) res = real_first(root, &found);
    else res = real_last(root, &found);
    bool here = op < 2 && where == 1;
    CHECK(calls == !(op == 0 && here), "descends unless the item is found here");
    CHECK(found == (here ? root : op < 2 ? (absent == (op == 0) ? (T*)&token : NULL) : leaf), "the item found is reported");
    // the content is as before, with the change in its place
    static T *e[MAXN]; int n = 0;
    W *a = calls && left ? &ws : &wl, *b = calls && !left ? &ws : &wr;
    for (int i = 0; i < a->n; i++) e[n++] = a->w[i];
    e[n++] = !here ? root : op == 0 ? X : leaf;
    for (int i = 0; i < b->n; i++) e[n++] = b->w[i];
    nw = 0; valid = true; walk(res, 6);
    CHECK(valid, "the result is a balanced tree");
    CHECK(nw == n, "nothing is lost");
    for (int i = 0; i < n; i++) CHECK(word[i] == e[i], "the order of the items stays");
    // the contract of the recursive call
    int l = base + 2;
    if (absent && op) CHECK(res == root && res->LEVEL == l, "nothing is moved");
    if (op == 0) CHECK(res->LEVEL == l || (res->LEVEL == l + 1 && k == 2 && res->RIGHT->LEVEL == l), "grows by at most one level");
    else CHECK(res->LEVEL == l - 1 || (res->LEVEL == l && (k == 2 || res->RIGHT->LEVEL == l - 1)), "shrinks by at most one level");
    REACHT(calls && op == 0 && res->LEVEL == base + 3, "grows"); REACHT(op == 1 && res->LEVEL == base + 1, "shrinks"); REACHT(here && op == 1, "deleted here");
}
#endif
