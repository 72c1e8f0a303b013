// vc.h - contract vocabulary shared by every unit.
//
// A unit is compiled in two ways from the same text:
//   * by goto-cc: ENS clauses and CHECKs become obligations, nd_*() are
//     unconstrained symbolic values;
//   * by gcc -DREPLAY: nd_*() read the values of the verifier's counterexample, the real code is
//     executed natively and the same clauses are evaluated on the result.
#ifndef VC_H
#define VC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>

#define RET vc_ret
// CONTRACT(type, f, params) ENS(...) ENS(...) END  defines the postcondition
// N_f of the real function f; CALL(type, f, args) runs the real body of f and
// then requires every clause.  The precondition is what the harness set up.
#define CONTRACT(type, f, ...) CONTRACT_(type, f, __VA_ARGS__)
#define CONTRACT_(type, f, ...) static void N_##f(type RET, __VA_ARGS__) { (void)RET;
#define CONTRACT0(type, f)     static void N_##f(type RET) { (void)RET;
#define END }
#define POST(f) POST_(f)            // the postcondition of f
#define POST_(f) N_##f
#define CALL(type, f, ...) CALL_(type, f, __VA_ARGS__)
#define CALL_(type, f, ...) ({ type vc_r = f(__VA_ARGS__); N_##f(vc_r, __VA_ARGS__); vc_r; })
#define CALL0(type, f) ({ type vc_r = f(); N_##f(vc_r); vc_r; })

#ifndef REPLAY
/* ---- verifier ---- */
#define ENS(text, c)  __CPROVER_assert(c, "ENSURES " text);
#define ASSUME(c)     __CPROVER_assume(c)
#define CHECK(c, t)   __CPROVER_assert(c, "CHECK " t)
#define REACH(c, t)   __CPROVER_assert(!(c), "REACH " t)
#define ND(type, name) \
    static type nd_##name(void) { type v; __CPROVER_input("nd", v); return v; }
#define NORETURN_END() __CPROVER_assume(0)
#else
/* ---- native replay ---- */
#include <setjmp.h>
extern void vc_fail(const char *kind, const char *text, int line);
extern int64_t vc_next(void);
extern jmp_buf vc_jmp;
#define ENS(text, c)  if (!(c)) vc_fail("ENSURES", text, __LINE__);
#define ASSUME(c)     do { if (!(c)) vc_fail("ASSUME", #c, __LINE__); } while (0)
#define CHECK(c, t)   do { if (!(c)) vc_fail("CHECK", t, __LINE__); } while (0)
#define REACH(c, t)   do { (void)(c); } while (0)
#define ND(type, name) \
    static __attribute__((unused)) type nd_##name(void) { return (type)vc_next(); }
#define NORETURN_END() longjmp(vc_jmp, 1)
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#define __CPROVER_rw_ok(p, n) 1
#define __CPROVER_assume(c) ASSUME(c)
#endif
ND(int64_t, i64) ND(uint64_t, u64) ND(int, int) ND(unsigned, uint)
ND(size_t, size) ND(unsigned char, u8)
static __attribute__((unused)) _Bool nd_bool(void) { return nd_u8() & 1; }

// Shapes (list lengths, who is a reader, which event comes first, ...) are
// enumerated by the driver: vrun(c) is verified for every case number c, so that
// every pointer is concrete in each case, while all scalars stay symbolic.
// digit of a mixed radix case number
static __attribute__((unused)) int dig(int *c, int radix) {
    int d = *c % radix; *c /= radix; return d;
}
#define IMP(a, b) (!(a) || (b))
#endif
