// replay.h - native re-execution of a verifier counterexample on the real code
#include <stdio.h>
jmp_buf vc_jmp;
static long long vc_vals[1 << 16];
static int vc_n, vc_i, vc_failed, vc_assume;
void vc_case(void);
int64_t vc_next(void) { return vc_i < vc_n ? vc_vals[vc_i++] : 0; }
void vc_fail(const char *kind, const char *text, int line) {
    printf("%s FAILED (line %d): %s\n", kind, line, text);
    fflush(stdout);
    if (kind[0] == 'A') { vc_assume = 1; longjmp(vc_jmp, 2); }
    vc_failed = 1;
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    while (f && vc_n < 65536 && fscanf(f, "%lld", &vc_vals[vc_n]) == 1) vc_n++;
    if (setjmp(vc_jmp) == 0) vc_case();
    printf("replay: %d of %d values used\n", vc_i, vc_n);
    fflush(stdout);
    if (vc_failed) _Exit(3);
    _Exit(vc_assume ? 4 : 0);
}
