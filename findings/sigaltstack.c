// the signal stack of the program is replaced for good, by memory that is freed
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include "neco.h"
static void co(int argc, void **argv) { (void)argc; (void)argv; }
int main(void) {
    static char mine[65536];
    stack_t ss = { .ss_sp = mine, .ss_size = sizeof mine }, now;
    sigaltstack(&ss, NULL);
    neco_start(co, 0);
    sigaltstack(NULL, &now);
    if (now.ss_sp != mine) { printf("signal stack of the program lost\n"); return 1; }
    return 0;
}
