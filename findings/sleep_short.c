// neco_sleep(0) and other short sleeps report NECO_TIMEDOUT, which is for
// negative durations
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int i = 0; i < 1000; i++) {
        int r = neco_sleep(i % 3);
        if (r != NECO_OK) { printf("neco_sleep(%d) = %d\n", i % 3, r); exit(1); }
    }
    if (neco_sleep(-1) != NECO_TIMEDOUT) exit(2);
    exit(0);
}
int main(void) { return neco_start(co_main, 0); }
