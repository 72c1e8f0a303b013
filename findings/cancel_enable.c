// A neco_cancel() that waits for its target to enable cancelation is not woken
// when the target does
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static int got;
static void target(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_setcancelstate(NECO_CANCEL_DISABLE, 0);
    neco_sleep(NECO_MILLISECOND * 20);
    neco_setcancelstate(NECO_CANCEL_ENABLE, 0);
    got = neco_sleep(NECO_SECOND * 2);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_start(target, 0);
    int64_t id = neco_lastid();
    int64_t start = neco_now();
    int r = neco_cancel(id);
    int64_t took = neco_now() - start;
    neco_join(id);
    if (r != NECO_OK || got != NECO_CANCELED) { printf("cancel = %d after %d ms, target got %d\n", r, (int)(took / NECO_MILLISECOND), got); exit(1); }
    exit(0);
}
int main(void) { return neco_start(co_main, 0); }
