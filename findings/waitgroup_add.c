// neco_waitgroup_add never wraps, and bringing the count to zero releases waiters
#include <stdio.h>
#include <stdlib.h>
#include <limits.h>
#include "neco.h"
static neco_waitgroup wg; static int ret = 99;
static void waiter(int argc, void *argv[]) { ret = neco_waitgroup_wait_dl(&wg, neco_now()+100*NECO_MILLISECOND); }
int neco_main(int argc, char *argv[]) {
    neco_waitgroup_init(&wg);
    neco_waitgroup_add(&wg, 2);
    neco_start(waiter, 0);
    neco_yield();
    neco_waitgroup_add(&wg, -2);
    neco_sleep(200*NECO_MILLISECOND);
    printf("wait=%s\n", neco_strerror(ret));
    exit(ret != NECO_OK);
}
