// A coroutine starts pristine, whatever the coroutine that used its slot did.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static int ran, slept = 99; static int64_t last = 99; static int sw = 99;
static void dummy(int argc, void *argv[]) {}
static void victim(int argc, void *argv[]) {
    neco_start(dummy, 0);
    neco_signal_watch(12);
    while (1) neco_yield();
}
static void fresh(int argc, void *argv[]) {
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    ran = 1;
    last = neco_lastid();
    sw = neco_signal_wait_dl(neco_now()+NECO_MILLISECOND);
    slept = neco_sleep(NECO_MILLISECOND);
}
int neco_main(int argc, char *argv[]) {
    neco_start(victim, 0);
    neco_cancel(neco_lastid());
    neco_yield(); neco_yield();
    for (int i = 0; i < 3; i++) {
        ran = 0; slept = 99; last = 99; sw = 99;
        neco_start(fresh, 0);
        neco_sleep(10*NECO_MILLISECOND);
        printf("ran=%d lastid=%d sigwait=%s sleep=%s\n", ran, (int)last, neco_strerror(sw), neco_strerror(slept));
        if (!ran || slept != NECO_OK || last != 0 || sw != NECO_NOSIGWATCH) exit(1);
    }
    exit(0);
}
