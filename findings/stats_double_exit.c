// The number of coroutines reported equals the number alive.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static int64_t tid;
static void target(int argc, void *argv[]) {
    neco_yield(); neco_yield();
    neco_setcancelstate(NECO_CANCEL_ENABLE, 0);
}
static void joiner(int argc, void *argv[]) { neco_join(*(int64_t*)argv[0]); }
static void canceller(int argc, void *argv[]) { neco_cancel(*(int64_t*)argv[0]); }
static neco_waitgroup wg;
static void waiter1(int argc, void *argv[]) { neco_waitgroup_wait(&wg); neco_cancel(tid); }
static void done_and_exit(int argc, void *argv[]) {
    neco_yield(); neco_yield(); neco_yield();
    neco_waitgroup_done(&wg);   // quick switch: cancelled while switched out
}
int neco_main(int argc, char *argv[]) {
    neco_waitgroup_init(&wg); neco_waitgroup_add(&wg, 1);
    neco_start(done_and_exit, 0); tid = neco_lastid();
    neco_start(joiner, 1, &tid);
    neco_start(waiter1, 0);
    neco_sleep(50*NECO_MILLISECOND);
    neco_stats st; neco_getstats(&st);
    printf("coroutines=%d\n", (int)st.coroutines);
    exit(st.coroutines != 1);
}
