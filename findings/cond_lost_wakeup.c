// neco_cond_wait releases the mutex and starts waiting atomically: a signal
// sent by the coroutine that takes the mutex next reaches the waiter.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_mutex mu; static neco_cond cv; static int ready, ret = 99;
static void waiter(int argc, void *argv[]) {
    neco_mutex_lock(&mu);
    neco_sleep(10*NECO_MILLISECOND);       // lets the signaller queue up
    while (!ready) {
        ret = neco_cond_wait_dl(&cv, &mu, neco_now()+200*NECO_MILLISECOND);
        if (ret != NECO_OK) break;
    }
    neco_mutex_unlock(&mu);
}
static void signaller(int argc, void *argv[]) {
    neco_mutex_lock(&mu);
    ready = 1;
    neco_cond_signal(&cv);
    neco_mutex_unlock(&mu);
}
int neco_main(int argc, char *argv[]) {
    neco_start(waiter, 0); int64_t a = neco_lastid();
    neco_start(signaller, 0);
    neco_join(a);
    printf("wait=%s\n", neco_strerror(ret));
    exit(ret != NECO_OK);
}
