// neco_cond_wait gives the mutex back to the caller however it ends, and a
// cancel that arrives while it relocks is not swallowed.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_mutex mu; static neco_cond cv; static int w = 99, s = 99, type, held, inclean;
static void clean(void *arg) { inclean = 1; if (held) { printf("cleanup ran while another coroutine holds the mutex\n"); exit(1); } neco_mutex_unlock(&mu); }
static void waiter(int argc, void *argv[]) {
    neco_setcanceltype(type, 0);
    neco_mutex_lock(&mu);
    neco_cleanup_push(clean, 0);
    w = neco_cond_wait(&cv, &mu);
    neco_cleanup_pop(0);
    neco_mutex_unlock(&mu);
    s = neco_sleep(NECO_MILLISECOND);
}
int neco_main(int argc, char *argv[]) {
    for (int i = 0; i < 2; i++) {
        type = i ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
        w = s = 99;
        neco_start(waiter, 0); int64_t id = neco_lastid();
        neco_yield();
        neco_mutex_lock(&mu); held = 1;
        neco_cond_signal(&cv);      // the waiter now queues for the mutex
        neco_cancel(id);
        neco_yield();
        held = 0;
        neco_mutex_unlock(&mu);
        neco_sleep(10*NECO_MILLISECOND);
        printf("wait=%s sleep=%s cleanup=%d\n", neco_strerror(w), neco_strerror(s), inclean);
        if (i == 0 && s != NECO_CANCELED && w != NECO_CANCELED) exit(1);
        if (neco_mutex_trylock(&mu) != NECO_OK) exit(1);
        neco_mutex_unlock(&mu);
    }
    exit(0);
}
