// A signal is either consumed by a waiter that returns OK or reaches another.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_mutex mu; static neco_cond cv; static int r[2] = {99,99};
static void waiter(int argc, void *argv[]) {
    long i = (long)argv[0];
    neco_mutex_lock(&mu);
    r[i] = neco_cond_wait_dl(&cv, &mu, neco_now() + (i ? 300 : 20)*NECO_MILLISECOND);
    neco_mutex_unlock(&mu);
}
int neco_main(int argc, char *argv[]) {
    neco_start(waiter, 1, 0L); neco_start(waiter, 1, 1L);
    neco_yield();
    int64_t e = neco_now() + 40*NECO_MILLISECOND; while (neco_now() < e) {}
    neco_cond_signal(&cv);
    neco_sleep(400*NECO_MILLISECOND);
    printf("%s / %s\n", neco_strerror(r[0]), neco_strerror(r[1]));
    exit(r[0] != NECO_OK && r[1] != NECO_OK);
}
