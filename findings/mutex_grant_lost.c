// A lock that is handed to a waiter whose deadline has just passed (or that is
// being cancelled) must not be lost.  exit 0 = ok, 1 = the lock is gone for good
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_mutex mu;
static int bret;
static void waiter(int argc, void *argv[]) {
    bret = neco_mutex_lock_dl(&mu, neco_now() + 20*NECO_MILLISECOND);
    if (bret == NECO_OK) neco_mutex_unlock(&mu);
}
static void sleeper(int argc, void *argv[]) { neco_sleep(NECO_SECOND/4); }
int neco_main(int argc, char *argv[]) {
    neco_mutex_init(&mu);
    neco_mutex_lock(&mu);
    neco_start(sleeper, 0);
    neco_start(waiter, 0);
    neco_yield();
    // hold the cpu until the waiter's deadline is over, then unlock
    int64_t end = neco_now() + 40*NECO_MILLISECOND;
    while (neco_now() < end) { }
    neco_mutex_unlock(&mu);
    neco_sleep(50*NECO_MILLISECOND);
    int ret = neco_mutex_lock_dl(&mu, neco_now() + 100*NECO_MILLISECOND);
    printf("waiter=%s relock=%s\n", neco_strerror(bret), neco_strerror(ret));
    exit(ret == NECO_OK ? 0 : 1);
}
