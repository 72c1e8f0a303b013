// A pending signal nobody waits for does not hold back another signal.
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include "neco.h"
static int got = 99;
static void a(int argc, void *argv[]) { neco_signal_watch(SIGHUP); neco_sleep(NECO_SECOND/2); }
static void b(int argc, void *argv[]) { neco_signal_watch(SIGUSR1); got = neco_signal_wait_dl(neco_now()+300*NECO_MILLISECOND); }
int neco_main(int argc, char *argv[]) {
    neco_start(a, 0); neco_start(b, 0);
    neco_sleep(10*NECO_MILLISECOND);
    kill(getpid(), SIGHUP);
    kill(getpid(), SIGUSR1);
    neco_sleep(400*NECO_MILLISECOND);
    printf("got=%d\n", got);
    exit(got != SIGUSR1);
}
