// neco_cancel_dl() whose target terminates just as the deadline passes returns
// NOTFOUND; the passed deadline must not leak into the next operation (a sleep
// that returns OK at once).  exit 0 = ok
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static void target(int argc, void *argv[]) {
    neco_setcancelstate(NECO_CANCEL_DISABLE, 0);
    neco_yield();
    int64_t e = neco_now() + 30*NECO_MILLISECOND;
    while (neco_now() < e) { }
    if (argc) neco_yield();     // let the deadline be seen first
}
int neco_main(int argc, char *argv[]) {
    int bad = 0;
    for (int i = 0; i < 2; i++) {
        if (i == 0) neco_start(target, 0); else neco_start(target, 1, (void*)1);
        int ret = neco_cancel_dl(neco_lastid(), neco_now() + 10*NECO_MILLISECOND);
        int64_t t = neco_now();
        int sret = neco_sleep(50*NECO_MILLISECOND);
        int64_t d = neco_now() - t;
        printf("cancel=%s sleep=%s after %lld ms\n", neco_strerror(ret), neco_strerror(sret), (long long)(d/NECO_MILLISECOND));
        if (sret == NECO_OK && d < 50*NECO_MILLISECOND) bad = 1;
    }
    exit(bad);
}
