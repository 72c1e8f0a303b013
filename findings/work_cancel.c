// neco_work returns only when the work is done, even if the caller is cancelled
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "neco.h"
static volatile int done; static int seen = 99;
static void work(void *ud) { usleep(200000); done = 1; }
static void worker(int argc, void *argv[]) { neco_setcanceltype(NECO_CANCEL_INLINE,0); neco_work(-1, work, 0); seen = done; neco_sleep(NECO_MILLISECOND*400); }
int neco_main(int argc, char *argv[]) {
    neco_start(worker, 0); int64_t id = neco_lastid();
    neco_sleep(50*NECO_MILLISECOND);
    neco_cancel(id);
    neco_sleep(400*NECO_MILLISECOND);
    printf("work done when neco_work returned: %d\n", seen);
    _exit(seen != 1);
}
