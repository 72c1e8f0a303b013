// A clean-up handler that waits is cut short: by the very cancelation that runs
// it (a coroutine canceled in a yield), or by a second one
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static int begun, finished;
static void handler(void *arg) {
    (void)arg;
    begun++;
    neco_sleep(NECO_MILLISECOND * 10);
    finished++;
}
static void target(int argc, void *argv[]) {
    (void)argc;
    neco_cleanup_push(handler, 0);
    for (;;) if (argv[0]) neco_yield(); else neco_sleep(NECO_SECOND);
    neco_cleanup_pop(0);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int i = 0; i < 2; i++) {
        begun = finished = 0;
        neco_start(target, 1, i ? 0 : "yield");
        int64_t id = neco_lastid();
        neco_cancel(id);
        neco_sleep(NECO_MILLISECOND * 2);
        if (i) neco_cancel(id);
        neco_join(id);
        if (begun != 1 || finished != 1) { printf("%d: handler begun %d, finished %d\n", i, begun, finished); exit(1); }
    }
    exit(0);
}
int main(void) { return neco_start(co_main, 0); }
