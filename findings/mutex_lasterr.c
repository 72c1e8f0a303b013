// neco_lasterr() keeps an old error when a mutex operation is refused
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_cancel(999999);                  // last error is now NOTFOUND
    int r1 = neco_mutex_lock(NULL);
    int e1 = neco_lasterr();
    neco_cancel(999999);
    int r2 = neco_mutex_trylock(NULL);
    int e2 = neco_lasterr();
    if (r1 != e1 || r2 != e2) { printf("lasterr %d after %d\n", e1, r1); exit(1); }
    exit(0);
}
int main(void) { return neco_start(co_main, 0); }
