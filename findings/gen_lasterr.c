#include <stdio.h>
#include "neco.h"
int neco_main(int argc, char *argv[]) {
    (void)argc; (void)argv;
    neco_yield();
    int x = 0, r = neco_gen_yield(&x);
    printf("%d %d\n", r, neco_lasterr());
    return neco_lasterr() == r && r == NECO_NOTGENERATOR ? 0 : 1;
}
