// Slots of a channel are disjoint for every message size and capacity.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "neco.h"
int neco_main(int argc, char *argv[]) {
    neco_chan *ch; size_t sz = 1<<20; int n = 2200;
    if (neco_chan_make(&ch, sz, n) != NECO_OK) exit(0);
    char *m = calloc(1, sz);
    for (int i = 0; i < n; i++) { memcpy(m, &i, 4); memcpy(m+sz-4,&i,4); neco_chan_send(ch, m); }
    for (int i = 0; i < n; i++) { int v; neco_chan_recv(ch, m); memcpy(&v, m, 4); if (v != i) exit(1); }
    exit(0);
}
