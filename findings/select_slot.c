// Two coroutines select on the same channel; two senders send before either of
// them runs.  Each must get its own message.  exit 0 = ok
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_chan *c; static int got[2], rc[2], idx[2];
static void sel(int argc, void *argv[]) {
    int i = *(int*)argv[0];
    idx[i] = neco_chan_select(1, c);
    rc[i] = neco_chan_case(c, &got[i]);
}
static void snd(int argc, void *argv[]) {
    int v = *(int*)argv[0];
    neco_yield();
    neco_chan_send(c, &v);
}
int neco_main(int argc, char *argv[]) {
    neco_chan_make(&c, sizeof(int), 0);
    int a = 0, b = 1, x = 11, y = 22;
    neco_start(sel, 1, &a); neco_start(sel, 1, &b);
    neco_start(snd, 1, &x); neco_start(snd, 1, &y);
    neco_sleep(NECO_SECOND/20);
    printf("got %d (%d) and %d (%d)\n", got[0], rc[0], got[1], rc[1]);
    exit(!(got[0] == 11 && got[1] == 22));
}
