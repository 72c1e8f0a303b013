// A message handed to a receiver whose deadline has just passed is not lost:
// the sender's OK and the receiver's result agree.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_chan *ch;
static int bret, val, cret, cval, sret = 99;
static void receiver(int argc, void *argv[]) {
    bret = neco_chan_recv_dl(ch, &val, neco_now() + 20*NECO_MILLISECOND);
}
static void sleeper(int argc, void *argv[]) { neco_sleep(NECO_SECOND/4); }
static void sender(int argc, void *argv[]) {
    int v = 7;
    sret = neco_chan_send_dl(ch, &v, neco_now() + 20*NECO_MILLISECOND);
}
static void spin(int64_t d) { int64_t e = neco_now()+d; while (neco_now() < e) { } }
int neco_main(int argc, char *argv[]) {
    int bad = 0;
    neco_chan_make(&ch, sizeof(int), 0);
    neco_start(sleeper, 0);
    neco_start(receiver, 0);
    neco_yield();
    spin(40*NECO_MILLISECOND);
    int ret = neco_chan_send(ch, &(int){5});
    neco_sleep(20*NECO_MILLISECOND);
    printf("send=%s recv=%s val=%d\n", neco_strerror(ret), neco_strerror(bret), val);
    if (ret == NECO_OK && bret != NECO_OK) bad = 1;
    neco_start(sender, 0);
    neco_yield();
    spin(40*NECO_MILLISECOND);
    cret = neco_chan_recv_dl(ch, &cval, neco_now()+NECO_MILLISECOND*10);
    neco_sleep(20*NECO_MILLISECOND);
    printf("send=%s recv=%s val=%d\n", neco_strerror(sret), neco_strerror(cret), cval);
    if (cret == NECO_OK && sret != NECO_OK) bad = 1;
    exit(bad);
}
