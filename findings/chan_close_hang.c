// Once a channel is closed and drained, receive returns CLOSED.
#include <stdio.h>
#include <stdlib.h>
#include "neco.h"
static neco_chan *ch; static int sret = 99;
static void sender(int argc, void *argv[]) { sret = neco_chan_send_dl(ch, &(int){1}, neco_now()+20*NECO_MILLISECOND); }
int neco_main(int argc, char *argv[]) {
    neco_chan_make(&ch, sizeof(int), 0);
    neco_start(sender, 0);
    neco_yield();
    neco_chan_close(ch);
    neco_sleep(50*NECO_MILLISECOND);
    int v, ret = neco_chan_recv_dl(ch, &v, neco_now()+100*NECO_MILLISECOND);
    printf("send=%s recv=%s\n", neco_strerror(sret), neco_strerror(ret));
    exit(ret != NECO_CLOSED);
}
