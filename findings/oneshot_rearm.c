// A coroutine waiting to write is woken even if another coroutine's read event
// on the same descriptor fired first.
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <sys/socket.h>
#include "neco.h"
static int s[2]; static int wret = 99;
static void rd(int argc, void *argv[]) { neco_wait(s[0], NECO_WAIT_READ); char c; read(s[0], &c, 1); }
static void wr(int argc, void *argv[]) { wret = neco_wait_dl(s[0], NECO_WAIT_WRITE, neco_now()+500*NECO_MILLISECOND); }
int neco_main(int argc, char *argv[]) {
    socketpair(AF_UNIX, SOCK_STREAM, 0, s);
    neco_setnonblock(s[0],1,0); neco_setnonblock(s[1],1,0);
    char buf[4096]; memset(buf,0,sizeof buf);
    while (write(s[0], buf, sizeof buf) > 0) {}
    neco_start(rd, 0); neco_start(wr, 0);
    neco_sleep(20*NECO_MILLISECOND);
    write(s[1], "x", 1);                  // read event
    neco_sleep(50*NECO_MILLISECOND);
    while (read(s[1], buf, sizeof buf) > 0) {}  // now writable
    neco_sleep(NECO_SECOND*6/10);
    printf("wait write=%s\n", neco_strerror(wret));
    exit(wret != NECO_OK);
}
