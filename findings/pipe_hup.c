// A reader waiting on a pipe sees end-of-file when the writer closes it.
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "neco.h"
static int p[2]; static ssize_t n = 99;
static void reader(int argc, void *argv[]) { char b[4]; n = neco_read(p[0], b, 4); }
int neco_main(int argc, char *argv[]) {
    if (pipe(p)) return 1;
    neco_setnonblock(p[0], 1, 0);
    neco_start(reader, 0);
    neco_sleep(30*NECO_MILLISECOND);
    close(p[1]);
    neco_sleep(200*NECO_MILLISECOND);
    printf("read=%d\n", (int)n);
    exit(n != 0);
}
