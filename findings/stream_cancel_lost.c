// An (inline) cancelation is swallowed: by neco_stream_read_byte() when a byte
// is buffered, by neco_stream_readfull() when part of the data was read
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include "neco.h"
static int p[2], mode, seen;
static void reader(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_stream *s;
    neco_stream_make_buffered(&s, p[0]);
    char buf[16];
    if (mode == 0) {
        neco_stream_read_byte(s);           // fills the buffer with "ab"
        neco_yield();                       // canceled here
        if (neco_stream_read_byte(s) == NECO_CANCELED) seen++;
    } else {
        ssize_t n = neco_stream_readfull(s, buf, 10);   // gets 2 bytes, then canceled
        if (n == NECO_CANCELED) seen++;
    }
    // a cancelation that was not reported yet is still to come
    if (neco_sleep(NECO_MILLISECOND) == NECO_CANCELED) seen++;
    neco_stream_release(s);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    if (pipe2(p, O_NONBLOCK)) exit(2);
    for (mode = 0; mode < 2; mode++) {
        seen = 0;
        if (write(p[1], "ab", 2) != 2) exit(2);
        neco_start(reader, 0);
        int64_t id = neco_lastid();
        if (mode) neco_sleep(NECO_MILLISECOND * 10);
        neco_cancel(id);
        neco_join(id);
        if (seen != 1) { printf("mode %d: cancelation seen %d times\n", mode, seen); exit(1); }
    }
    exit(0);
}
int main(void) { return neco_start(co_main, 0); }
