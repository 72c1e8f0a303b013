// A buffered stream whose flush times out after part of the buffer was written
// writes that part again on the next flush: the peer gets the bytes twice
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include "neco.h"
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
enum { CAP = 16384 };
static unsigned char out[CAP], in[3*CAP];
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int p[2];
    if (pipe2(p, O_NONBLOCK)) exit(2);
    fcntl(p[1], F_SETPIPE_SZ, 4096);
    for (int i = 0; i < CAP; i++) out[i] = (unsigned char)(i % 251);
    neco_stream *s;
    neco_stream_make_buffered_size(&s, p[1], CAP);
    if (neco_stream_write(s, out, CAP) != CAP) exit(2);
    int r1 = neco_stream_flush_dl(s, neco_now() + NECO_MILLISECOND * 20);   // nobody reads
    size_t n = 0;
    for (int i = 0; i < 100; i++) {
        ssize_t k = read(p[0], in + n, sizeof(in) - n);
        if (k > 0) n += (size_t)k;
        if (neco_stream_buffered_write_size(s) > 0) neco_stream_flush_dl(s, neco_now() + NECO_MILLISECOND * 5);
        else if (k <= 0) break;
    }
    if (n != CAP || memcmp(in, out, CAP)) { printf("flush %d; sent %d bytes, received %zu\n", r1, CAP, n); exit(1); }
    exit(0);
}
int main(void) { return neco_start(co_main, 0); }
