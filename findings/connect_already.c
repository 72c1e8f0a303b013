// A connect whose wait cannot be registered (ENOSPC: fs.epoll.max_user_watches)
// gave up with EALREADY although the connection was being made.
#include <assert.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "neco.h"
int epoll_ctl(int q, int op, int fd, struct epoll_event *e) { (void)q; (void)op; (void)fd; (void)e; errno = ENOSPC; return -1; }
int neco_main(int argc, char *argv[]) {
    (void)argc; (void)argv;
    // a listener with a full queue: further connections stay in progress
    int s = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
    socklen_t l = sizeof a;
    assert(!bind(s, (void*)&a, l) && !listen(s, 0) && !getsockname(s, (void*)&a, &l));
    int r = 0, fd = -1;
    for (int i = 0; i < 4; i++) {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        neco_setnonblock(fd, true, 0);
        r = neco_connect_dl(fd, (void*)&a, l, neco_now() + NECO_SECOND/5);
        if (r == -1) break;
    }
    printf("%d %s\n", r, strerror(errno));
    return r == -1 && errno == ETIMEDOUT ? 0 : 1;
}
