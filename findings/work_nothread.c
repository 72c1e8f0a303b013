// neco_work when no thread can be created for a moment (EAGAIN): the work was
// queued without a thread to do it, and the coroutine waited forever.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include "neco.h"
static int fails = 2;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void*), void *p) {
    static int (*real)(pthread_t*, const pthread_attr_t*, void *(*)(void*), void*);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (fails > 0) { fails--; return EAGAIN; }
    return real(t, a, f, p);
}
static int runs;
static void work(void *u) { (void)u; runs++; }
int neco_main(int argc, char *argv[]) {
    (void)argc; (void)argv;
    alarm(3);
    int r = neco_work(-1, work, 0);
    printf("%d runs %d\n", r, runs);
    return r == NECO_OK && runs == 1 ? 0 : 1;
}
