#!/usr/bin/env python3
# Behaviour preserving edits of neco.c: the checks must stay quiet on them.
#   refactor.py [name ...]     applies each in a scratch copy, runs the checks of its properties
import os, sys, subprocess, shutil
S = '/tmp/refactor'
R = {}
def r(name, pids, *subs): R[name] = (pids.split(), subs)
r('exit-helper', 'C12 C13 C11 C06', ('''    bool sched = false;
    struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
    while (cowaiter) {
        sched_resume(cowaiter);
        sched = true;
        cowaiter = colist_pop_front(&co->cancellist);
    }

    // Notify all join waiters (if any)
    cowaiter = colist_pop_front(&co->joinlist);
    while (cowaiter) {
        sched_resume(cowaiter);
        sched = true;
        cowaiter = colist_pop_front(&co->joinlist);
    }
''', '''    bool sched = resume_waiters(&co->cancellist);
    sched = resume_waiters(&co->joinlist) || sched;
'''), ('''static void coexit(bool async) {
    // The current''', '''static bool resume_waiters(struct colist *list) {
    bool any = false;
    while (!colist_is_empty(list)) {
        sched_resume(colist_pop_front(list));
        any = true;
    }
    return any;
}

static void coexit(bool async) {
    // The current'''))
r('exit-order', 'C12 C13 C11 C06 C20', ('''    // Free the call arguments
    cofreeargs(co);

    if (sched) { ''', '''    if (sched) { '''), ('''    // The coroutine can no longer be canceled.
    co->canceled = false;

    // Stop watching''', '''    // Free the call arguments
    cofreeargs(co);

    // The coroutine can no longer be canceled.
    co->canceled = false;

    // Stop watching'''), ('''        if (co->sigwatch & (UINT32_C(1) << signo)) {
            rt->sigwatchers[signo]--;
        }
    }
    co->sigwatch = 0;

    // Notify''', '''        bool watched = (co->sigwatch >> signo) & 1;
        rt->sigwatchers[signo] -= watched ? 1 : 0;
    }
    co->sigwatch = 0;

    // Notify'''))
r('paused-for', 'C15 C29', ('''    struct coroutine *co = colist_pop_front(&rt->resumers);
    while (co) {
        sco_resume(co->id);
        rt->nresumers--;
        co = colist_pop_front(&rt->resumers);
    }

    // Calculate the minimum timeout for this step.
    int64_t timeout = MAX_TIMEOUT;
    if (timeout > 0 && sco_info_scheduled() > 0) {
        // No timeout when there is at least one yielding coroutine or
        // when there are pending signals.
        timeout = 0;
    }
    if (timeout > 0 && rt->sigmask) {
        // There are pending signals.
        // Do not wait to deliver them.
        timeout = 0;
    }
    if (timeout > 0 && rt->ndeadlines > 0) {
        // There's at least one deadline coroutine. Use the one with
        // the minimum 'deadline' value to determine the timeout.
        int64_t min_deadline = dlqueue_first(&rt->deadlines)->deadline;
        int64_t timeout0 = i64_add_clamp(min_deadline, -getnow());
        if (timeout0 < timeout) {
            timeout = timeout0;
        }
    }
    timeout = CLAMP(timeout, 0, MAX_TIMEOUT);
''', '''    struct coroutine *co;
    for (;;) {
        co = colist_pop_front(&rt->resumers);
        if (!co) break;
        rt->nresumers--;
        sco_resume(co->id);
    }
    int64_t timeout = paused_timeout();
'''), ('static void rt_sched_paused_step(void) {', '''static int64_t paused_timeout(void) {
    if (rt->sigmask || sco_info_scheduled() > 0) {
        return 0;
    }
    int64_t timeout = MAX_TIMEOUT;
    struct coroutine *first = dlqueue_first(&rt->deadlines);
    if (first) {
        int64_t left = i64_add_clamp(first->deadline, -getnow());
        timeout = left < timeout ? left : timeout;
    }
    return timeout < 0 ? 0 : timeout;
}

static void rt_sched_paused_step(void) {'''), ('''    co = dlqueue_first(&rt->deadlines);
    while (co && co->deadline < now) {
        // Deadline has been reached. Resume the coroutine
        co->deadlined = true;
        sco_resume(co->id);
        co = dlqueue_next(&rt->deadlines, co);
    }''', '''    for (co = dlqueue_first(&rt->deadlines); co; 
        co = dlqueue_next(&rt->deadlines, co))
    {
        if (co->deadline >= now) {
            break;
        }
        co->deadlined = true;
        sco_resume(co->id);
    }'''))
r('event-helper', 'C17', ('''        while (read || write) {
            enum evkind kind;
            if (read) {
                kind = EVREAD;
                read = false;
            } else {
                kind = EVWRITE;
                write = false;
            }
''', '''        for (int k = 0; k < 2; k++) {
            enum evkind kind = k == 0 ? EVREAD : EVWRITE;
            if (!(k == 0 ? read : write)) {
                continue;
            }
'''))
r('signal-loop', 'C20', ('''            struct coroutine *co = rt->sigwaiters.head.next;
            while (co != (struct coroutine*)&rt->sigwaiters.tail) {
                struct coroutine *next = co->next;
                if (co->sigmask & (UINT32_C(1) << signo)) {
                    // A coroutine is waiting on this signal.
                    // Assign the signal to its sigmask and resume
                    // the coroutine.
                    co->sigmask = (uint32_t)signo;
                    co->granted = true;
                    remove_from_list(co);
                    rt->sigqueue[signo]--;
                    if (rt->sigqueue[signo] == 0) {
                        rt->sigmask &= ~(UINT32_C(1) << signo);
                    }
                    sco_resume(co->id);
                    next = (struct coroutine*)&rt->sigwaiters.tail;
                }
                co = next;
            }
''', '''            uint32_t bit = UINT32_C(1) << signo;
            struct coroutine *end = (struct coroutine*)&rt->sigwaiters.tail;
            struct coroutine *co = rt->sigwaiters.head.next;
            while (co != end && !(co->sigmask & bit)) {
                co = co->next;
            }
            if (co != end) {
                rt->sigqueue[signo]--;
                if (rt->sigqueue[signo] == 0) {
                    rt->sigmask &= ~bit;
                }
                remove_from_list(co);
                co->granted = true;
                co->sigmask = (uint32_t)signo;
                sco_resume(co->id);
            }
'''))
r('chan-deliver', 'C01 C02 C03 C04 C06', ('''        // Directly copy the message to the receiver's 'data' argument.
        if (chan->msgsize > 0) {
            memcpy(recv->cmsg, data, (size_t)chan->msgsize);
        }
        recv->granted = true;
        if (!broadcast) {''', '''        chan_deliver(chan, recv, data);
        if (!broadcast) {'''), ('''static int chan_send0(struct neco_chan *chan, void *data, bool broadcast, 
''', '''static void chan_deliver(struct neco_chan *chan, struct coroutine *recv,
    void *data)
{
    recv->granted = true;
    if (chan->msgsize > 0) {
        memcpy(recv->cmsg, data, (size_t)chan->msgsize);
    }
}

static int chan_send0(struct neco_chan *chan, void *data, bool broadcast, 
'''), ('''    // Push this sender to queue
    colist_push_back(&chan->queue, co);
    chan->qrecv = false;
    co->cmsg = data;
    co->granted = false;
''', '''    // Push this sender to queue
    co->granted = false;
    co->cmsg = data;
    chan->qrecv = false;
    colist_push_back(&chan->queue, co);
'''))
r('close-helper', 'C02 C06', ('''    while (!colist_is_empty(&chan->queue)) {
        struct coroutine *recv = colist_pop_front(&chan->queue);
        if (recv->kind == SELECTCASE) {
            // The receiver is a select-case. 
            struct coselectcase *cocase = (struct coselectcase *)recv;
            if (*cocase->ret_idx != -1) {
                // This select-case has already been handled
                continue;
            }
            // Set the far stack index pointer and exchange the select-case
            // with the real coroutine.
            *cocase->ret_idx = cocase->idx;
            recv = cocase->co;
            *cocase->ok = false;
        }
        recv->cclosed = true;
''', '''    for (struct coroutine *recv = colist_pop_front(&chan->queue); recv;
        recv = colist_pop_front(&chan->queue))
    {
        if (recv->kind == SELECTCASE) {
            struct coselectcase *cocase = (struct coselectcase *)recv;
            if (*cocase->ret_idx != -1) {
                continue;
            }
            *cocase->ok = false;
            *cocase->ret_idx = cocase->idx;
            recv = cocase->co;
        }
        recv->cclosed = true;
'''))
r('wg-common', 'C09', ('''    wg->count--;
    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
        waitgroup_wake(wg);
    }
    return NECO_OK;''', '''    return waitgroup_set(wg, wg->count - 1);'''), ('''    wg->count = waiters;
    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
        waitgroup_wake(wg);
    }
    return NECO_OK;''', '''    return waitgroup_set(wg, waiters);'''), ('static int waitgroup_add(', '''static int waitgroup_set(struct neco_waitgroup *wg, int count) {
    wg->count = count;
    if (count == 0 && !colist_is_empty(&wg->queue)) {
        waitgroup_wake(wg);
    }
    return NECO_OK;
}

static int waitgroup_add('''))
r('write-loop', 'C18 C19', ('''        if (n == -1) {
            if (errno == EINTR || errno == EAGAIN) {
                cowait(fd, EVWRITE, deadline);
            } else if (written == 0) {
                return -1;
            } else {''', '''        if (n < 0) {
            if (errno == EAGAIN || errno == EINTR) {
                cowait(fd, EVWRITE, deadline);
            } else if (!written) {
                return -1;
            } else {'''), ('''        if (nbytes == 0) {
            break;
        }
        if (n >= 0) {
            // Some data was written but there's more yet. 
            // Avoiding starving the other coroutines.
            coyield();
        }
    }
    return written;''', '''        if (nbytes == 0) {
            return written;
        } else if (n >= 0) {
            // Some data was written but there's more yet. 
            // Avoiding starving the other coroutines.
            coyield();
        }
    }'''))
r('select-copy', 'C04', ('''    if (ret >= 0) {
        // Move the message to the slot, for neco_chan_case()
        struct neco_chan *chan = cases[ret].chan;
        chan->lok = ok;
        if (ok && chan->msgsize > 0) {
            memcpy(cbufslot(chan, chan->bufcap), msg, (size_t)chan->msgsize);
        }
    }''', '''    if (ret >= 0) {
        select_finish(&cases[ret], msg);
    }'''), ('''static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans, 
''', '''static void select_finish(struct coselectcase *cocase, const char *msg) {
    struct neco_chan *chan = cocase->chan;
    bool ok = *cocase->ok;
    if (ok && chan->msgsize > 0) {
        char *slot = cbufslot(chan, chan->bufcap);
        for (int i = 0; i < chan->msgsize; i++) {
            slot[i] = msg[i];
        }
    }
    chan->lok = ok;
}

static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans, 
'''))
r('submit-helper', 'C27', ('''        int pos = thread->pos + thread->len;
        if (pos >= thread->nentries) {
            pos -= thread->nentries;
        }
        thread->entries[pos].work = work;
        thread->entries[pos].udata = udata;
        thread->len++;
        if (!thread->th) {
            int ret = pthread_create(&thread->th, 0, worker_entry, thread);
            if (ret != 0) {
                // The thread was not created. Do not leave the entry behind.
                thread->th = 0;
                thread->len--;
                pthread_mutex_unlock(&thread->mu);
                return false;
            }
        }
        submitted = true;
        pthread_cond_signal(&thread->cond);
''', '''        if (!thread->th) {
            if (pthread_create(&thread->th, 0, worker_entry, thread) != 0) {
                thread->th = 0;
            }
        }
        if (thread->th) {
            int pos = (thread->pos + thread->len) % thread->nentries;
            thread->entries[pos] = (struct worker_entry){ work, udata };
            thread->len++;
            pthread_cond_signal(&thread->cond);
            submitted = true;
        }
'''))
r('entry-loop', 'C27', ('''            struct worker_entry entry = thread->entries[thread->pos];
            thread->pos++;
            if (thread->pos == thread->nentries) {
                thread->pos = 0;
            }
            thread->len--;
''', '''            struct worker_entry entry = thread->entries[thread->pos];
            thread->len--;
            thread->pos = thread->pos + 1 < thread->nentries ? 
                thread->pos + 1 : 0;
'''))
r('stream-min', 'C19', ('''    nbytes = stream->rd.len < nbytes ? stream->rd.len : nbytes;
    memcpy(data, stream->rd.data + stream->rd.pos, nbytes);
    stream->rd.pos += nbytes;
    stream->rd.len -= nbytes;
    return (ssize_t)nbytes;''', '''    if (nbytes > stream->rd.len) {
        nbytes = stream->rd.len;
    }
    return stream_take(stream, data, nbytes);'''), ('''static ssize_t stream_read_dl(neco_stream *stream, void *data, size_t nbytes,
''', '''static ssize_t stream_take(neco_stream *stream, void *data, size_t n) {
    char *src = stream->rd.data + stream->rd.pos;
    for (size_t i = 0; i < n; i++) {
        ((char*)data)[i] = src[i];
    }
    stream->rd.len -= n;
    stream->rd.pos += n;
    return (ssize_t)n;
}

static ssize_t stream_read_dl(neco_stream *stream, void *data, size_t nbytes,
'''))
r('rc-rewrite', 'C21', ('''        while (rt->pool.head.next != (struct coroutine*)&rt->pool.tail) {
            co = (struct coroutine*)rt->pool.head.next;
            if (now - co->pool_ts < NECO_MILLISECOND * 100) {
                break;
            }
            remove_from_list(co);
            rt->npool--;
            coroutine_free(co);
        }''', '''        co = rt->pool.head.next;
        while (co != (struct coroutine*)&rt->pool.tail &&
            now - co->pool_ts >= NECO_MILLISECOND * 100)
        {
            struct coroutine *next = co->next;
            rt->npool--;
            remove_from_list(co);
            coroutine_free(co);
            co = next;
        }'''))
r('sco-promote', 'C24', ('''        // Convert the yielders to runners
        sco_runners.head.next = sco_yielders.head.next;
        sco_runners.head.next->prev = (struct sco*)&sco_runners.head;
        sco_runners.tail.prev = sco_yielders.tail.prev;
        sco_runners.tail.prev->next = (struct sco*)&sco_runners.tail;
        sco_yielders.head.next = (struct sco*)&sco_yielders.tail;
        sco_yielders.tail.prev = (struct sco*)&sco_yielders.head;
        sco_nrunners = sco_nyielders;
        sco_nyielders = 0;
''', '''        while (sco_nyielders > 0) {
            sco_list_push_back(&sco_runners, sco_list_pop_front(&sco_yielders));
            sco_nyielders--;
            sco_nrunners++;
        }
'''))
r('start-args', 'C16 C06', ('''    co->argc = argc;
    for (int i = 0; i < argc; i++) {
        co->argv[i] = args ? va_arg(*args, void*) : argv[i];
    }
''', '''    co->argc = argc;
    if (args) {
        for (int i = 0; i < argc; i++) {
            co->argv[i] = va_arg(*args, void*);
        }
    } else if (argc > 0) {
        memcpy(co->argv, argv, (size_t)argc * sizeof(void*));
    }
'''), ('''    co->canceled = false;
    co->deadlined = false;
    co->lastid = 0;
    co->cleanup = NULL;
    co->sigwatch = 0;

    if (gen) {''', '''    reset_state(co);

    if (gen) {'''), ('''static int start(void(*coroutine)(int, void**), int argc, va_list *args,
''', '''static void reset_state(struct coroutine *co) {
    co->sigwatch = 0;
    co->cleanup = NULL;
    co->lastid = 0;
    co->deadlined = false;
    co->canceled = false;
}

static int start(void(*coroutine)(int, void**), int argc, va_list *args,
'''))
r('cond-relock', 'C08', ('''    bool canceled = false;
    while (mutex_lock_dl(co, mu, INT64_MAX) != NECO_OK) {
        canceled = true;
    }
    if (canceled) {
        co->canceled = true;
    }
    return ret;''', '''    bool canceled = false;
    for (;;) {
        if (mutex_lock_dl(co, mu, INT64_MAX) == NECO_OK) {
            break;
        }
        canceled = true;
    }
    co->canceled = co->canceled || canceled;
    return ret;'''))
r('waitdl-order', 'C17 C18', ('''    evmap_insert(&rt->evwaiters, co);
    rt->nevwaiters++;
''', '''    rt->nevwaiters++;
    evmap_insert(&rt->evwaiters, co);
'''), ('''    evmap_delete(&rt->evwaiters, co);
    rt->nevwaiters--;

    co->evfd = 0;
    co->evkind = 0;
''', '''    rt->nevwaiters--;
    evmap_delete(&rt->evwaiters, co);
    co->evkind = 0;
    co->evfd = 0;
'''))
r('sched-run', 'C29', ('''    struct coroutine *co = colist_pop_front(&rt->pool);
    while (co) {
        coroutine_free(co);
        co = colist_pop_front(&rt->pool);
    }
    return ret;''', '''    rt_drain_pool();
    return ret;'''), ('static int rt_scheduler(void) {', '''static void rt_drain_pool(void) {
    while (!colist_is_empty(&rt->pool)) {
        coroutine_free(colist_pop_front(&rt->pool));
    }
}

static int rt_scheduler(void) {'''))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    names = sys.argv[1:] or list(R)
    for n in names:
        pids, subs = R[n]
        shutil.rmtree(S, ignore_errors=True); shutil.copytree('/repo', S, symlinks=True)
        p = S + '/neco.c'; s = open(p).read()
        for a, b in subs:
            if s.count(a) < 1: print(n, 'does not apply:', a[:60]); break
            s = s.replace(a, b, 1)
        else:
            open(p, 'w').write(s)
            c = sh('gcc -Wall -Wextra -c -o /dev/null neco.c -DLLCO_NOUNWIND 2>&1 | grep -E "error|warning" | head -3', cwd=S)
            print(n, c.stdout.strip(), flush=True)
            for q in pids:
                o = sh('VERIF_REPO=%s VERIF_BUILD=refactor python3 /verif/run.py %s' % (S, q))
                l = [x for x in o.stdout.split('\n') if x.startswith(('VIOL', 'FAILED', 'UNDEC', 'NOT-L'))]
                print('  ', q, 'rc', o.returncode, *l[:4], sep=' | ', flush=True)
    shutil.rmtree(S, ignore_errors=True)
main()
