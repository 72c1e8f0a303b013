# The properties: one entry each; `python3 props.py` rewrites properties.jsonl and MANIFEST.json.
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, mech, files=('neco.c',), state=(), observe=(), note=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
      why_tests_cant=why, anchors=dict(files=list(files),
      mechanism=[dict(name=m, where='%s: %s' % (files[0], m)) for m in mech.split()],
      state=[dict(name=a, meaning=b, where=files[0]) for a, b in state],
      observe_at=list(observe), hook_needed=None), note=note))

p('C01', 'Channel messages arrive once, in order and unchanged',
  'Every message whose send returned OK is delivered to exactly one receiver, byte for byte, in the order sent, unless the channel is destroyed first; a send that failed delivers nothing and a receive that failed consumes nothing. A send blocks only while the buffer is full and no receiver waits, and a receive only while nothing is available; waiting peers are served first come, first served. This holds however timeouts and cancelations of the waiting coroutines interleave with the exchange.',
  'schedules histories inputs', 'all channel capacities, fill levels, ring positions, message sizes and contents, queues of senders or receivers, and all ways in which a blocked operation ends (peer, deadline, cancel, close, or several before it runs again)',
  'The tests send fixed sequences between a few coroutines; a message lost when a peer times out between being chosen and running again needs one particular interleaving.',
  'neco_chan_send_dl neco_chan_send neco_chan_recv_dl neco_chan_recv cbuf_push cbuf_pop',
  observe=['neco_chan_send*', 'neco_chan_recv*'])
p('C02', 'Closing a channel: no more sends, full drain, no one left waiting',
  'After close every send and broadcast fails with NECO_CLOSED and a second close fails, while receivers still get every message sent before the close and get NECO_CLOSED, with a zeroed result, only after the last one. Receivers waiting at the moment of the close are all woken and told CLOSED. A receive that does not wait (tryrecv) takes exactly what a receive would take, or reports EMPTY or CLOSED and changes nothing.',
  'schedules histories inputs', 'all buffer contents, queues of waiting senders, receivers and selects at the time of the close',
  'The tests close channels in a few fixed states.', 'neco_chan_close neco_chan_tryrecv chan_close chan_recv0',
  observe=['neco_chan_close', 'neco_chan_tryrecv', 'neco_chan_recv*'])
p('C03', 'A broadcast reaches exactly the receivers waiting at that moment',
  'A broadcast hands a copy of the message to every coroutine that is waiting to receive or select on the channel at that moment and can still take it, once each, wakes all of them, and returns their number. It never blocks on a receiver, never touches the buffer or waiting senders, and nothing is kept for later receivers.',
  'schedules inputs histories', 'all numbers and kinds of waiting receivers (including selects and receivers already due to time out), buffer states and messages',
  'The tests broadcast to a fixed group of receivers.', 'neco_chan_broadcast chan_broadcast0',
  observe=['neco_chan_broadcast'])
p('C04', 'Select picks one ready channel and leaves the others untouched',
  'A select over several channels returns the index of a channel that is ready, and the message then taken is one from that channel; no other channel loses a message or keeps a trace of the select. A select blocks only if no channel is ready, is woken by a send, broadcast or close on any of them, and reports timeout or cancelation without consuming a message. The non-waiting select returns EMPTY instead of blocking.',
  'schedules histories inputs', 'all combinations of channel states, orders of the arguments and ways the wait ends (including two peers acting before the select runs again)',
  'The tests use a few fixed combinations of channels and peers.', 'neco_chan_selectv_dl neco_chan_tryselectv neco_chan_case',
  observe=['neco_chan_select*', 'neco_chan_case'])
p('C07', 'Mutex: exclusion, shared readers, FIFO grants, no lost or leaked lock',
  'At any time a mutex is held by one writer or by any number of readers, never both; a lock call returns OK if and only if the caller then holds the lock, and returns any error only without holding it. Waiters are granted in arrival order (consecutive readers together, and a new reader does not overtake a waiting writer), and unlocking always passes the lock on when someone waits. A timed out or canceled waiter leaves no trace and loses the lock for no one.',
  'schedules histories', 'all holder states and waiter queues, and all ways in which a waiter ends (grant, deadline, cancel, or a grant followed by either before it runs)',
  'The tests lock and unlock in fixed orders; a grant crossing a timeout needs one interleaving.', 'neco_mutex_lock_dl neco_mutex_rdlock_dl neco_mutex_unlock neco_mutex_trylock neco_mutex_tryrdlock neco_mutex_destroy',
  observe=['neco_mutex_*'])
p('C08', 'Condition variables lose no wakeup and always return with the mutex',
  'A coroutine that waits on a condition variable releases the mutex and starts waiting in one step, so no signal sent after its release is lost. A signal wakes the longest waiting coroutine (exactly one), a broadcast wakes all, and a signal is never used up by a coroutine that reports a timeout or cancelation instead while others wait. The wait returns only after the mutex is locked again, whatever the result.',
  'schedules histories', 'all waiter queues, mutex states at the time of return, and all ways and orders of signal, deadline and cancel',
  'The tests signal in fixed orders with the waiters already waiting.', 'neco_cond_wait_dl neco_cond_signal neco_cond_broadcast',
  observe=['neco_cond_*'])
p('C09', 'Wait groups release their waiters exactly when the count reaches zero',
  'A wait returns OK only if the count is zero or reached zero while waiting, and all waiters are released the moment it does; add and done change the count by exactly their argument and refuse, changing nothing, to take it below zero or beyond its range. A wait that times out or is canceled says so and leaves no trace.',
  'schedules histories inputs', 'all counts and deltas, waiter queues, and ways in which a wait ends',
  'The tests use small counts and a few workers.', 'neco_waitgroup_add neco_waitgroup_done neco_waitgroup_wait_dl',
  observe=['neco_waitgroup_*'])
p('C10', 'Sleeping and yielding: never early, clamped arithmetic, nothing left behind',
  'A sleep returns OK only when its time has come, lasts at least as long as asked for every duration up to the maximum without arithmetic wrap-around, and returns TIMEDOUT at once only for a time already past. A canceled sleep returns CANCELED and is ended at once. A yield lets every other runnable coroutine run and returns OK without using up a pending cancel.',
  'inputs schedules', 'all durations and absolute deadlines, clock readings, and cancelations',
  'The tests sleep for a few short durations.', 'neco_sleep neco_sleep_dl neco_yield',
  observe=['neco_sleep', 'neco_sleep_dl', 'neco_yield'])
p('C11', 'A cancel reaches its target once and only when the target allows it',
  'A cancel that returns OK has marked the target canceled and woken it, one that returns anything else has not, and a target that disables cancelation is not canceled until it enables it: the canceler waits until then, until the target ends (NOTFOUND), until its own deadline, or until it is canceled itself. A canceled coroutine sees the cancelation exactly once: an inline one as the result of a blocking operation, an asynchronous one by being ended there, with no trace of the wait left. Cancel type and state accept only the known values and return the previous one.',
  'schedules histories inputs', 'all target states, own states, and interleavings of cancel, enable, termination and deadline',
  'The tests cancel coroutines in a few fixed states.', 'neco_cancel neco_cancel_dl neco_setcanceltype neco_setcancelstate coexit',
  observe=['neco_cancel*', 'neco_setcancel*'])
p('C13', 'Join returns OK only after its target has terminated, and then always',
  'A join returns OK only if the target coroutine has terminated or does not exist, and every coroutine joined to a terminating one is woken, whatever their number. A coroutine cannot join itself. A join that times out or is canceled says so and leaves no trace in the target.',
  'schedules histories', 'all sets of joiners and ways in which the join ends',
  'The tests join a few coroutines in fixed orders.', 'neco_join neco_join_dl coexit',
  observe=['neco_join*'])
p('C14', 'Suspend waits for a resume, and resume wakes only suspended coroutines',
  'A suspended coroutine runs again only when resumed (OK), when its deadline passes (TIMEDOUT) or when canceled (CANCELED), and is counted as suspended exactly meanwhile. Resume wakes exactly the named coroutine if it is suspended, reports NOTSUSPENDED for one that is not and NOTFOUND for one that does not exist, and then disturbs nobody.',
  'schedules histories', 'all target states and ways the suspension ends',
  'The tests suspend and resume in fixed orders.', 'neco_suspend neco_suspend_dl neco_resume',
  observe=['neco_suspend*', 'neco_resume'])
p('C24', 'Fair scheduling: everybody runnable runs, in order, once per round',
  'A coroutine that becomes runnable runs again after those that became runnable before it, and each round runs all of them once before anybody runs twice; none is lost, run twice, or run after its end. A paused coroutine runs again only after it was resumed by its identifier, and resuming one that is not paused changes nothing. A started coroutine runs at once, its starter goes on before any coroutine that yielded, and after each round the runtime gets its turn to serve timers, events and signals.',
  'schedules histories', 'all combinations of running, yielding and paused coroutines and all scheduling operations',
  'The tests run small fixed programs whose results do not show who ran when.', 'sco_switch sco_entry sco_start sco_yield sco_pause sco_resume sco_exit sco_active',
  observe=['neco_start', 'neco_yield', 'neco_resume', 'neco_suspend'])

p('C05', 'Channel memory: sized right, kept while in use, given back once',
  'A channel made with a message size and capacity holds that many whole messages, each in its own slot, or is refused with an error when its size cannot be represented or there is no memory. It stays alive exactly until the last of its references (one per make or retain) is released and no operation uses it, and is then given back once, to the pool or the allocator; a reused channel is indistinguishable from a new one.',
  'inputs histories', 'all message sizes, capacities, slot numbers, reference counts, pool states and allocation failures',
  'The tests make small channels and never run out of memory; a slot computed in the wrong width only shows for huge channels.',
  'neco_chan_make neco_chan_retain neco_chan_release chan_free cbufslot', observe=['neco_chan_make', 'neco_chan_retain', 'neco_chan_release'])
p('C06', 'Generators hand over each value once and end cleanly',
  'Each value a generator yields is received by exactly one neco_gen_next, in order; next reports CLOSED after the generator coroutine returned or was closed, and a yield into a closed generator fails, so that neither side waits for a partner that is gone. The generator lives while referenced, and starting one either starts the coroutine with its arguments or leaves nothing behind.',
  'schedules histories inputs', 'all value sizes, orders of next, yield and close, argument lists and allocation failures',
  'The tests run generators to their end in one order.', 'neco_gen_start neco_gen_next_dl neco_gen_yield_dl neco_gen_close neco_gen_retain neco_gen_release coexit',
  observe=['neco_gen_*'])
p('C12', 'The end of a coroutine runs its handlers and frees everyone who waits for it',
  'However a coroutine ends (return, neco_exit, cancelation), its clean-up handlers run exactly once each, last pushed first, and each to its end even if it waits while a cancelation is pending. Its joiners and cancelers are woken, its identifier is gone, a generator it ran is closed, and its memory is reused only after it left its stack. When it ends, it leaves no entry in any queue, and the runtime counts it out exactly once.',
  'schedules histories', 'all ways to end, numbers of handlers, joiners and cancelers',
  'The tests end coroutines in a few ways.', 'coexit cleanup coentry neco_cleanup_push neco_cleanup_pop', observe=['neco_start', 'neco_exit', 'neco_cleanup_*', 'neco_join'])
p('C15', 'The scheduler wakes exactly who is due, promptly',
  'Each turn of the scheduler wakes every coroutine that was resumed, whose deadline has come or whose background work has finished, once each, and nobody else; it never sleeps while somebody is due, nor longer than until the next deadline, and nobody due is left behind.',
  'schedules histories', 'all sets of resumed coroutines, deadlines, finished work and clock readings',
  'The tests run with a handful of timers whose order hardly varies.', 'rt_sched_resched_step rt_sched_deadline_step rt_sched_iolist_step rt_sched_step', observe=['neco_sleep', 'every *_dl operation'])
p('C16', 'A started coroutine runs with its arguments and fresh state',
  'A successful start runs the function once, in a new coroutine with a new identifier and exactly the given arguments; the coroutine starts with cancelation enabled, nothing pending, no clean-up handlers and no leftovers of a finished one whose memory it reuses. A start that fails changes nothing, leaks nothing and reports why. A coroutine can read its own and its starter\'s identifier and its arguments.',
  'inputs histories', 'all argument counts, pool states, states left by finished coroutines and allocation failures',
  'The tests start a few shapes and never run out of memory.', 'neco_start start coentry rt_release neco_getid neco_lastid neco_starterid neco_argc neco_argv', observe=['neco_start', 'neco_startv', 'neco_getid', 'neco_argv'])
p('C17', 'A coroutine waiting for a descriptor is woken by readiness, hang-up or error',
  'A coroutine waiting for a descriptor to become readable or writable is woken when the system reports that readiness, a hang-up or an error on this descriptor, and only then, or at its deadline or cancelation. Several coroutines may wait for the same descriptor in either direction: none of them is forgotten, and nobody waiting for another descriptor or direction is disturbed.',
  'schedules histories', 'all sets of waiters over descriptors and directions, and all batches of events',
  'The tests wait with one coroutine per descriptor.', 'neco_wait_dl wait_dl cowait rt_sched_event_step evmap_insert', observe=['neco_wait_dl', 'neco_read_dl', 'neco_write_dl', 'neco_accept_dl', 'neco_connect_dl'])
p('C18', 'Reads, writes, accepts and connects do what the system call does, exactly once',
  'A read, write, accept or connect that returns success transferred or connected exactly what it reports: a write sends the bytes of the buffer in order without gaps or repetition and reports how many went out, even if it then fails, times out or is canceled. Interruptions and would-block answers are retried after waiting and never reported; any other error is reported with its errno. A timeout or cancelation is reported only when nothing was transferred, and leaves no trace.',
  'schedules faults inputs', 'all sequences of kernel answers (done, part, would block, interrupted, error), with and without background workers, deadlines and cancelations',
  'The tests meet few partial writes or interruptions, and none in combination with a cancelation.', 'neco_read_dl neco_write_dl neco_accept_dl neco_connect_dl read_dl write_dl accept_dl connect_dl', observe=['neco_read_dl', 'neco_write_dl', 'neco_accept_dl', 'neco_connect_dl'])
p('C19', 'Buffered streams deliver every byte once and in order',
  'The bytes read from a stream are exactly those received from its descriptor, in order, none lost, repeated or invented, across read, readfull, read_byte and unread; the bytes written are sent exactly once and in order, and a flush that fails half way keeps exactly the unsent rest. Errors, end of file, timeouts and cancelations are reported and never swallowed. A stream is closed once, and its memory given back with its last reference.',
  'schedules faults inputs', 'all buffer states and operation sequences, and all patterns of partial transfers and errors below',
  'The tests stream over a well-behaved loopback connection.', 'neco_stream_read_dl neco_stream_readfull_dl neco_stream_read_byte_dl neco_stream_unread_byte neco_stream_write_dl neco_stream_flush_dl neco_stream_close_dl stream_release', observe=['neco_stream_*'])
p('C20', 'A watched signal wakes its waiters and is never lost',
  'A signal that a coroutine watches does not end the program; every coroutine waiting for it is woken, once per wait, and gets its number, while waiters for other signals sleep on. A signal that arrives while nobody waits is kept until the next wait of a watcher. Watching and unwatching accept exactly the valid signal numbers and change only the calling coroutine\'s mask, and a wait without watched signals is refused.',
  'schedules histories inputs', 'all signal numbers, masks, sets of waiters and pending signals',
  'The tests raise two or three signals one at a time.', 'neco_signal_watch neco_signal_unwatch neco_signal_wait_dl rt_sched_signal_step sighandler', observe=['neco_signal_*'])
p('C21', 'Finished coroutines are reclaimed in time and the statistics tell the truth',
  'At every point where another coroutine can run, neco_getstats reports the number of coroutines that exist, sleep, wait to send, to receive, to lock, for descriptor events, signals, wait groups or conditions, or are suspended, whatever they wait for and however their waits end. A finished coroutine rests in the pool for reuse and is freed once it has rested there for its time, oldest first, never while in use and never twice; the event queue is closed only while nobody waits for events.',
  'schedules histories', 'all pool sizes and ages, all operations that wait and all ways in which their waits end',
  'The tests compare the statistics in a few fixed states.', 'neco_getstats rt_rc_step coroutine_free', observe=['neco_getstats'])
p('C29', 'A runtime lives as long as its coroutines and leaves nothing behind',
  'neco_start outside of a runtime sets one up, runs the given coroutine with its arguments on it, and returns when the last coroutine has ended, not before; each round serves the paused coroutines, then runs the runnable ones. While it runs, its signals reach it and no other signal disposition is touched. Afterwards, and after every failure to set it up, all memory, stacks, threads and descriptors are given back once, in an order in which nothing is used after it was freed, and the signal handlers and signal stack of the program are what they were.',
  'faults schedules histories', 'all failures of the set-up, numbers of rounds and of pooled coroutines, and signal settings of the program',
  'The tests check neither the signal settings after the end nor failures in the middle of the set-up.', 'run rt_scheduler rt_handle_signals rt_restore_signal_handlers rt_release neco_start neco_startv', observe=['neco_start', 'sigaction', 'sigaltstack'])
p('C22', 'Misuse is refused and every error is reported truthfully',
  'Every operation called outside of a coroutine where it needs one reports PERM (the descriptor operations: -1 with errno EPERM), and one called with an invalid argument reports INVAL; refused calls change nothing and never give up control. neco_lasterr is the outcome of the last operation, with a system error as its own code. Every error code has a name and a message of its own, system errors convert to the matching codes and back, and only misuse and lack of memory panic, and only if the program asked for it.',
  'inputs', 'all operations, kinds of misuse, errno values, error codes and previous errors',
  'The tests try a few of the refusals and compare a few of the texts.',
  'neco_lasterr neco_errconv_from_sys neco_errconv_to_sys neco_strerror neco_shortstrerror errhpnd error_guard', observe=['every neco_* operation', 'neco_lasterr', 'neco_strerror', 'neco_shortstrerror'])
p('C27', 'Background work runs exactly once and its coroutine waits for it',
  'neco_work runs the given function exactly once, with its argument, outside the runtime\'s thread, and returns OK only after it has finished, no matter how the coroutine is canceled meanwhile; other coroutines go on running. Each worker thread works off its queue in order, unlocked, dropping and repeating nothing, work is accepted only if there is room and a thread to run it, and the workers end only after everything accepted was done.',
  'schedules faults histories', 'all queue states, thread start failures, submissions while the thread works or ends, and cancelations',
  'The tests submit a few pieces of work at a time and threads never fail to start.', 'neco_work worker_submit worker_entry worker_new worker_free iowait iodone', files=('neco.c', 'deps/worker.c'), observe=['neco_work'])

p('C26', 'Every coroutine has a stack of its own',
  'A stack given to a coroutine consists of whole pages, at least as many bytes as configured, in mapped memory; it overlaps neither another stack in use nor the data of the allocator, is apart from them by the configured gap, and lies between two guards if guards are asked for. Nobody else writes to it until it is given back. A stack given back is used first for the next coroutine, its pages go back to the system, and a block of stacks is unmapped, whole and once, when its last stack is given back, or in the end; if memory or a guard cannot be had, the request fails and everything stays as it was.',
  'histories inputs faults', 'all histories of takes and returns with all settings, failing system calls, and all stack and gap sizes',
  'The tests run a handful of coroutines and never look at where their stacks lie; an overlap shows only when two stacks are used deeply.',
  'stack_mgr_init stack_get stack_put stack_mgr_destroy stack_group_new stack_release_group stack_align_size', files=('neco.c', 'deps/stack.c'), observe=['neco_start'])

p('C25', 'The ordered maps of the runtime keep every entry, once, in order',
  'The maps of coroutines, deadlines, file events and paused coroutines hold exactly the entries inserted and not deleted since, each once and in the order of their keys, whatever the history of insertions and deletions. Search finds an entry if and only if it is there, the first, next and at-or-after queries return the right neighbours, and a removed entry keeps no links. The maps stay balanced, so that no operation takes more than logarithmic time or stack.',
  'histories inputs', 'all sets of keys and all insertions and deletions on them',
  'A rotation that is wrong in one of its shapes needs a particular history of deadlines or identifiers.',
  'AAT_IMPL all_compare dl_compare evcompare sco_compare', files=('neco.c', 'deps/aat.h'), observe=['neco_cancel', 'neco_join', 'neco_resume', 'neco_sleep'])

if __name__ == '__main__':
    import jobs as J
    chk, na = [], []
    for q in P:
        note = q.pop('note')
        b = J.PROPS.get(q['id'])
        bounded = [J.JOBS[j].get('bounded') for j in b['jobs']]
        nb = sum(1 for x in bounded if x)
        chk.append(dict(property=q['id'], quick_cmd='python3 run.py %s' % q['id'],
          thorough_cmd='python3 run.py %s --thorough' % q['id'], technique=b.get('technique', J.TECH), level=b.get('level', 'proof' if nb < len(bounded) else 'other'),
          level_note=(note + ' ' if note else '') + J.LEVEL_NOTE + (' Bounded, not counted as proved: ' + '; '.join(sorted(set(x for x in bounded if x))) + '.' if nb else '')))
    with open(HERE + '/properties.jsonl', 'w') as f:
        for q in P: f.write(json.dumps(q) + '\n')
    json.dump(dict(version=1, setup_cmd='python3 run.py --selftest', hooks=dict(guard='none (no hooks)', enable='nothing to enable: the units include the sources of /repo as they are', source_commits=[]),
      checks=chk, not_applicable=J.NOT_APPLICABLE, notes='See DESIGN.md.'), open(HERE + '/MANIFEST.json', 'w'), indent=1)
