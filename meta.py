#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the runs in props.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
L, I = 'src/lib/', 'src/include/cppev/'
# id: title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)]
P = {}
def p(id, title, st, over, qt, why, files, mech, state=None):
    assert len(title) <= 80, (id, len(title)); P[id] = dict(title=title, st=st, over=over.split(), qt=qt, why=why, files=files, mech=mech, state=state)

p('C01', 'A byte buffer is a first-in first-out queue of bytes',
  'After any sequence of producing, consuming, taking strings, indexing, resizing, compacting and clearing, a buffer holds exactly the bytes produced and not yet consumed, in order, and reports their number. No operation within its stated arguments touches memory outside the buffer, and nothing is leaked.',
  'inputs histories', 'every sequence of operations and every byte content, for every initial capacity, within the bounds',
  'test_buffer runs a few fixed sequences; growth, compaction and consumption interact only in particular orders and sizes.',
  [I + 'buffer.h'], [('produce/resize/tiny keep start and end offsets consistent', I + 'buffer.h:produce'), ('get_string and consume advance the start offset', I + 'buffer.h:get_string')])
p('C02', 'Copies and moves of a buffer preserve content and are independent',
  'A copied buffer has the content of its source and neither sees later changes of the other; a moved-to buffer has the content of the source and the source may be assigned to again. This includes self assignment and swapping, and every block of memory is released once.',
  'inputs histories', 'every content, every capacity and every operation before and after the copy or move',
  'The tests copy and move one buffer each; sharing shows only when one of the copies is changed afterwards.',
  [I + 'buffer.h'], [('copy and move members', I + 'buffer.h:copy')])
p('C03', 'Reading a stream delivers exactly the bytes that arrived',
  'A read moves the bytes that arrived, in order and unchanged, to the end of the read buffer, as many as requested and available, under any mix of interrupted calls and partial reads. End of stream and connection reset are reported exactly when they happened, and a failing read raises an error with the error number of the system and loses no byte.',
  'inputs fault_sequences histories', 'every byte content, requested length, interleaving of arrivals and reads, and placement of interruptions, short reads and failures within the bounds',
  'Tests read from an idle machine: interruptions, short reads, resets and failures at chosen moments do not occur there.',
  [L + 'nio.cc', I + 'nio.h'], [('read loops with EINTR/EAGAIN handling', L + 'nio.cc:nstream::read_chunk')])
p('C04', 'Writing a stream sends the buffered bytes and keeps the rest',
  'A write sends the oldest bytes of the write buffer in order, as many as requested and accepted by the peer, and the unsent rest stays buffered in order. A peer that is gone is reported as a broken pipe without ending the process, and a failing write raises an error with the error number of the system and loses no byte.',
  'inputs fault_sequences histories', 'every byte content, length, room at the peer and placement of interruptions, short writes, failures and the departure of the peer within the bounds',
  'Tests write small messages to a peer that reads; a full peer, an interruption between two partial writes and a failing write are not produced.',
  [L + 'nio.cc', I + 'nio.h'], [('write loops with EINTR/EAGAIN/EPIPE handling', L + 'nio.cc:nstream::write_chunk')])
p('C05', 'Pipes, fifos and sockets carry a byte stream end to end',
  'For every kind of stream the library makes, the bytes read on one side are always a prefix of the bytes written on the other, none is lost or duplicated while in transit, and the reader sees the end after the last byte.',
  'inputs fault_sequences histories', 'every byte content, every split into writes and reads, in both directions of a connection, with interruptions and short transfers',
  'The tests transfer one message in one piece per kind of stream.',
  [L + 'nio.cc', I + 'nio.h'], [('nio_factory and nstream transfers', L + 'nio.cc:nio_factory')])
p('C06', 'Descriptors have one owner and are released exactly once',
  'Every descriptor is closed exactly once: when its object is closed, destroyed or overwritten by a move, and never again after its number was reused. A move transfers descriptor, buffered data and stream state, and a factory that fails midway leaves no descriptor behind.',
  'histories fault_sequences configurations', 'every kind of object, every order of close, move, assignment, self assignment and destruction, and every failing system call inside the factories',
  'Leaks and double closes have no visible effect in a short test process.',
  [L + 'nio.cc', I + 'nio.h'], [('nio move members and close', L + 'nio.cc:nio::close'), ('nio_factory', L + 'nio.cc:nio_factory')])
p('C07', 'Wrapped descriptors are non-blocking and keep their other flags',
  'A descriptor taken over by the library is switched to non-blocking mode, switching the mode back and forth changes nothing but that mode, and a refused switch is reported as an error.',
  'configurations fault_sequences', 'every combination of existing status flags and every failing call',
  'The tests never look at the flags of a descriptor.',
  [L + 'nio.cc'], [('set_io_nonblock/set_io_block', L + 'nio.cc:nio::set_io_nonblock')])
p('C08', 'Socket options take effect and read back as set',
  'Every option setter changes the option it names on its own socket, the matching getter reports the value in force, and a failure of either is reported as an error.',
  'inputs fault_sequences configurations', 'every option, every value of its type and every failing call',
  'The tests set a few options to one value each.',
  [L + 'nio.cc', I + 'nio.h'], [('option setters and getters', L + 'nio.cc:nsock')])
p('C09', 'Addresses given are the addresses used and reported',
  'Binding and querying names every IPv4 and IPv6 address and port and every local path exactly as given, without a change of byte order or truncation. An address or path that cannot be represented is refused with an error instead of being altered.',
  'inputs', 'every address, port, and path length around the limit of the system',
  'The tests use the loopback address, a few ports and short paths.',
  [L + 'nio.cc'], [('address conversion', L + 'nio.cc:set_ip_port/query_ip_port_family'), ('local paths', L + 'nio.cc:set_path')])
p('C10', 'Connections are accepted once each and failures are reported',
  'Each connection made to a listening socket is accepted exactly once and carries the addresses of both ends, and a connection attempt reports success exactly when a connection exists or is under way. Interrupted or aborted attempts and failing calls neither lose other connections nor end the process.',
  'inputs fault_sequences histories', 'every number of waiting connections and accept sizes, kinds of address and placements of interruptions and failures within the bounds',
  'The tests accept a single connection; aborted connections and failures in the middle of a batch do not occur.',
  [L + 'nio.cc'], [('accept loop', L + 'nio.cc:nsocktcp::accept'), ('connect', L + 'nio.cc:nsocktcp::connect')])
p('C11', 'Datagrams arrive whole and unchanged with the right sender',
  'Each datagram up to the configured size is received as one unit, unchanged and in order, with the address and port of its sender, and an empty one is a datagram too. A larger one may be cut at that size, and nothing else is disturbed. A failing send or receive is reported as an error and alters neither buffer.',
  'inputs fault_sequences histories', 'every content and size, both address families and local sockets, and every failing call',
  'The tests send one datagram; failures are not produced.',
  [L + 'nio.cc'], [('send/recv', L + 'nio.cc:nsockudp::send')])
p('C12', 'Shutting down one direction leaves the other working',
  'Shutting down receiving, sending or both on a connection stops exactly those directions as seen from both sides, and keeps the descriptor open.',
  'configurations histories', 'every mode, followed by transfers in both directions',
  'The tests never shut down one direction.',
  [L + 'nio.cc'], [('shutdown', L + 'nio.cc:nsocktcp::shutdown')])
p('C13', 'One pass of the event loop runs the ready handlers by priority',
  'A pass runs each handler of the descriptors it serves exactly once, in order of decreasing priority, and serves as many ready descriptors as fit its batch. It begins as soon as something is ready; with nothing ready it ends when its timeout has passed, and without a timeout it waits. A handler removed by an earlier handler of the pass is not run, one added during the pass waits for the next, and the departure of a peer wakes the handler. The error of a handler reaches the caller of the pass, and neither it nor a pass run within a handler makes a later pass run a handler twice or not at all.',
  'inputs configurations histories', 'every set of ready descriptors, priorities, batch size, order of readiness, and every removal, closing or replacement done by a handler within the bounds',
  'The tests have handlers that only transfer data; the outcome of changing registrations during a pass depends on order.',
  [L + 'event_loop_epoll.cc', I + 'event_loop.h'], [('loop_once builds the handler queue', L + 'event_loop_epoll.cc:event_loop::loop_once')])
p('C14', 'What an event loop watches is exactly what is registered',
  'After any sequence of registrations and removals, the events watched, the number of handlers counted and the handlers run are those of the registrations in force. A registration or removal that the system refuses is reported as an error and leaves no trace.',
  'histories inputs fault_sequences', 'every sequence of registrations, activations, removals and deactivations with every interest and refused call within the bounds',
  'The tests register and remove each descriptor once.',
  [L + 'event_loop_epoll.cc', I + 'event_loop.h'], [('fd_register/fd_remove keep handlers and interest together', L + 'event_loop_epoll.cc:event_loop::fd_register')])
p('C15', 'An event loop can be stopped and fed from other threads',
  'A running loop returns after being told to stop, from another thread or from a handler, before or after it started to wait. Descriptors registered or removed by another thread while the loop waits or runs are served accordingly, without data races, lost events or deadlock.',
  'schedules histories', 'every interleaving of the loop with one other thread up to a number of preemptions, with interrupted waits',
  'The moment at which a stop or a registration meets the loop is up to the scheduler of the system.',
  [L + 'event_loop_epoll.cc', I + 'event_loop.h'], [('stop flag and wake-up descriptor', L + 'event_loop_epoll.cc:event_loop::stop_loop')])
p('C16', 'A server announces, feeds and ends every connection correctly',
  'Every connection to a server is announced once before any other callback; all its bytes are delivered in order; every written byte reaches the peer in order, however little the socket takes at a time, and completion is reported once per write; a peer that closes only its writing side still gets what is written to it; the end is announced exactly once when the peer closes and never after the application closed. Finished connections release their descriptors and live ones keep theirs. A failed listen leaves the server as it was. Nothing that the callbacks do with their connections, ended ones included, and nothing that the peer does ends the process.',
  'histories inputs schedules', 'every combination of what the application does in each callback (nothing, write, close, both) and of when the peer sends, stays, leaves late or at once, with sockets that take fewer bytes than written',
  'The tests do not cover the server classes at all; the examples use one pattern of callbacks.',
  [L + 'tcp.cc', I + 'tcp.h'], [('acceptor and io threads', L + 'tcp.cc:acceptor'), ('async_write and on_writable', L + 'tcp.cc:async_write'), ('safely_close', L + 'tcp.cc:safely_close')])
p('C17', 'Connections go to the worker with the fewest connections',
  'Each new connection of a server that has taken up the earlier ones is handed to a worker that has the fewest connections at that time; connections that arrive together at idle workers are spread evenly, and a client spreads the connections it makes likewise. The callbacks of one connection all run in that worker and reach the data given to the server.',
  'histories configurations', 'every sequence of connections for the worker counts within the bounds',
  'The choice is invisible to a client and not tested.',
  [L + 'tcp.cc', I + 'event_loop.h'], [('minloads_get_evlp', L + 'tcp.cc:minloads_get_evlp')])
p('C18', 'A client makes exactly the connections it was asked for',
  'Asking for a number of connections, in one or several calls, before or after the client was started and from any thread, leads to exactly that many attempts, and each that succeeds is announced once. Failed attempts release their descriptors and disturb nothing else.',
  'inputs schedules fault_sequences', 'every number, split into calls, number of connector threads, kind of target, outcome of each attempt and interleaving within the bounds',
  'No test uses the client classes; asynchronous failures and concurrent requests need particular timing.',
  [L + 'tcp.cc', I + 'tcp.h'], [('connector', L + 'tcp.cc:connector'), ('wake-up pipe and pending hosts', L + 'tcp.cc:connector::add')])
p('C19', 'Shutting down a server or client ends all of its threads',
  'A shutdown at any moment after the start returns, all threads of the server or client have ended by then, and the destruction releases every descriptor once.',
  'schedules histories', 'every interleaving of start, traffic and shutdown up to a number of preemptions',
  'A lost stop or wake-up is a hang that depends on the moment.',
  [L + 'tcp.cc', I + 'tcp.h'], [('shutdown', L + 'tcp.cc:tcp_server::shutdown')])
p('C20', 'Queued tasks run exactly once, in order of submission, and all finish',
  'Every task given to a task queue before it is stopped runs exactly once, also when added by other threads, by a task, one by one or in groups, and tasks start in the order of submission. Different workers run tasks at the same time, an idle queue waits without losing a wake-up, and stopping returns after everything queued has run. What a task holds is released once the task has run, and may itself use the queue.',
  'schedules inputs histories', 'every interleaving of producers and workers up to a number of preemptions, every way of adding',
  'The tests run tasks on an idle machine; lost wake-ups and double execution depend on interleaving.',
  [I + 'thread_pool.h'], [('task queue under a mutex and condition', I + 'thread_pool.h:thread_pool_task_queue')])
p('C21', 'Threads start, finish, detach and join as reported',
  'A started thread runs its body once with everything the starter did before visible to it; joining waits for its end and makes its effects visible, waiting with a limit tells truly whether it ended, and failing to start, join or detach is reported as an error. A pool makes, starts, joins, cancels and moves all of its threads, each made from the arguments given.',
  'schedules fault_sequences configurations', 'every interleaving up to a number of preemptions, every duration of the body relative to the limit, and a failing start',
  'The tests start threads that end at once or sleep for fixed times.',
  [I + 'runnable.h', I + 'thread_pool.h'], [('runnable::run/join/wait_for', I + 'runnable.h:runnable::run'), ('thread_pool', I + 'thread_pool.h:thread_pool')])
p('C22', 'Log messages are written whole, once and in order',
  'Every message completed by any thread appears in the output exactly once, whole, with its header, and in the order of completion per thread, however the output takes the bytes; the header names the level, the time and the thread. Destroying the logger writes everything still pending and returns.',
  'schedules inputs fault_sequences', 'every interleaving of writers and the destruction with the background thread up to a number of preemptions, and partial or interrupted writes',
  'The tests print and are checked by eye; a lost last message needs a particular interleaving.',
  [L + 'async_logger.cc', I + 'async_logger.h'], [('double buffer with recursive lock', L + 'async_logger.cc:async_logger::run_impl')])
p('C23', 'Waiting for a one-time fence ends exactly after it was opened',
  'Nobody passes a fence before it was opened, everybody waiting or arriving later passes after that, however often it is opened, and what the opener did before is visible to those who passed. This holds between threads and, for a fence in shared memory, between processes.',
  'schedules configurations', 'every interleaving of opener and waiters up to a number of preemptions, with spurious wake-ups',
  'The tests have one waiter; a missed wake-up of another needs particular timing.',
  [L + 'lock.cc', I + 'lock.h'], [('one_time_fence', L + 'lock.cc:one_time_fence::wait')])
p('C24', 'A barrier releases all of its callers together',
  'Nobody passes a barrier before the full number of callers has arrived, then all pass and see what the others did before; a caller in excess is refused with an error and disturbs nobody. This holds between threads and between processes.',
  'schedules configurations', 'every interleaving up to a number of preemptions, every count within the bounds, callers in excess',
  'The tests start the callers with generous delays.',
  [L + 'lock.cc', I + 'lock.h'], [('barrier', L + 'lock.cc:barrier::wait')])
p('C25', 'Locks exclude as promised and pass on what was written',
  'At most one thread is inside a spinlock or mutex, and writers exclude everyone while readers exclude only writers; trying a lock succeeds exactly when it is free. What was written inside is visible to the next owner, waiting threads get in eventually, and failing lock calls are reported as errors.',
  'schedules fault_sequences configurations', 'every interleaving up to a number of preemptions, under the memory order written in the code, and every failing call',
  'The tests count under contention; a missing order or a rare overlap is not seen on one machine.',
  [L + 'lock.cc', I + 'lock.h'], [('spinlock', L + 'lock.cc:spinlock::lock'), ('pshared_rwlock/pshared_lock', L + 'lock.cc:pshared_rwlock')])
p('C26', 'Lock guards hold what they say and release it exactly once',
  'A guard holds its lock from construction or relocking until it is unlocked, destroyed or replaced by an assignment, and releases it exactly once. Moving a guard transfers the hold, and a guard that holds nothing releases nothing.',
  'histories schedules', 'every sequence of lock, unlock, move construction, assignment, self move and destruction within the bounds, for both kinds of guard',
  'The tests use guards in one scope.',
  [I + 'lock.h', L + 'lock.cc'], [('rdlockguard/wrlockguard', I + 'lock.h:rdlockguard')])
p('C27', 'Notifying a condition wakes the waiters it should',
  'A waiter on a condition returns only with the mutex held and its predicate true; notifying everyone wakes all present waiters and notifying one wakes one of them (spurious wake-ups aside), between threads and between processes. No notification sent while holding the mutex after the predicate changed is lost.',
  'schedules configurations', 'every interleaving of waiters and notifiers up to a number of preemptions, with spurious wake-ups',
  'Lost wake-ups depend on interleaving.',
  [L + 'lock.cc', I + 'lock.h'], [('pshared_cond', L + 'lock.cc:pshared_cond::wait')])
p('C28', 'Tokens of a semaphore are neither lost nor invented',
  'The tokens taken from a named semaphore never exceed those released, a waiting taker gets one as soon as there is one, also after interruptions, and trying reports truly whether it took one. Openers of the same name, at whatever moment, share one semaphore, failures are reported as errors, and handles are released exactly once.',
  'schedules inputs fault_sequences histories', 'every sequence of counts, every interleaving of takers and releasers up to a number of preemptions with interrupted waits, two processes opening at the same time, every failing call',
  'The only test of it is not part of the suite; interrupted waits and opening races need particular timing.',
  [L + 'ipc.cc', I + 'ipc.h'], [('semaphore', L + 'ipc.cc:semaphore::acquire')])
p('C29', 'Shared memory starts as zeros and is really shared',
  'All openers of a name see the same memory of the requested size, which starts as zeros and is never wiped after somebody could have written to it, also when they open at the same moment; exactly one is told it created the object. Objects built in place are usable by the others, failures are reported as errors, and mappings and descriptors are released exactly once.',
  'schedules inputs fault_sequences histories', 'every interleaving of two openers up to a number of preemptions, every content and offset, every failing call, every move of a handle',
  'The race between creation and opening has a window of a few instructions.',
  [L + 'ipc.cc', I + 'ipc.h'], [('shared_memory', L + 'ipc.cc:shared_memory::shared_memory')])
p('C30', 'A subprocess gets all input and its output and end are reported',
  'All output and error output of a subprocess is collected in order, all input given reaches it, neither side blocks the other forever, and its end and status are reported truly and repeatedly. Signals go to that process, giving it up ends its input, and failing to start is reported and leaves nothing behind.',
  'schedules inputs fault_sequences histories', 'every behaviour of a child that reads, writes to either output, closes and ends, with pipes smaller than the data and every interleaving up to a number of preemptions',
  'The tests run a few commands with little output.',
  [L + 'subprocess.cc', I + 'subprocess.h'], [('subp_open', L + 'subprocess.cc:subp_open::communicate')])
p('C31', 'A subprocess is started as the command says',
  'The command is run with exactly the words of the command line as arguments and the given environment, its standard streams connected to the parent and no other descriptor of the parent\'s pipes left open in it; broken pipes end it unless it decides otherwise, and other ignored or blocked signals are those of the caller. A command that cannot be run ends the child with status 127 and never lets it continue as a second parent.',
  'inputs configurations fault_sequences', 'every command line and environment within the bounds, with and without another live subprocess and with closed standard streams',
  'The tests run a few fixed commands.',
  [L + 'subprocess.cc', I + 'subprocess.h'], [('child side of subp_open', L + 'subprocess.cc:subp_open::subp_open')])
p('C32', 'Timed tasks are triggered at the multiples of their periods',
  'Each task of a scheduler is called with the time points start + k * period for consecutive k from 0, each once, never before that time, whatever the other tasks are and however late the thread wakes up or slow the tasks are. With alignment the start is a whole second that is not in the past.',
  'inputs histories configurations', 'every combination of frequencies within the bounds and every lateness of wake-ups and slowness of tasks',
  'The tests run two frequencies for a few seconds and compare counts.',
  [I + 'scheduler.h', I + 'utils.h'], [('trigger table over one common period', I + 'scheduler.h:timed_scheduler')])
p('C33', 'A scheduler runs start, timed and end tasks in the promised order',
  'Start tasks run once each in order before any timed task, end tasks once each in order after all timed tasks, and tasks due at the same time run in order of priority. Destroying the scheduler at any moment returns after the end tasks, and no task runs afterwards.',
  'schedules inputs configurations', 'every moment of destruction relative to the background thread up to a number of preemptions, every choice of priorities and numbers of tasks',
  'The tests destroy a scheduler that is sleeping between two triggers.',
  [I + 'scheduler.h'], [('background thread', I + 'scheduler.h:timed_scheduler')])
p('C34', 'Splitting and joining strings are exact inverses',
  'Splitting cuts a string at the leftmost non-overlapping occurrences of the separator, joining puts the separator between the pieces and nowhere else, and joining the pieces of a split gives back the string. An empty separator is refused for splitting.',
  'inputs', 'every string, separator and list of pieces within the bounds',
  'The tests use a handful of strings; overlapping and adjacent separators and empty lists matter.',
  [L + 'utils.cc'], [('split and join', L + 'utils.cc:split')])
p('C35', 'Stripping removes exactly the repetitions at the ends',
  'Stripping removes all whole repetitions of the pattern at the requested ends and nothing else, for left, right and both ends; an empty pattern is refused.',
  'inputs', 'every string and pattern within the bounds',
  'The tests use a handful of strings; remainders that resemble the pattern matter.',
  [L + 'utils.cc'], [('strip', L + 'utils.cc:do_strip')])
p('C36', 'Greatest common divisor and least common multiple are right',
  'For positive numbers the greatest common divisor divides all of them and is divisible by every common divisor, the least common multiple is divisible by all of them and divides every common multiple, and both are independent of the order. A multiple that fits the type is computed without overflow.',
  'inputs', 'every pair and triple of numbers within the bounds',
  'The tests use a handful of numbers.',
  [L + 'utils.cc'], [('gcd and lcm', L + 'utils.cc:greatest_common_divisor')])
p('C37', 'Aligning a time point gives the next whole second',
  'Aligning a time point gives a whole second that is not earlier and at most one second later, in clocks of different resolution.',
  'inputs', 'every time point after the epoch that fits the clock',
  'The tests try the current time.',
  [I + 'utils.h'], [('ceil_time_point', I + 'utils.h:ceil_time_point')])
p('C38', 'Signal masks and handlers change only for the signals named',
  'Blocking, unblocking, waiting and suspending affect exactly the signals named, in the calling thread only; queries report the truth for every signal; a handler set, ignored or reset applies to that signal alone. A signal that arrives while blocked is kept until it is waited for or unblocked.',
  'inputs histories', 'every signal number and set of signals, and every sequence of operations within the bounds',
  'The tests use two signals in fixed orders.',
  [L + 'utils.cc'], [('signal helpers', L + 'utils.cc:thread_block_signal')])
p('C39', 'Failures of the system are reported with their error number',
  'Every helper for signals, processes and time reports a failure of the system as an error that carries the error number of the system, and never as a result; asking whether a process or group exists is answered no exactly when the system says there is none.',
  'inputs fault_sequences', 'every helper, every error number and every argument',
  'The tests do not make system calls fail.',
  [L + 'utils.cc'], [('throw_system_error', L + 'utils.cc:throw_system_error'), ('check_process', L + 'utils.cc:check_process')])
p('C40', 'The event loop for BSD systems behaves as the one for Linux',
  'On systems with kernel queues instead of the Linux facility, the event loop gives the same guarantees about registration, dispatch, priorities and stopping.',
  'histories configurations', 'as for the event loop on Linux',
  'No test runs on such a system here.',
  [L + 'event_loop_kqueue.cc'], [('kqueue back end', L + 'event_loop_kqueue.cc')])
p('C41', 'Loaded functions are those of the library named',
  'Loading a library that does not exist or a function it does not have raises an error with a reason, a function loaded is the one the system finds under that name in that library, and the library is released exactly once when its loader goes away.',
  'inputs fault_sequences histories', 'every file name, function name and failing call within the bounds',
  'The tests load one library that exists.',
  [I + 'dynamic_loader.h'], [('dynamic_loader', I + 'dynamic_loader.h:dynamic_loader::load')])
p('C42', 'Timestamps show the time asked for',
  'Writing a time gives the text that the format prescribes for that time in the local zone, and for the current time when none is given. A text is never cut, and a time that has no representation is reported as an error.',
  'inputs', 'every time and format within the bounds',
  'The tests write the current time and look at it.',
  [L + 'utils.cc'], [('timestamp', L + 'utils.cc:timestamp')])
p('C43', 'A connection of a client is fed and ended like one of a server',
  'Every connection that a client made is announced once before any other callback about it; all bytes of the peer are delivered in order; every written byte reaches the peer in order, however little the socket takes at a time, and completion is reported once per write; a peer that closes only its writing side still gets what is written to it; the end is announced exactly once when the peer closes and never after the application closed. A connection that breaks before the client noticed that it was made is reported once, as made or as failed. Finished connections release their descriptors. Nothing that the callbacks do with their connections, ended ones included, and nothing that the peer does ends the process.',
  'histories inputs schedules', 'every combination of what the application does in each callback and of when the peer sends, stays, leaves or breaks the connection, with sockets that take fewer bytes than written',
  'The tests do not cover the client classes at all; the examples use one pattern of callbacks.',
  [L + 'tcp.cc', I + 'tcp.h'], [('connector and io threads', L + 'tcp.cc:connector'), ('async_write and on_writable', L + 'tcp.cc:async_write'), ('safely_close', L + 'tcp.cc:safely_close')])
p('C44', 'A server and a client of this library exchange every byte',
  'When a server and a client of this library run in one program, each announces every connection once; what the client writes arrives at the server unchanged and in order, and what the server answers arrives at the client so; when one side closes, the other is told once. No data is accessed by two threads without synchronisation, and every descriptor is released in the end.',
  'histories inputs schedules', 'every content of the messages and every schedule of all the threads of both sides within the bounds',
  'The tests do not cover these classes; the examples need a person to watch them and show one schedule.',
  [L + 'tcp.cc', I + 'tcp.h', L + 'event_loop_epoll.cc', L + 'nio.cc'], [('server and client threads', L + 'tcp.cc:iohandler'), ('reading and writing', L + 'nio.cc:nstream')])
p('C45', 'Tuning parameters change the speed and not the results',
  'Whatever the buffer step, the number of events handled in one go, and the datagram buffer size (not below the size of the datagrams), and whenever they are changed while objects are in use: streams carry the same bytes, datagrams arrive whole, every ready handler is served, and servers and clients announce, feed and end their connections the same way.',
  'inputs histories', 'every value of the parameters within the bounds and every change of them between two uses',
  'The tests run with one setting of each parameter.',
  [I + 'sysconfig.h', L + 'nio.cc', L + 'event_loop_epoll.cc', L + 'tcp.cc'], [('tuning parameters', I + 'sysconfig.h:sysconfig'), ('buffer step', L + 'nio.cc:read_all'), ('batch', L + 'event_loop_epoll.cc:loop_once')])

p('C46', 'Waiting for a moment ends then and not before',
  'A thread that waits for a moment goes on as soon as the moment has come and never before it, at once if it has passed already, whichever clock gives the moment, whatever resolution the clock has, and whether or not signals interrupt the wait.',
  'inputs fault_sequences configurations', 'every moment, clock and placement of interruptions within the bounds',
  'No test waits for a moment; clocks of a coarse resolution and interruptions at a chosen time do not occur in them.',
  [I + 'utils.h'], [('waiting for a time stamp', I + 'utils.h:sleep_until')])

NA = {
 'C40': 'The kqueue back end is excluded by the preprocessor on this platform: it needs <sys/event.h> and a kernel interface that is not installed here, so there is no compiled code to execute symbolically, and a hand-written model of its source would not be the real code.',
}
PENDING = 'The check is still being built: the code is within reach of the engine, and the property moves to the checks when its harness is complete.'

def main():
    import sys; sys.path.insert(0, V); sys.dont_write_bytecode = True
    import props
    with open(V + '/properties.jsonl', 'w') as f:
        for i, d in P.items():
            o = {'id': i, 'title': d['title'], 'statement': d['st'], 'quantifier': {'over': d['over'], 'text': d['qt']}, 'why_tests_cant': d['why'],
                 'anchors': {'files': d['files'], 'mechanism': [{'name': n, 'where': w} for n, w in d['mech']], 'observe_at': ['public interface of ' + ', '.join(sorted(set(x.split('/')[-1] for x in d['files'])))], 'hook_needed': None}}
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for i in P:
        if i in props.PROPS and i not in NA:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': 'symbolic execution of the compiled code (LLVM IR) with z3' + (', interleavings by bounded preemption with race detection' if 'schedules' in P[i]['over'] else ''),
                           'level': 'model_checking', 'level_note': 'Complete within the bounds: ' + props.PROPS[i]['bounds']})
        else:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
main()
