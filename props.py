"""The runs that decide each property.

R(entry, quick bounds, thorough bounds, ...): one harness entry (a function in
harness/) with the bounds it reads through param(); a list of bounds means one
engine run per member.  reach: situations that at least one explored path must
reach (otherwise the run is vacuous and the check gives no answer).  race:
happens-before race detection on; atomic: atomic accesses are preemption points."""
COMMON_ASSUMPTIONS = [
    'the code is compiled by clang 18 at -O1 for x86-64 Linux with libstdc++ 13; the symbolic execution works on that LLVM IR',
    'system calls, pthread objects, allocation, exceptions and the clock are the executable environment model in model/ (POSIX semantics; nondeterminism limited by the budgets of each run)',
    'threads are switched at synchronisation operations and system calls (and at atomic accesses where stated), at most the stated number of times without need; race detection reports unsynchronised accesses where it is on',
    'allocation does not fail',
]
def R(entry, q=None, t=None, **k):
    d = dict(entry=entry, q=q or {}); 
    if t is not None: d['t'] = t
    d.update(k); return d
PROPS = {
 'C01': dict(bounds='sequences of 3 operations (thorough: 4) out of 9 kinds with up to 2 bytes each from initial capacities 1..3 and the default; two productions of up to 9 (20) bytes around a consumption; strings of up to 131071 bytes',
        harness='buffer.cc', runs=[R('buf_fifo', dict(ops=3, maxlen=2), reach=['sequence done', 'get_string']), R('buf_growth', dict(len=9), dict(len=20), reach=['grown']), R('buf_long', reach=['long'])]),
 'C02': dict(bounds='1 (2) operations before, one of 6 copy/move/swap forms, operations after; up to 3 bytes; 7 sizes with the front consumed',
        harness='buffer.cc', runs=[R('buf_shift', reach=['shift']), R('buf_copy', dict(ops=1, maxlen=2), dict(ops=2, maxlen=2), reach=['copy construct', 'copy assign', 'self assign', 'move construct', 'move assign', 'swap'])]),
 'C34': dict(bounds='strings of up to 6 (8) arbitrary bytes, separators of up to 3 (4); up to 3 pieces of up to 2 bytes; strings of some thousand bytes with the separator at chosen places; two threads at once',
        harness='utils.cc', runs=[R('utils_threads', race=True, reach=['at once']),R('utils_split', dict(len=6,sep=3), dict(len=8,sep=4), reach=['three pieces']), R('utils_split_empty_sep'), R('utils_split_large', reach=['large']), R('utils_join',reach=['no pieces'])]),
 'C35': dict(bounds='strings of up to 6 (8) arbitrary bytes, patterns of up to 3 (4), the empty pattern; strings of some thousand repetitions',
        harness='utils.cc', runs=[R('utils_threads', race=True, reach=['at once']),R('utils_strip', dict(len=6,chars=3), dict(len=8,chars=4), reach=['stripped','kept']), R('utils_strip_overlap', dict(len=9), dict(len=12), reach=['both ends']), R('utils_strip_large', reach=['large']), R('utils_strip_empty')]),
 'C36': dict(bounds='all pairs of 4-bit (5-bit) numbers, pairs and triples of 3-bit numbers, lists of many numbers, products beyond 64 bits',
        harness='utils.cc', runs=[R('utils_threads', race=True, reach=['at once']),R('utils_gcd', dict(bits=4), dict(bits=5)), R('utils_gcd_list',dict(bits=3)), R('utils_gcd_many', reach=['many']), R('utils_lcm_large')]),
 'C37': dict(bounds='every 64-bit time point after the epoch in nanoseconds and microseconds, and all within 2 s of it on either side',
        harness='utils.cc', runs=[R('utils_ceil'), R('utils_ceil_near', reach=['near']), R('utils_ceil_micro')]),
 'C03': dict(bounds='3 (4) steps of arrival, closing, read_chunk, read_all, consumption; up to 2 bytes per arrival; one interruption, one short read, one failing call; pipes and local stream sockets; every requested size up to 9 (33) bytes against every amount that arrived; streams of 200000 (300000) bytes; two threads',
        harness='nio.cc', runs=[R('nio_threads', dict(kind=0), race=True, reach=['threads']), R('nio_read', [dict(maxlen=2,steps=3,eintr=1,shorts=1),dict(maxlen=2,steps=3,eintr=0,shorts=1,faults=1)], reach=['eof','reset','several bytes']), R('nio_read_sizes', dict(max=9,pre=4), dict(max=33), reach=['read']), R('nio_tuned_large', dict(), dict(len=300000), reach=['large'])]),
 'C04': dict(bounds='3 (4) steps of producing, peer reading, peer closing, write_chunk, write_all; up to 4 bytes; peer takes 3 bytes; one interruption, one short write, one failing call; a peer that resets; every size up to 12 (24) bytes; two threads',
        harness='nio.cc', runs=[R('nio_threads', dict(kind=0), race=True, reach=['threads']), R('nio_tuned_large', reach=['large']),R('nio_write', [dict(maxlen=2,steps=3,eintr=1,shorts=1,cap=3),dict(maxlen=2,steps=3,eintr=0,shorts=1,faults=1,cap=3)], reach=['broken pipe','peer full']), R('nio_write_reset', reach=['reset','failed']), R('nio_write_sizes', dict(max=12), dict(max=24), reach=['written'])]),
 'C05': dict(bounds='3 (4) bytes in every split over pipes, fifos, local and ipv4 connections in both directions; channel takes 2 bytes; one interruption and one short transfer; a fifo shared by two writers',
        harness='nio.cc', runs=[R('nio_roundtrip', dict(total=3), dict(total=4), reach=['all received']), R('nio_fifo_shared', reach=['shared']), R('nio_fifo_again', dict(rounds=2), dict(rounds=4), reach=['another writer'])]),
 'C06': dict(bounds='two objects of each of 4 kinds, one of 6 actions with arbitrary buffered bytes; the state of every socket class (reset, peer, options) before and after a move; every factory with one failing call of each kind',
        harness='nio.cc', runs=[R('nio_own', reach=['reuse','move construct','move assign']), R('nio_move_state', reach=['moved','reset moved','peer moved']),R('nio_factories', reach=['fault'])]),
 'C07': dict(bounds='all combinations of 3 status flags, two descriptors with flags of their own switched 3 times, two switches of mode, one failing call',
        harness='nio.cc', runs=[R('nio_nonblock', reach=['fault']), R('nio_nonblock_two', reach=['two'])]),
 'C08': dict(bounds='every option and every 32-bit (or boolean) value, 4 settings on two sockets in any order, one failing call; two threads',
        harness='nio.cc', runs=[R('nio_threads', dict(kind=1), race=True, reach=['threads']), R('nio_options', reach=['set','fault']), R('nio_options_two', reach=['two'])]),
 'C09': dict(bounds='every 32-bit ipv4 address and every port, every 128-bit ipv6 address within the listed textual forms, ports out of range, every path length from 0 to beyond the limit of the system, malformed addresses from a list; two sockets with the same port',
        harness='nio.cc', runs=[R('nio_threads', dict(kind=2), race=True, reach=['threads']), R('nio_addr_same', reach=['connections','senders']),R('nio_addr4', reach=['ipv4','any address']), R('nio_addr6', reach=['ipv6']), R('nio_addr_bad', reach=['refused']), R('nio_addr_port', reach=['refused']), R('nio_addr_unix', reach=['unix','too long'])]),
 'C10': dict(bounds='2 (3) clients, accept sizes up to the number of clients, refused and repeated attempts, one interruption or aborted connection or failing call of every kind, 3 address families; 40 (60) connections waiting',
        harness='nio.cc', runs=[R('nio_threads', dict(kind=2), race=True, reach=['threads']), R('nio_connect', dict(clients=2), dict(clients=3), reach=['refused','accepted','second attempt']), R('nio_connect_faults', reach=['bind fault','connect fault','accept fault','accept failure reported']), R('nio_connect_local', reach=['more than the listener takes','fault']), R('nio_connect_mixed', reach=['ipv4','ipv6','local']), R('nio_connect_many', dict(many=40), dict(many=60), reach=['many'])]),
 'C11': dict(bounds='2 (3) datagrams of 0..2 (0..3) arbitrary bytes over ipv4, ipv6 and local sockets, partly consumed buffers, one failing send or receive; empty datagrams; 3 datagrams of the configured size of 1..5 bytes; datagrams of 1 to 40 bytes more than configured; 9 lengths up to 65507 bytes; 40 (60) datagrams waiting',
        harness='nio.cc', runs=[R('nio_threads', dict(kind=3), race=True, reach=['threads']), R('nio_addr_same', reach=['connections','senders']),R('nio_udp', dict(maxlen=2,grams=2), dict(maxlen=3,grams=3), reach=['received','send fault','recv fault','nothing to receive','not consumed']), R('nio_udp_mixed', reach=['ipv4','ipv6','local']), R('nio_udp_full', reach=['several datagrams']), R('nio_udp_oversize', reach=['oversize','cut']), R('nio_udp_large', reach=['local','network']), R('nio_udp_many', dict(many=40), dict(many=60), reach=['many']), R('nio_udp_empty', reach=['empty'])]),
 'C12': dict(bounds='3 modes over ipv4 and local connections, with and without bytes in the buffers and under way, once or twice, then a transfer in each direction; after the end of the stream was read as well',
        harness='nio.cc', runs=[R('nio_shutdown_ended', reach=['ended']),R('nio_shutdown', reach=['shut'])]),
 'C13': dict(bounds='2 (3) descriptors with up to 2 handlers each, 3 priorities, batch sizes 1..n, every order of readiness; handlers that remove, close or replace any descriptor, that raise, or that run a pass themselves; 3 kinds of hangup; 7 timeouts against 8 moments of arrival; 90 (120) descriptors ready at once; two loops in two threads',
        harness='evloop.cc', runs=[R('evl_two_threads', dict(preempt=1), dict(preempt=3), race=True, reach=['two loops']),R('evl_priority', dict(fds=2), dict(fds=3), reach=['several ready','more ready than the batch']), R('evl_reentrant', dict(fds=2), dict(fds=3), reach=['removed another','closed','replaced']), R('evl_nested', dict(fds=2), dict(fds=3), reach=['raised','nested']), R('evl_hangup', reach=['hangup']), R('evl_registration', dict(fds=1,pre=3,ops=0), dict(fds=1,pre=3,ops=1), reach=['dispatched']), R('evl_timeout', reach=['timeout','ready','forever']), R('evl_many', dict(fds=90), dict(fds=120), reach=['many'])]),
 'C14': dict(bounds='3 operations on 1 descriptor and 2 on 2 descriptors with one refused call (3 on 2), all interests, then one pass under every readiness; an object closed before it is removed, its number used again',
        harness='evloop.cc', runs=[R('evl_closed', reach=['closed']), R('evl_registration', [dict(fds=1,ops=3),dict(fds=1,pre=3,ops=1),dict(fds=2,ops=2,faults=1)], dict(fds=2,ops=3,faults=1), reach=['refused registration','dispatched','removed'])]),
 'C15': dict(bounds='one loop thread and one other thread that stops the loop, registers, changes or removes handlers, 2 (3) preemptions at waits, lock operations, system calls and atomic accesses, race detection; one interrupted wait (thorough)',
        harness='evloop.cc', runs=[R('evl_two_threads', dict(preempt=1), dict(preempt=3), race=True, reach=['two loops']),R('evl_stop', dict(preempt=2), dict(preempt=3,eintr=1), atomic=True, reach=['stopped','stopped from a handler']), R('evl_concurrent', dict(preempt=2), dict(preempt=3), reach=['delivered','removed']), R('evl_race', dict(preempt=2), dict(preempt=4), race=True, reach=['both'])]),
 'C16': dict(bounds='one connection with 2 (3) bytes from the peer, 4*4*3*2 callback behaviours, 6 ways of leaving (close, half close, reset and unreachable among them), sockets that take 3 bytes, writes of 4 bytes, over ipv4, and without bytes from the peer over ipv6 and local sockets; two failing accept calls; a listen whose address is refused or in use; writing to or closing a connection that has ended, with its number used again; 9000 bytes and an answer of 13000 against sockets that take parts of it; 40 connections at 3 workers; two servers and two clients in one program',
        harness='reactor.cc', runs=[R('rx_server', [dict(len=2),dict(len=0,families=1)], [dict(len=3),dict(len=1,families=1),dict(len=1,peers=2,workers=2)], reach=['peer closed','application closed','half closed','done','more than the socket takes','reset','unreachable']), R('rx_two', dict(), dict(preempt=1), reach=['clients','peers','one ended']), R('rx_client_feed', dict(len=1), dict(len=2), reach=['peer closed','application closed','half closed','done','more than the socket takes','reset','unreachable']), R('rx_faults', dict(server=1), reach=['accept fault']), R('rx_listen', reach=['refused']), R('rx_listen_unix', reach=['refused','taken over','new']), R('rx_after', reach=['done','reused']), R('rx_large', [dict(),dict(out=80000)], [dict(io=700,cap=20000),dict(out=150000)], reach=['at the end','along the way']), R('rx_nothing', reach=['client','server']), R('rx_many', reach=['many'])]),
 'C17': dict(bounds='2 and 3 workers, up to 4 and 3 (5 and 6) connections of a server and of a client, together or one after the other with one ending at any time, and connections assigned by another target selection; two servers and two clients in one program; 14 connections one at a time',
        harness='reactor.cc', runs=[R('rx_balance_many', dict(workers=2), dict(workers=3,peers=20), reach=['many']),R('rx_balance', [dict(workers=2,peers=4),dict(workers=3,peers=3)], [dict(workers=2,peers=5),dict(workers=3,peers=6)], reach=['spread','together','one left','client']),R('rx_two', dict(), dict(preempt=1), reach=['clients','peers','one ended']), R('rx_external')]),
 'C18': dict(bounds='up to 2 connectors and 2 connections in up to two requests, 3 kinds of target, one asynchronous failure, 1 preemption; two requesting threads with 1 preemption and race detection; two failing calls of creating or connecting a socket, attempts to malformed addresses',
        harness='reactor.cc', runs=[R('rx_client', [dict(conts=2,max=2,preempt=0),dict(conts=1,max=2,fails=0,preempt=1)], reach=['connected','failed attempts']),R('rx_client_threads',dict(),race=True,reach=['connected']), R('rx_faults', dict(), reach=['attempt fault','refused'])]),
 'C43': dict(bounds='one connection with 2 (3) bytes from the peer, 4*4*3*2 callback behaviours, 6 ways of leaving, sockets that take 3 bytes, writes of 4 bytes, over ipv4, and without bytes from the peer over ipv6 and local sockets; 9000 bytes and an answer of 13000 against sockets that take parts of it; 40 connections at 3 workers; two servers and two clients in one program',
        harness='reactor.cc', runs=[R('rx_client_feed', [dict(len=2),dict(len=0,families=1)], [dict(len=3),dict(len=1,families=1),dict(len=1,peers=2,workers=2)], reach=['peer closed','application closed','half closed','done','more than the socket takes','reset','unreachable']), R('rx_large', [dict(client=1),dict(client=1,out=80000)], [dict(client=1,io=700,cap=20000),dict(client=1,out=150000)], reach=['at the end','along the way']), R('rx_two', dict(), dict(preempt=1), reach=['clients','peers','one ended']), R('rx_nothing', reach=['client','server']), R('rx_many', dict(client=1), reach=['many'])]),
 'C44': dict(bounds='1 connection of 2 or 3 arbitrary bytes through channels that take 1 or 2 bytes with every order of the threads at their waits, with 1 (2) preemptions in one fixed order, and 2 connections at 2 workers; two servers and two clients; race detection',
        harness='reactor.cc', runs=[R('rx_both', [dict(conns=1,len=2,cap=1),dict(conns=1,preempt=1,order=1),dict(conns=2,workers=2,order=1)], [dict(conns=1),dict(conns=1,preempt=2,order=1),dict(conns=2,preempt=1,workers=2,order=1)], race=True, reach=['done','more than the socket takes']), R('rx_mutual', dict(), dict(preempt=1), race=True, reach=['done']), R('rx_two', dict(), dict(preempt=1), reach=['clients','peers','one ended']), R('rx_mutual', dict(full=1), race=True, reach=['both more than the connection takes'])]),
 'C45': dict(bounds='buffer steps, event batches and datagram sizes from 1 to 4 that change between two uses; 2 connections of 3 bytes between a server and a client, streams of up to 4 (6) bytes with short transfers, streams of 200000 (300000) bytes with steps from 64 to 1048576, 3 (4) descriptors ready at once',
        harness=['reactor.cc','nio.cc','evloop.cc'], runs=[R('rx_both', dict(conns=2,tune=1,order=1), dict(conns=2,workers=2,preempt=1,tune=1,order=1), reach=['done','more than the socket takes']), R('nio_tuned', dict(), dict(len=6,shorts=2), reach=['all received']), R('nio_tuned_large', dict(), dict(len=300000), reach=['large']), R('nio_udp_tuned', reach=['received']), R('evl_tuned', dict(), dict(fds=4), reach=['served'])]),
 'C19': dict(bounds='server with up to 2 listeners or client with up to 2 connectors, with or without a connection, 1 (2) preemptions; servers and clients with nothing to do',
        harness='reactor.cc', runs=[R('rx_idle_shutdown', race=True, reach=['server','client']), R('rx_shutdown', dict(preempt=1), dict(preempt=2), atomic=True, reach=['server','client'])]),
 'C20': dict(bounds='up to 3 (4) tasks, 1..2 workers, one further producer, a task adding a task, 1 (2) preemptions; 2 (3) workers in parallel, 33 (66) without preemption; some dozens of tasks; tasks whose destruction adds a task; idle pools of up to 3 workers with a spurious wake-up; two queues in one program',
        harness='pool.cc', runs=[R('tq_two', dict(preempt=0), dict(preempt=1), race=True, reach=['two']),R('tq_once', [dict(tasks=3,preempt=1,producer=0),dict(tasks=2,preempt=1,producer=1,nested=0,early=0,hows=2,settle=0)], [dict(tasks=4,preempt=2,producer=0),dict(tasks=3,preempt=2,producer=1,spurious=1)], race=True, reach=['several workers']), R('tq_parallel', dict(preempt=1), dict(workers=3,preempt=2), reach=['done','idle']), R('tq_held', dict(preempt=1), dict(preempt=2,workers=3), reach=['adds','only released']), R('tq_many', reach=['many']), R('tq_crowd', dict(workers=33), dict(workers=66), reach=['crowd']), R('tq_idle', dict(preempt=1), dict(preempt=3), reach=['stopped'])]),
 'C21': dict(bounds='one thread with 2 preemptions, a body shorter or longer than the waiting limit, a failing start; every refused call (joining itself, twice, when detached) with 1 (3) preemptions; pools of 0..3 threads of which one may be gone, and of 33 (70)',
        harness='pool.cc', runs=[R('run_join', dict(preempt=2), race=True, reach=['failed start','finished in time','timeout','detached','joined']), R('pool_run', dict(threads=2), dict(threads=3,preempt=2), race=True, reach=['moved','joined','cancelled','arguments']), R('pool_many', dict(threads=33), dict(threads=70), reach=['many']), R('run_refused', dict(preempt=1), dict(preempt=3), reach=['joins itself','joined when detached','detached twice','cancelled']), R('pool_refused', dict(threads=3), dict(threads=3,preempt=2), reach=['one was gone'])]),
 'C23': dict(bounds='up to 2 (3) waiters before or after one or two notifications, 1 (2) preemptions, one spurious wake-up, threads and processes; 6 and 33 waiters without preemption',
        harness='lock.cc', runs=[R('fence_wait', dict(preempt=1), dict(preempt=2,waiters=3), race=True, atomic=True, reach=['several waiters','late waiters','notified twice','processes']), R('fence_many', [dict(many=6),dict(many=33,noprocs=1)], dict(many=12), race=True, reach=['many'])]),
 'C24': dict(bounds='counts 1..2 (3), up to one caller in excess, 1 (2) preemptions, one spurious wake-up, threads and processes; what was written before is visible after; 9 and 35 callers without preemption',
        harness='lock.cc', runs=[R('barrier_wait', dict(preempt=1), dict(preempt=2,count=3), race=True, reach=['callers in excess','several','processes']), R('barrier_visible', dict(preempt=2), race=True, reach=['passed']), R('barrier_many', [dict(many=9),dict(many=35,extra=2,noprocs=1)], dict(many=12), race=True, reach=['many'])]),
 'C25': dict(bounds='two threads with 1 (2) rounds and 2 (4) preemptions on 3 kinds of lock; three threads on the read-write lock; every initialisation failing, misuse reported; 6 and 34 threads or processes without preemption; memory orders of the code honoured by the race detection',
        harness='lock.cc', runs=[R('lock_exclusive', dict(preempt=2), dict(preempt=4,rounds=2), race=True, reach=['done']), R('lock_try', reach=['tried']), R('rw_exclusive', dict(preempt=2), dict(preempt=3), reach=['two readers','done']), R('lock_errors', reach=['misuse','fault','call fails']), R('lock_many', [dict(many=6),dict(many=34,noprocs=1)], dict(many=12), race=True, reach=['many','readers'])]),
 'C26': dict(bounds='3 (5) operations on up to 2 guards and 2 locks for both kinds of guard, two guards of one lock, a lock that fails; three threads with 2 (3) preemptions; 2..3 readers and a writer that wait, guards bound in three ways and locked again, threads and processes',
        harness='lock.cc', runs=[R('guard_ops', dict(steps=3), dict(steps=5), reach=['unlock','lock again','move assign','move construct','self move','destroyed','done']), R('guard_shared', reach=['same lock','locking failed']), R('guard_exclusive', dict(preempt=2), dict(preempt=3), reach=['done']), R('guard_waits', reach=['waited','writer waits','again'])]),
 'C27': dict(bounds='up to 2 (3) waiters, notifying one or all inside or outside the mutex, 1 (2) preemptions, one spurious wake-up, threads and processes; 6 and 33 waiters without preemption; 150 rounds',
        harness='lock.cc', runs=[R('cond_rounds', reach=['rounds']), R('cond_wait', dict(preempt=1), dict(preempt=2,waiters=3), race=True, reach=['all','one','processes']), R('cond_count', race=True, reach=['done']), R('cond_many', [dict(many=6),dict(many=34,noprocs=1)], dict(many=12), race=True, reach=['many'])]),
 'C28': dict(bounds='5 pairs of similar names; 3 (4) operations with counts 0..2; up to 2 (3) takers with 1 (2) preemptions and interruptions; 6 (10) takers without; two processes opening with 2 (4) preemptions; each call failing; all moves; two threads that give at once',
        harness='ipc.cc', runs=[R('sem_givers', dict(preempt=1), dict(preempt=2), race=True, reach=['at once']),R('sem_count', dict(ops=3), dict(ops=4), reach=['release','took','empty','acquire']), R('sem_names', reach=['two']), R('sem_block', dict(preempt=1,eintr=1), dict(preempt=2,eintr=2,takers=3), reach=['taken','interrupted']), R('sem_many', dict(many=6), dict(many=10), reach=['many']), R('sem_create', dict(preempt=2), dict(preempt=4), reach=['shared']), R('sem_faults', reach=['open fault','release fault','acquire fault','try fault']), R('sem_move', reach=['move construct','move assign','self move','back','moved from'])]),
 'C29': dict(bounds='5 pairs of similar names; sizes 1..3 (8) with arbitrary content, some thousand bytes, and reopening with another size; objects constructed in it; two processes opening with 2 (4) preemptions; each call failing; all moves',
        harness='ipc.cc', runs=[R('shm_basic', dict(size=3), dict(size=8), reach=['unlinked','done']), R('shm_large', reach=['large']), R('shm_names', reach=['two']), R('shm_sizes', reach=['larger','not larger']), R('shm_construct', reach=['constructed']), R('shm_create', dict(preempt=2), dict(preempt=4), reach=['shared']), R('shm_faults', reach=['fault']), R('shm_move', reach=['move construct','move assign','self move','back','moved from'])]),
 'C30': dict(bounds='children of up to 2 (3) steps of writing up to 4 bytes to either output, reading or sleeping, pipes that take 2 bytes, 0 and 1 preemptions, by subprocess and by exec_cmd; ending, signalling (also when already gone), polling, failing starts and waits; 150000 (500000) bytes each way',
        harness='subp.cc', runs=[R('sub_output', dict(steps=2,bytes=4,cap=2), dict(steps=3,bytes=4,cap=2,preempt=1), reach=['moved','more output than the pipe takes','more input than the pipe takes','done']), R('sub_closes', dict(preempt=1), dict(preempt=2,bytes=6), reach=['done']), R('sub_poll', dict(preempt=1), dict(preempt=2), reach=['input to a finished subprocess']), R('sub_large', dict(lots=150000), dict(lots=500000), reach=['large']), R('sub_eof', reach=['ended','another']), R('sub_stopped', reach=['resumed','killed','resumed meanwhile']), R('sub_signal', reach=['refused','signalled']), R('sub_exec_cmd', dict(preempt=1,cap=2), dict(steps=3,preempt=1,cap=2), reach=['done']), R('sub_wait_fault', reach=['fault']), R('sub_faults', reach=['fault'])]),
 'C31': dict(bounds='command lines of up to 3 words of up to 1 (3) arbitrary characters, of words of 9 (20) such characters, and one of 40 (150) words, paths of 4 shapes, up to 2 environment entries, also of 16 (40) arbitrary characters, and 18 usual ones; every subset of closed standard streams; another subprocess, before and at the same time with 2 (3) preemptions',
        harness='subp.cc', runs=[R('sub_exec', dict(words=3,len=1), dict(words=3,len=3), reach=['run','cannot run']), R('sub_exec_any', dict(), dict(len=20,envlen=40), reach=['any','known names']), R('sub_exec_many', dict(words=40), dict(words=150), reach=['many']), R('sub_fds', reach=['run','another']), R('sub_race', dict(preempt=2), dict(preempt=3), reach=['raced'])]),
 'C32': dict(bounds='1..2 tasks with 4 (6) frequencies out of 1, 2, 3, 2.5, 0.5 and 4 Hz and 3 priorities, 3 starting moments, wake-ups late by 0.7 s, a task that takes 0.6 s; 1.7 s of running; 30 (300) s in a run of one task, and one which is far behind; 9 frequencies from 0.0001 Hz to 1 GHz, pairs of the 5 lowest; 13 (20) tasks at a time; steady, microsecond and tenth-second clocks',
        harness='sched.cc', runs=[R('sch_times', dict(tasks=2, freqs=4), dict(tasks=2, freqs=6), reach=['aligned','unaligned','several triggers','different periods','late','slow']), R('sch_far', dict(run=30), dict(run=300), reach=['far behind','long run']), R('sch_single', reach=['done']), R('sch_freq', reach=['single','different']), R('sch_clocks', reach=['steady','microseconds','tenths']), R('sch_many', dict(), dict(many=20), reach=['many'])]),
 'C46': dict(bounds='12 moments from 7 s ago to a year ahead from 3 starting times, in the system, the steady, a microsecond and a tenth-second clock; wake-ups late by 0.3 ms, 2 (4) interruptions',
        harness='sched.cc', runs=[R('slp_until', dict(), dict(eintr=4), reach=['passed','came','interrupted'])]),
 'C33': dict(bounds='0..2 start tasks, end tasks and timed tasks, 4 moments of destruction, 2 (3) preemptions, race detection; two schedulers at a time made from lists that are gone; 13 (20) tasks of each kind',
        harness='sched.cc', runs=[R('sch_life', dict(preempt=2), dict(preempt=3), race=True, atomic=True, reach=['triggered','no timed tasks','start and end tasks']), R('sch_many', dict(), dict(many=20), reach=['many']), R('sch_two', reach=['two'])]),
 'C22': dict(bounds='1..2 (3) writers with 1 (2) messages of several parts and the destruction, 1 (2) preemptions, race detection; 1..2 (3) parts of 6 types with 2 arbitrary bytes, parts of some thousand bytes and of 70000; outputs that take 5 or 16 bytes at a time, are full or non-blocking; one short and one interrupted write; a process that forked',
        harness='logger.cc', runs=[R('log_threads', [dict(writers=2, msgs=1, preempt=1), dict(writers=1, msgs=2, preempt=2, **{'yield':1})], [dict(writers=3, msgs=1, preempt=1), dict(writers=2, msgs=2, preempt=2, spurious=1)], race=True, reach=['done','settled']), R('log_types', dict(parts=2), dict(parts=3), reach=['done']), R('log_large', reach=['very long part','long part','many parts','long text']), R('log_destroy', reach=['done','full','non-blocking']), R('log_pending', dict(sizes=3), dict(sizes=3), reach=['done','full']), R('log_two', dict(), dict(preempt=1,turns=4), reach=['one thread','two threads']), R('log_empty', reach=['messages','nothing']), R('log_fork', reach=['logged before','child']), R('log_output', reach=['small','large','short write','interrupted'])]),
 'C38': dict(bounds='every previous mask of 64 signals and every signal, 2 (3) changes by lists of up to 3; pending, waiting and suspending with 3 (6) signals sent to the thread or the process; histories of 3 (4) settings over 3 signals and one setting of each signal; one waiting thread with 1 (2) preemptions; signals to a running thread',
        harness='signals.cc', runs=[R('sig_mask', dict(ops=2), dict(ops=3), reach=['one signal','empty list','list']), R('sig_many', reach=['waited','suspended']), R('sig_pending', dict(pool=3), dict(pool=6), reach=['waited','waited for a set','suspended','unblocked one']), R('sig_handlers', dict(ops=3), dict(ops=4), reach=['ignored','handled']), R('sig_handler_each', reach=['each']), R('sig_default_handler', reach=['survived']), R('sig_wait_thread', dict(preempt=1), dict(preempt=2,pool=6), reach=['suspended','waited','unblocked noise']), R('sig_runnable', reach=['delivered'])]),
 'C39': dict(bounds='every 32-bit error number and stale error number; every 32-bit process and group; every signal helper with one call failing with any error number from 1 to 133, and signal numbers that do not exist from a list',
        harness='signals.cc', runs=[R('err_throw', reach=['thrown']), R('err_process', reach=['exists','missing','failure']), R('err_send', reach=['refused','failure','sent']), R('err_signals', reach=['fault','bad number']), R('err_time', reach=['fault'])]),
 'C41': dict(bounds='2 (3) loaders over 2 libraries and 5 names of files, 2 (3) steps of 6 names of functions or release, one failing call',
        harness='dl.cc', runs=[R('dl_load', dict(loaders=2,steps=2), dict(loaders=3,steps=3), reach=['no library','released','called','null symbol','no function'])]),
 'C42': dict(bounds='8 formats, the empty one among them, every second of 2 days and the first minute of 8 days up to the year 9999, every negative time down to -256; texts of 100..3000 characters; the last 2^40 times of the type; two threads with 2 (4) preemptions',
        harness='signals.cc', runs=[R('ts_format', reach=['now','given']), R('ts_now', dict(preempt=1), dict(preempt=3), race=True, reach=['threads']), R('ts_threads', dict(preempt=2), dict(preempt=4), race=True, reach=['threads']), R('ts_limits', reach=['long','overflow'])]),
}
