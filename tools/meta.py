"""Source of properties.jsonl and MANIFEST.json (see gen_meta.py)."""

def q(over, text):
    return {'over': over, 'text': text}

def anchors(files, mech, **kw):
    return dict(files=files, mechanism=[{'name': n, 'where': w} for n, w in mech], **kw)

J = 'src/joedb/journal/'
C = 'src/joedb/concurrency/'

PROPERTIES = [
 dict(id='P01',
  title='A hard checkpoint survives power failure',
  statement='Once a hard checkpoint has been acknowledged, everything written before it is still readable, unchanged and in order, '
            'after the machine loses power at any later moment, whatever was being written then. '
            'What is recovered at the hard checkpoint found in the file is always exactly the data up to some checkpoint that was requested, '
            'never less than the last acknowledged one. It holds over repeated failures, when the file is reopened with the overwrite '
            'recovery option or truncated at its hard checkpoint, for one writer and for several writers sharing the file.',
  quantifier=q(['crash_points', 'histories', 'schedules', 'fault_sequences'], 'every history of writes and checkpoints, every instant of power failure, every subset of unsynced sectors that reached the disk, every sequence of lives'),
  why_tests_cant='The tests truncate or patch a memory file at a few hand-picked places; they cannot choose the power-failure instant, nor which of the unsynced writes reached the disk, nor repeat this over lives.',
  anchors=anchors([J + 'Writable_Journal.cpp', J + 'Readonly_Journal.cpp', J + 'Posix_File.cpp', J + 'Journal_Construction_Lock.cpp'],
   [('two copies of the hard checkpoint, written around a sync', J + 'Writable_Journal.cpp hard_checkpoint_at'),
    ('soft checkpoints never overwrite the hard pair', J + 'Writable_Journal.cpp soft_checkpoint_at'),
    ('choice of the valid checkpoint', J + 'Readonly_Journal.cpp read_checkpoint')]),
  technique='seeded power failures over a simulated disk that keeps any subset of unsynced sectors',
  level_note='Seeded search: writers on a simulated disk, power cut at a random system call or at any instant, torn and reordered sectors, several lives; the recovered file is read by the real reader and compared with the model of committed operations.'),
 dict(id='P02',
  title='Committed transactions survive the death of any process',
  statement='When a writing process is killed at any instant, every transaction it had committed stays readable by everyone, complete and in order, '
            'and a transaction it had not finished committing is either entirely there or entirely absent. '
            'The bytes below an acknowledged checkpoint are never modified again, by the dying process, by the other processes that share the file, or by those that open it later.',
  quantifier=q(['crash_points', 'histories', 'schedules'], 'every history of transactions of one or several processes, every instruction at which one of them is killed, every sequence of lives'),
  why_tests_cant='A unit test runs in the process that would have to die; it can neither stop a writer between two of its system calls nor let the other processes observe the file at that moment.',
  anchors=anchors([J + 'Writable_Journal.cpp', C + 'Writable_Client.h', C + 'Writable_Journal_Client.h', C + 'Writable_Database_Client.h', J + 'Posix_File.cpp'],
   [('soft checkpoint after flush', J + 'Writable_Journal.cpp soft_checkpoint_at'),
    ('transaction commit', C + 'Writable_Client.h'),
    ('tail lock released by the system', J + 'Posix_File.cpp')]),
  technique='seeded process kills at any intercepted call, several lives and processes sharing a file',
  level_note='Seeded search: real clients as simulated processes sharing a file; one is killed at a random call; the committed bytes are watched at every write; the file is read back by the real reader and compared with the log of transactions.'),
 dict(id='P04',
  title='Writers sharing a file are serializable',
  statement='When several processes or threads open the same file for shared writing, the file always contains the transactions that were committed, each one contiguous and complete, in the order in which the write lock was granted. '
            'Each transaction sees exactly the result of the ones before it, no update is lost, and every process gets the lock eventually.',
  quantifier=q(['schedules', 'histories'], 'every interleaving of the system calls of several writers, of several kinds, with any mix of transactions, pulls, hard checkpoints and re-opening'),
  why_tests_cant='The tests run two clients in turn, in one thread; conflicts happen only when the calls of several processes interleave.',
  anchors=anchors([J + 'Abstract_File.h', J + 'Posix_File.cpp', J + 'Writable_Journal.cpp', J + 'Readonly_Journal.cpp', J + 'Journal_Construction_Lock.cpp', C + 'Writable_Client.h'],
   [('exclusive tail lock around each transaction', J + 'Writable_Journal.cpp lock_pull'),
    ('pull before writing', J + 'Readonly_Journal.cpp pull'),
    ('construction lock', J + 'Journal_Construction_Lock.cpp')]),
  technique='seeded interleavings of several writing processes, history checked against the lock order',
  level_note='Seeded search over interleavings of 2 to 4 writers of several kinds, with split reads and writes and stalls; the oracle is the log of transactions in lock order, replayed on a reference database inside each transaction and at the end.'),
 dict(id='P05',
  title='Readers see consistent prefixes and never go back',
  statement='A reader of a file that is being written, whenever it opens the file or pulls, gets exactly the result of some prefix of the committed transactions: no torn, uncommitted, aborted or reordered data. '
            'It includes every transaction acknowledged before the pull started, and later pulls never show less than earlier ones.',
  quantifier=q(['schedules', 'histories'], 'every interleaving of readers with writers, including reads and writes that are not atomic, and checkpoints of every kind'),
  why_tests_cant='A test pulls between two commits; a torn view can only be obtained by reading in the middle of one.',
  anchors=anchors([J + 'Readonly_Journal.cpp', J + 'Readonly_Journal.h', C + 'Readonly_Database_Client.h', C + 'Readonly_Client.h'],
   [('checkpoint read under the head lock', J + 'Readonly_Journal.cpp read_checkpoint'),
    ('play until checkpoint', J + 'Readonly_Journal.cpp play_until')]),
  technique='seeded interleavings of readers and writers with non-atomic reads and writes',
  level_note='Seeded search: up to 3 journal and database readers against up to 3 writers; after each pull the events or the database are compared with the prefixes of the transaction log.'),
 dict(id='P20',
  title='An aborted transaction leaves no trace',
  statement='When a transaction throws, or a locked writer is released without committing, the error reaches the caller and nothing that the transaction wrote ever becomes visible to anyone: '
            'not to readers, not to other writers, not in a later commit of the same or another client. It never damages what others commit afterwards, at whatever time the aborted client is destroyed.',
  quantifier=q(['schedules', 'histories'], 'every position of aborts in the histories of several clients sharing a file or not, with any amount of buffered data, every interleaving'),
  why_tests_cant='The tests abort one transaction in one client; what an abort may damage is what another process commits later, while the aborted client is still alive.',
  anchors=anchors([J + 'Writable_Journal.cpp', C + 'Writable_Client.h', J + 'Writable_Journal.h', J + 'Buffer.h'],
   [('lock destructor after an exception', C + 'Writable_Client.h'),
    ('refusal to lock with uncheckpointed data', J + 'Writable_Journal.cpp Tail_Exclusive_Lock'),
    ('dirty tail', J + 'Journal_Construction_Lock.cpp')]),
  technique='seeded aborts inside interleaved transactions of several processes',
  level_note='Seeded search: transactions of several clients abort at random after writing; every reader and every later writer is checked against the log without the aborted transactions, and the committed bytes are watched at each write.'),
 dict(id='P06',
  title='Disk errors are reported and never damage what was committed',
  statement='When a read, write, sync or lock of the file fails, or the disk is full, the operation that needed it fails with an error, and is never confirmed: what is committed stays readable and what is durable survives a later power failure. '
            'A transaction that failed is entirely there or entirely absent, readers never see inconsistent data, and no lock is left behind. '
            'A client whose pull could not write to its local file does not keep the lock of its server, and can go on in the same connection. '
            'Once the disk works again, the file, and joedb_server, can be written again.',
  quantifier=q(['fault_sequences', 'schedules', 'histories', 'crash_points'], 'every sequence of errors of the disk, at any system call of any process, in any history of transactions, checkpoints, retries and re-opening, followed by a power failure'),
  why_tests_cant='A disk cannot be made to fail at a chosen call of a real file; the tests with failing files fail at one or two places of a single-threaded sequence.',
  anchors=anchors([J + 'Writable_Journal.cpp', J + 'Posix_File.cpp', J + 'File_Buffer.h', J + 'Readonly_Journal.cpp', C + 'Writable_Client.h', C + 'Server.cpp', C + 'Server_Connection.cpp', C + 'Server_Client.cpp'],
   [('memory updated only after the checkpoint succeeded', J + 'Writable_Journal.cpp hard_checkpoint_at'),
    ('buffered data discarded when unlocking', J + 'File_Buffer.h'),
    ('system call errors', J + 'Posix_File.cpp')]),
  technique='seeded disk errors at any system call of writers, readers and server, with retries and power failures',
  level_note='Seeded search: journals, clients and joedb_server on a simulated disk whose reads, writes, syncs and locks fail at random or which is full; files and simulated power failures are compared with the log of confirmed transactions.'),
 dict(id='P08',
  title='The server file is one linear history of acknowledged pushes',
  statement='Whatever its clients do, the file of joedb_server contains exactly the transactions whose push was acknowledged, each one complete, in one order that respects the lock, plus at most transactions whose acknowledgement was lost. '
            'No acknowledged byte is ever modified, a refused or interrupted push leaves no trace, and every replica that pulls is a prefix of that history. '
            'This holds when connections, clients or the server are lost at any moment, and when local processes write to the same file.',
  quantifier=q(['schedules', 'histories', 'fault_sequences', 'crash_points'], 'every interleaving of the messages of several clients and of local writers, every instant of connection loss, kill, restart or power failure'),
  why_tests_cant='The tests connect one or two clients in turn over a channel that never fails; here the order of messages, their splitting, and the moments of failure decide.',
  anchors=anchors([C + 'Server.cpp', C + 'Server_Connection.cpp', C + 'Writable_Client.h', 'src/joedb/asio/Server.cpp', J + 'Async_Writer.h'],
   [('push refused when the checkpoint has moved', C + 'Server.cpp push'),
    ('replica compared with the server', C + 'Server_Connection.cpp'),
    ('server writes through its own journal', C + 'Server.cpp')]),
  technique='seeded message schedules, connection losses, kills, restarts and power failures of server and clients',
  level_note='Seeded search: the real server and up to 4 real clients as simulated processes linked by a simulated network; replicas, databases and the server file are compared with the log of transactions in lock order; acknowledged bytes are watched at each write.'),
 dict(id='P09',
  title='The server lock is exclusive, handed over, and expires',
  statement='At any time at most one client of joedb_server holds the lock, except one whose lock has expired; a waiting client gets the lock when the holder releases it, loses its connection, dies, or exceeds the lock time-out. '
            'A client whose lock has expired can commit only if nobody has committed in between: otherwise its push is refused with an error and has no effect. No client waits forever.',
  quantifier=q(['schedules', 'histories', 'fault_sequences'], 'every order in which clients ask for, hold, lose and release the lock, every duration relative to the time-out'),
  why_tests_cant='The tests check one time-out with two clients and a real clock; races between expiry, push, release, hand-over and disconnection are a matter of schedule.',
  anchors=anchors([C + 'Server.cpp', C + 'Server.h', C + 'Server_Connection.cpp', C + 'Writable_Client.h'],
   [('queue of lock waiters', C + 'Server.cpp lock'),
    ('lock time-out', C + 'Server.cpp refresh_lock_timeout'),
    ('conflict detection', C + 'Server.cpp push')]),
  technique='seeded schedules of competing clients with virtual time, expiring locks and lost connections',
  level_note='Seeded search: up to 5 clients hold the lock for random virtual durations, with or without time-out and faults; grants are checked for exclusion, pushes against the log, and all clients must finish.'),
 dict(id='P15',
  title='A remote call runs at most once and gets its own reply',
  statement='A remote procedure call that returns has been executed exactly once, with exactly the message that was sent, and the caller receives exactly the reply of its own call, in an order consistent with real time; '
            'a call that fails has been executed at most once. An exception in a procedure reaches only its caller, with its text, and neither the connection, other clients nor the server suffer from it. '
            'Calls finish when connections are lost or the server stops, and no signature mismatch goes undetected.',
  quantifier=q(['schedules', 'histories', 'fault_sequences'], 'every interleaving of calls of several threads, connections and server threads, any message size and splitting, every instant of connection loss or shutdown'),
  why_tests_cant='The tests make a few calls one at a time over an unbroken connection.',
  anchors=anchors(['src/joedb/rpc/Server.h', 'src/joedb/rpc/Client.h', 'src/joedb/asio/Server.cpp', 'src/joedb/concurrency/Channel.h'],
   [('call and reply framing', 'src/joedb/rpc/Client.h'), ('request parsing and execution', 'src/joedb/rpc/Server.h'), ('channel lock', 'src/joedb/concurrency/Channel.h')]),
  technique='seeded interleavings of remote calls, message splitting, connection losses and shutdowns',
  level_note='Seeded search: the real rpc server with several threads and real clients over a simulated network; each call carries an identifier, executions are counted, replies and errors compared with what the call must produce, and a counter procedure is checked for linearizability.'),
 dict(id='P16',
  title='Hostile traffic and failed accepts never stop a server',
  statement='Whatever bytes a client sends to joedb_server or to a remote procedure server, and whenever it disconnects, the server neither crashes, reads or writes outside its buffers, nor damages its file; well-behaved clients keep being served. '
            'After a failed accept the server goes on accepting connections, and it still stops when asked to.',
  quantifier=q(['fault_sequences', 'schedules', 'inputs'], 'every byte sequence a peer may send, split anywhere, with a disconnection at any point, mixed with well-behaved clients; every sequence of accept errors'),
  why_tests_cant='The tests send a few malformed messages; the state reached by a wrong message depends on what other sessions are doing and on where the connection is cut.',
  anchors=anchors([C + 'Server.cpp', 'src/joedb/asio/Server.cpp', 'src/joedb/rpc/Server.h'],
   [('message parsing', C + 'Server.cpp'), ('accept loop', 'src/joedb/asio/Server.cpp'), ('session life time', 'src/joedb/asio/Server.cpp Session')]),
  technique='seeded malformed messages, disconnections and accept errors mixed with well-behaved clients',
  level_note='Seeded search: byte-level clients that mutate, truncate and reorder valid messages, next to real clients checked as for the server history; buffer ranges are checked at each system call, freed memory is poisoned, liveness of the good clients is required.'),
 dict(id='P12',
  title='Keep-alive pings keep a connection alive and never disturb it',
  statement='A client with a keep-alive interval is never silent for longer than that interval while it is idle, with the file server as with a remote procedure server. '
            'A ping never mixes with an operation: whatever the interval, every pull, push, read, lock and remote call gives the same result as without pings. Closing an idle connection is prompt.',
  quantifier=q(['schedules', 'histories', 'fault_sequences'], 'every interval and every interleaving of the ping timer with the operations of the client, the splitting of messages and the loss of connections'),
  why_tests_cant='The tests send one or two pings while nothing else happens, with a real clock; a ping that mixes with an operation needs the timer to fire between two messages of that operation.',
  anchors=anchors([C + 'Server_Client.cpp', C + 'Server_Client.h', C + 'Keep_Alive_Thread.h', C + 'Server_Connection.cpp', 'src/joedb/rpc/Client.h', C + 'Channel.h'],
   [('keep-alive thread', C + 'Keep_Alive_Thread.h'), ('channel lock', C + 'Channel.h'), ('ping reply', C + 'Server.cpp')]),
  technique='seeded interleavings of keep-alive threads with operations, in virtual time',
  level_note='Seeded search: intervals of 1 to 400 ms against transactions, pulls, server files and remote calls with split messages; every result is compared with the model, the silence of idle clients is measured in virtual time.'),
 dict(id='P13',
  title='A pull that waits returns when data comes or when time is over',
  statement='A pull that may wait for some duration returns at once when data is there, promptly when data is pushed during the wait, and otherwise when the duration is over, never later and, if nobody does anything, never earlier. '
            'What it brings is complete, and neither other waiting clients nor the loss of some of them change this.',
  quantifier=q(['schedules', 'histories', 'fault_sequences'], 'every number of waiting clients, every instant of push, lock, time-out and disconnection relative to the wait'),
  why_tests_cant='The tests use one waiting client and a real clock; several waiters, pushes at the moment the wait ends, and lost waiters depend on the schedule.',
  anchors=anchors([C + 'Server.cpp', C + 'Server.h', C + 'Server_Connection.cpp', C + 'Client.h'],
   [('waiting pulls', C + 'Server.cpp pull'), ('wake-up by pushes', C + 'Server.cpp push')]),
  technique='seeded schedules of waiting pulls and pushes in virtual time, with lost connections',
  level_note='Seeded search: up to 4 clients that push and wait at random; the duration of each wait is compared in virtual time with the pushes acknowledged during it; replicas are compared with the log of transactions.'),
 dict(id='P10',
  title='A robust connection survives server restarts and lost connections',
  statement='While connections are lost and the server is killed or restarted, no operation of a client with a robust connection fails, except that a push reports a conflict when somebody else has pushed, or when its own data already reached the server. '
            'Each transaction is there exactly once, and all operations finish soon after the last fault.',
  quantifier=q(['schedules', 'histories', 'fault_sequences', 'crash_points'], 'every instant of connection loss, kill, stop and restart, in every operation, repeated any number of times, including during reconnection'),
  why_tests_cant='The tests close a channel at a few chosen points of a few operations, with a real clock and a server in the same process.',
  anchors=anchors([C + 'Robust_Connection.cpp', C + 'Robust_Connection.h', C + 'Server_Connection.cpp', C + 'Server.cpp'],
   [('retry until success', C + 'Robust_Connection.h try_until_success'), ('reconnection', C + 'Robust_Connection.cpp reconnect'), ('errors that are not retried', 'src/joedb/error/Disconnection.h')]),
  technique='seeded connection losses, kills and restarts in virtual time, until faults stop',
  level_note='Seeded search: 1 to 3 robust clients while connections break at any socket call and the server restarts up to 4 times; every error other than a real conflict is a violation, the history is checked as for the server, and clients must finish within a bound after the last fault.'),
 dict(id='P11',
  title='A file read through the server is the file of the server',
  statement='A client that uses the file of the server directly, without a local copy, reads at any position the bytes of the server file, followed by its own writes that are not yet pushed, and nothing else. '
            'Its transactions are in the history of the server, or refused, exactly like those of the other clients, also when connections or locks are lost and while others write: a lost connection is replaced, and only conflicts are reported.',
  quantifier=q(['schedules', 'histories', 'fault_sequences', 'inputs'], 'every range of bytes, every interleaving with pushes of other clients, loss of connection and of locks'),
  why_tests_cant='The tests read a few ranges with one client; what a read returns while others push, and after a lock was lost, depends on the schedule.',
  anchors=anchors([C + 'Server_File.cpp', C + 'Server_File.h', C + 'Server.cpp', C + 'Robust_Connection.cpp'],
   [('head, body and tail', C + 'Server_File.cpp pread'), ('read request', C + 'Server.cpp read')]),
  technique='seeded schedules of remote readers and writers with lost connections and locks',
  level_note='Seeded search: random ranges read through server files and connections are compared with the server file; transactions are read back before they are pushed; history checked as for the server.'),
 dict(id='P14',
  title='A replica that differs from the server is always detected',
  statement='When a client connects, pulls or pushes, a local file whose common part with the server differs is refused with an error, and neither file is modified; a local file that does not differ is never refused. '
            'What was written offline, or through another client that shares the local file, is pushed entirely and in order, or not at all.',
  quantifier=q(['schedules', 'histories', 'inputs', 'fault_sequences'], 'every pair of contents (same, prefix, longer, diverged, one bit changed), every check that looks at the difference, short reads, offline histories, and pushes of others in between'),
  why_tests_cant='The tests compare a few pairs of small files read at once; divergence comes from histories of offline writes, other pushes and failures.',
  anchors=anchors([C + 'Server_Connection.cpp', C + 'File_Connection.cpp', J + 'File_Hasher.cpp', J + 'Abstract_File.cpp', C + 'Writable_Client.h', C + 'Server.cpp'],
   [('hash comparison', C + 'Server_Connection.cpp handshake'), ('check of data that was not pushed', C + 'Server_Connection.cpp check_unpushed_data'), ('byte comparison', J + 'Abstract_File.cpp equal_to'), ('hash with short reads', J + 'File_Hasher.cpp')]),
  technique='seeded pairs of contents with short reads, and seeded offline histories against a live server',
  level_note='Seeded search: replicas derived from the server content (cut, extended, diverged, one bit changed) under fast and full checks with short reads; offline transactions and shared local files mixed with live clients, faults and kills; history checked as for the server.'),
 dict(id='P03',
  title='Recovery keeps everything that was committed',
  statement='A file whose last writer was killed or failed to commit is refused for writing by default and is left untouched; reading it gives exactly what was committed, and reading it until its very end starts with that. '
            'Truncating it with joedb_push gives a clean file with the same committed content, never modifies the original, and, if it is itself killed, leaves an output that holds everything or nothing. '
            'Opening it again with the overwrite option keeps everything that was committed, over any number of crashes.',
  quantifier=q(['crash_points', 'histories', 'schedules'], 'every history of transactions and aborts, every instant at which the writer or joedb_push is killed, every sequence of refusal, truncation and overwriting'),
  why_tests_cant='The tests recover a few files made by hand; what a crash leaves depends on the call at which the writer was killed, and on the recoveries before.',
  anchors=anchors([J + 'Journal_Construction_Lock.cpp', J + 'Readonly_Journal.cpp', J + 'Writable_Journal.cpp', 'src/joedb/ui/joedb_push.cpp', C + 'File_Connection.cpp', J + 'Abstract_File.cpp'],
   [('refusal of a dirty file', J + 'Writable_Journal.cpp constructor'), ('recovery options', J + 'Journal_Construction_Lock.h'), ('truncation', 'src/joedb/ui/joedb_push.cpp')]),
  technique='seeded process kills of writers and of the recovery tool over several lives',
  level_note='Seeded search: a file goes through up to 6 lives; writers abort and are killed at random calls; between lives it is opened without recovery, read until its end, and truncated with the real joedb_push (possibly killed); everything is compared with the log of transactions.'),
 dict(id='P07',
  title='Results do not depend on how much each system call transfers',
  statement='Whatever number of bytes the system transfers at each read or write, and however a concurrent access is split, every operation gives the same result as on a file in memory: raw access, blobs, copies, comparisons, hashes, buffered streams, journals, encoded and compressed files, files shared by several processes, and the server.',
  quantifier=q(['fault_sequences', 'inputs', 'schedules'], 'every sequence of short reads and short writes, at any call, of any size, for any sequence of operations'),
  why_tests_cant='On a local disk, reads and writes are never short: the loops that handle them are never executed a second time by the tests.',
  anchors=anchors([J + 'Posix_File.cpp', J + 'Abstract_File.cpp', J + 'File_Hasher.cpp', J + 'File_Iterator.h', J + 'filebuf.cpp', J + 'Encoded_File.cpp', J + 'Readonly_Encoded_File.cpp', J + 'File_Buffer.h'],
   [('write loop', J + 'Posix_File.cpp pwrite'), ('read until the size is complete', J + 'Abstract_File.cpp'), ('buffered stream', J + 'filebuf.cpp'), ('write-behind buffer', J + 'Encoded_File.cpp')]),
  technique='seeded short and split transfers injected at every read, write, send and receive, compared with a model in memory',
  level_note='Seeded search: the same random operations are applied to a simulated file with short transfers and to a model in memory; journals are compared event by event; shared files and the server are checked against the log of transactions while all transfers are short.'),
 dict(id='P17',
  title='Automatic schema upgrades happen once, entirely, for every program',
  statement='When programs compiled with several versions of a schema share a file or a server, each upgrade, including its custom functions, is done exactly once and entirely, on all the data committed before it, or not at all when its program fails or is killed. '
            'No committed data is lost, no transaction of a program with an older schema is accepted after the upgrade: it gets an error, and never blocks the others. '
            'The compiled database of every client is always what its file says.',
  quantifier=q(['schedules', 'crash_points', 'histories', 'fault_sequences'], 'every interleaving of programs with three versions of a schema that open, write, pull, abort and leave, every instant at which one is killed or disconnected, failures in the custom functions'),
  why_tests_cant='The tests upgrade a memory file in a single thread; concurrent upgrades, a program that becomes too old while it runs, and a crash in the middle of an upgrade need schedules and crash points.',
  anchors=anchors(['src/joedb/compiler/generator/Writable_Database_cpp.cpp', 'src/joedb/compiler/generator/Client_h.cpp', 'src/joedb/compiler/generator/Readonly_Client_h.cpp', 'src/joedb/compiler/generator/Database_Writable_h.cpp', C + 'Writable_Client.h'],
   [('upgrade inside a transaction', 'src/joedb/compiler/generator/Client_h.cpp Client'),
    ('upgrade', 'src/joedb/compiler/generator/Writable_Database_cpp.cpp auto_upgrade'),
    ('unlocking after an error', C + 'Writable_Client.h start_transaction')]),
  technique='seeded interleavings of programs compiled with three schema versions, kills and failing upgrade functions, on a file or a server',
  level_note='Seeded search: 2 to 5 programs per life, generated by joedbc from three schemas; the events of every file and replica must be upgrades recomputed by a hand-written model, and committed transactions at their schema version; compiled databases are compared with the interpreter.'),
 dict(id='P18',
  title='Copies made by pushing are prefixes of their source, and catch up',
  statement='A copy kept by pushing to a file, to a compressed file or to a server is at any instant readable, a prefix of its source, and never goes back, even when the tool that makes it is killed or stopped, or its connection is lost. '
            'Started again, it catches up with everything its source committed. '
            'A client that works on a local file connected to another file confirms a transaction when both have it, continues from any crash between the two, and is refused if they have diverged.',
  quantifier=q(['crash_points', 'schedules', 'histories', 'fault_sequences'], 'every history of the writers of the source, every instant at which the pushing process is killed, interrupted or disconnected, every sequence of sessions'),
  why_tests_cant='The tests push complete files once; copies that are killed in the middle, restarted and pushed while the source is being written depend on schedules and crash points.',
  anchors=anchors(['src/joedb/ui/joedb_push.cpp', C + 'File_Connection.cpp', C + 'Writable_Client.h', C + 'Readonly_Client.h', J + 'Writable_Journal.cpp', J + 'Abstract_File.cpp', J + 'Encoded_File.cpp', C + 'Server_Connection.cpp'],
   [('push if ahead', C + 'Client.h'), ('copy, then checkpoint', J + 'Writable_Journal.cpp pull_from'), ('following', 'src/joedb/ui/joedb_push.cpp')]),
  technique='seeded kills, interruptions and lost connections of the real joedb_push tool and of file connections, in virtual time',
  level_note='Seeded search: the real joedb_push --follow runs beside writers of the source, and is killed, interrupted, disconnected and restarted (with repair of the copy by joedb_push); each write to the copy is compared with the source; sessions of clients connected to a file are killed at random calls and compared byte by byte.'),
 dict(id='P19',
  title='Offline tools work on one committed state and publish all or nothing',
  statement='The tools that convert, pack, merge or dump a file may run while it is being written: they see exactly one state that was committed while they ran, and never modify their input. '
            'What they write is the result for that state, or is reported as an error and publishes nothing: a killed tool, a disk error or a full disk never leaves an output that can be taken for a complete one. '
            'Packing a file in place never loses it: at any crash or power failure the original or the packed file is there, readable and complete.',
  quantifier=q(['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every interleaving of the tool with the writers of its input, every instant at which it is killed or the machine loses power, every disk error'),
  why_tests_cant='The tests run the tools on quiet files with a working disk; a commit between two reads of the tool, a kill before its last write or a full disk need schedules and faults.',
  anchors=anchors(['src/joedb/ui/joedb_convert.cpp', 'src/joedb/ui/joedb_pack.cpp', 'src/joedb/ui/joedb_merge.cpp', 'src/joedb/ui/joedb_logdump.cpp', 'src/joedb/ui/joedb_to_json.cpp', 'src/joedb/ui/inplace_pack.cpp', 'src/joedb/ui/dump.cpp', J + 'Readonly_Journal.cpp'],
   [('checkpoint after the copy', 'src/joedb/ui/joedb_convert.cpp'), ('two renames around a sync', 'src/joedb/ui/inplace_pack.cpp'), ('reading until the checkpoint', J + 'Readonly_Journal.cpp')]),
  technique='seeded schedules of the real tools beside writers, with kills, power failures, disk errors and full disks',
  level_note='Seeded search: the real main functions of the tools run as a simulated process beside real writers; the output must be that of the same tool run alone on one of the states committed meanwhile, conversions are compared with the log of transactions and packed files with the database.'),
 dict(id='P21',
  title='Opening modes exclude each other, and a lock dies with its owner',
  statement='Two processes never have a file for themselves at the same time, whatever the modes they open it with; a file is created by exactly one of the processes that create it; modes that wait are served, modes that do not wait are refused only while somebody has the file. '
            'Readers and shared writers are never refused because of other processes. When a process ends or is killed, the file is free, and everything committed is readable.',
  quantifier=q(['schedules', 'crash_points', 'histories'], 'every interleaving of processes and threads that open the same file in any of the six modes, write, abort, close or are killed'),
  why_tests_cant='The tests open a file two or three times in one process in a fixed order; the windows between creating, locking and reading the header of a new file need other processes at a chosen instant.',
  anchors=anchors([J + 'Posix_File.cpp', J + 'Posix_File.h', J + 'Journal_Construction_Lock.cpp', J + 'Writable_Journal.cpp', J + 'Abstract_File.cpp'],
   [('locking when opening', J + 'Posix_File.cpp Posix_File'), ('lock while the journal is constructed', J + 'Journal_Construction_Lock.cpp'), ('lock of a shared transaction', J + 'Writable_Journal.cpp Tail_Exclusive_Lock')]),
  technique='seeded interleavings and kills of processes that open a file in every mode, with open-file-description locks simulated',
  level_note='Seeded search: 2 to 5 processes per life, several files per process; every success and every refusal is judged against the intervals in which each process could have the file; contents are compared with the log of transactions.'),
 dict(id='P22',
  title='Servers connected to servers keep one history, and survive losing each other',
  statement='What any server of a tree acknowledges is in the server that it is connected to, up to the root, whoever stops, is killed and restarted in between; what a server publishes locally is only ever extended, and is a prefix of the history of the root when nothing failed. '
            'A server whose own connection is lost goes on running and reports errors to its clients. '
            'A replica that has diverged is refused for good: history of the other side is never added to it, and its own is never pushed.',
  quantifier=q(['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every tree of up to four servers (shared, exclusive, in memory or without local copy), every sequence of stops, kills and restarts of the intermediate ones, every interleaving of their clients'),
  why_tests_cant='The tests connect one server to another one once, in a calm environment; the state of an intermediate server after a lost acknowledgement depends on the instant of the failure.',
  anchors=anchors([C + 'Server.cpp', C + 'Server_Connection.cpp', C + 'Robust_Connection.cpp', C + 'Writable_Client.h', C + 'Server_File.cpp', 'src/joedb/asio/Server.cpp', 'src/joedb/ui/joedb_server.cpp'],
   [('checkpoint, then push upstream, then acknowledge', C + 'Server.cpp push'), ('upstream lock kept or taken per session', C + 'Server.cpp lock'), ('comparison of contents', C + 'Server_Connection.cpp')]),
  technique='seeded stops, kills, restarts and network delays in simulated trees of real servers',
  level_note='Seeded search: one to three real servers connected to a real root server, real clients below; each acknowledgement is looked up in the file of the root at once, each write to a relay is compared with what it published before, replicas are explained by the log of transactions, or by complete transactions never mixed after they diverged.'),
 dict(id='P23',
  title='Damaged files are reported, and never crash, hang or get damaged further',
  statement='Whatever happens to the bytes of a file (flipped bits, lost, stale or zeroed sectors, truncation, garbage at the end, a wrong header), before it is opened or while processes use it, '
            'every process that opens, reads, writes, converts, checks or serves it either works or reports an error: it is never killed by a signal or an uncaught error, and it finishes. '
            'What precedes the first damaged byte is read exactly as it was written; a file whose committed bytes are intact loses nothing. '
            'Readers and tools never modify such a file, writers and servers never modify the bytes that it had published, what a writer appends can be read, and a server remains available to its clients.',
  quantifier=q(['inputs', 'fault_sequences', 'schedules', 'histories'], 'every well-formed file, every damage done to its bytes, every instant at which it is done while processes have the file open, every program that opens it'),
  why_tests_cant='The tests try a few hand-made wrong files, mostly in memory and with one reader; the damage that matters depends on the bytes, and on the moment at which a process that has the file open meets it.',
  anchors=anchors([J + 'Readonly_Journal.cpp', J + 'File_Buffer.cpp', J + 'Journal_Construction_Lock.cpp', 'src/joedb/interpreted/Database.cpp', 'src/joedb/interpreted/Table.h', 'src/joedb/Freedom_Keeper.h', 'src/joedb/compiler/generator/Database_h.cpp', C + 'Server.cpp'],
   [('sizes and ranges are checked before use', J + 'Readonly_Journal.cpp one_step'), ('assertions on record numbers', 'src/joedb/compiler/generator/Database_h.cpp internal_delete, internal_update_vector'), ('header and checkpoint validation', J + 'Readonly_Journal.cpp')]),
  technique='seeded storage corruption, at rest and under running processes of a simulated system',
  level_note='Seeded search: files written by real clients, of interpreted and compiled databases, are damaged in simulated storage, then opened by twenty-four kinds of real readers, writers and tools, or served by a real server to real clients; memory errors are caught by the allocator of the simulator and by the assertions of the standard library.'),
 dict(id='P24',
  title='Running out of memory is reported and never damages or misreports data',
  statement='When an allocation fails, at whatever moment, the process that needed it gets an error: it is not ended by a signal or an uncaught error, it keeps no lock, and it can open the file again. '
            'Acknowledged transactions are all in the file, a transaction that failed while it was being written is not, one that failed during its commit is there completely or not at all, and other processes are never blocked. '
            'A database that was read without an error contains what the file contains at that checkpoint.',
  quantifier=q(['inputs', 'fault_sequences', 'schedules', 'histories'], 'every sequence of allocation failures in every process, every schedule of writers and readers, every size and history of the file'),
  why_tests_cant='The tests never let an allocation fail; the effect depends on which of thousands of allocations fails, between which writes of a commit, and on what other processes do at this moment.',
  anchors=anchors([J + 'Writable_Journal.cpp', J + 'Readonly_Journal.cpp', J + 'File_Buffer.cpp', C + 'Writable_Client.h', C + 'Writable_Journal_Client.h', C + 'Writable_Database_Client.h', C + 'Readonly_Client.h', 'src/joedb/interpreted/Database.cpp'],
   [('a transaction that throws is not committed and unlocks', C + 'Writable_Client.h transaction'), ('locks are released by destructors', J + 'Abstract_File.h'), ('checkpoint written last', J + 'Writable_Journal.cpp')]),
  technique='seeded allocation failures under seeded schedules of a simulated system',
  level_note='Seeded search: operator new of real writers and readers fails at random moments; the file is compared with the log of transactions, and what each client has in memory with the file.'),
 dict(id='P25',
  title='The command-line server and clients do what they were asked, or report an error',
  statement='Whatever users type at joedb_client while joedb_server or joedb_multi_server runs, and other users, processes and servers work on the same data: each command is either executed and answered OK, or answered by an error, and what was answered OK is true. '
            'A transaction that was answered OK is in the file of the server, one that was aborted or refused before its commit is not; a pull shows everything that was committed before it; what the dump and the followers print is the history, in order. '
            'Loops go on until Ctrl-C and stop then; a server that is asked to stop ends with status 0 and removes its socket, and never touches the other files that it serves; a file with an aborted transaction is refused and left alone unless recovery is asked for; with hard checkpoints, nothing acknowledged is lost by a power failure.',
  quantifier=q(['schedules', 'crash_points', 'fault_sequences', 'histories'], 'every sequence of commands of several users, every combination of command-line options, every instant at which a server, a client or the machine stops, or a connection is lost'),
  why_tests_cant='The tests run one client against one server in a fixed order, with a script; what a prompt or an OK is worth depends on what other processes do, and on failures, between two commands.',
  anchors=anchors(['src/joedb/ui/joedb_server.cpp', 'src/joedb/ui/joedb_multi_server.cpp', 'src/joedb/ui/joedb_client.cpp', 'src/joedb/ui/Client_Command_Processor.cpp', 'src/joedb/ui/Parsed_Client.cpp', 'src/joedb/ui/File_Parser.cpp', 'src/joedb/ui/Connection_Parser.cpp', 'src/joedb/ui/interruptible_sleep.cpp', C + 'Server.cpp', 'src/joedb/asio/Server.cpp'],
   [('a transaction is committed when its interpreter ends without abort', 'src/joedb/ui/Client_Command_Processor.cpp'), ('loops until a signal', 'src/joedb/ui/interruptible_sleep.cpp'), ('graceful stop', 'src/joedb/asio/Server.cpp join')]),
  technique='seeded users at simulated terminals, schedules, kills, signals, lost connections and power failures around the real command-line programs',
  level_note='Seeded search: the real main functions run as simulated processes with a keyboard and a screen of their own; answers, prompts, dumps and exit statuses are compared with the log of transactions and with the file of the server at that instant.'),
 dict(id='P26',
  title='A client survives whatever a server sends',
  statement='When what a server sends to its clients is damaged, truncated, duplicated, replaced, or comes from something that is not a compatible joedb server: a client either gets an exception or goes on. It never crashes, never touches memory beyond its buffers, '
            'never changes what its local file contained below its checkpoint before the connection, never lowers this checkpoint, and everything ends once the server is honest again or the connection is closed. '
            'A greeting that is not that of a compatible server is refused, a pull or a push that gets the answer of another request fails, a failed hash check is a content mismatch, and an rpc call succeeds only with a well-formed successful reply. '
            'Afterwards a replica that has the bytes of the server is still usable and one that differs is refused by a full check; the server and its other clients are not disturbed.',
  quantifier=q(['inputs', 'fault_sequences', 'schedules', 'histories'], 'every sequence of damaged messages, at every point of every request of every kind of client, every local file and history'),
  why_tests_cant='The tests connect clients to honest servers only; what damaged traffic does depends on which field of which message is hit, and on what the client was doing and already has.',
  anchors=anchors([C + 'Server_Client.cpp', C + 'Server_Connection.cpp', C + 'Robust_Connection.cpp', C + 'Robust_Connection.h', C + 'Server_File.cpp', C + 'Client.cpp', 'src/joedb/rpc/Client.h', C + 'Keep_Alive_Thread.h'],
   [('greeting checked', C + 'Server_Client.cpp connect'), ('size of a remote read checked', C + 'Server_Connection.cpp pread'), ('type of replies checked', C + 'Server_Connection.cpp pull, push'), ('downloaded data is written after the checkpoint', C + 'Server_Client.cpp download')]),
  technique='seeded corruption of the network traffic from a real server to real clients, in a simulated system',
  level_note='Seeded search: a simulated network changes, cuts, repeats and invents bytes on their way from the real server to real clients of every kind; memory is checked by the simulated heap, files and outcomes against what was really sent.'),
 dict(id='P27',
  title='A pull-only server serves a live file and refuses every write',
  statement='A server on a file that it may only read, and a server that is connected to such a server, announce that they are pull-only. What a client has after a pull is a prefix of what the writers of the file have committed, never goes back, and contains everything that was committed when the pull started; '
            'a pull that waits returns in time. A lock, a transaction or a push is refused with an error within bounded time, whoever else has tried before and still keeps a connection; it changes neither the file, nor the client, and disturbs nobody: the refused client can go on pulling, and so can all others, through any number of servers. '
            'This holds while writers of the file are killed and servers are restarted.',
  quantifier=q(['schedules', 'histories', 'crash_points', 'inputs'], 'every interleaving of writers of the file, servers and clients of every kind, every history of refused requests, every point where a writer or a server is killed'),
  why_tests_cant='The tests connect one client at a time to a pull-only server; refusals that keep a lock or leave bytes in a connection show only in the next requests of that or other clients.',
  anchors=anchors([C + 'Server.cpp', C + 'Server_Connection.cpp', C + 'Readonly_Client.h', C + 'Server_Client.cpp', C + 'Client.h', 'src/joedb/journal/Readonly_Journal.cpp'],
   [('greeting tells the mode', C + 'Server.cpp handshake'), ('a lock is refused', C + 'Server.cpp lock'), ('a push is refused', C + 'Server.cpp push'), ('the file is read again for each pull', C + 'Server.cpp pull')]),
  technique='seeded schedules, kills and restarts around writers of a file, a real server that may only read it, and real clients, in a simulated system',
  level_note='Seeded search: real writers, servers and clients run in one simulated system; what clients have is compared, at each pull, with the bytes that the file publishes at that instant.'),
]

NOT_APPLICABLE = [
 dict(id='N01',
  title='Decoding what was encoded gives the same values',
  statement='Every value of every type that is written to a journal (integers of every width, floats, strings, blobs, references, vectors, compact numbers) is read back identical, '
            'and so is every block that went through a compression codec or the base-64 and string codecs of the text formats.',
  quantifier=q(['inputs'], 'every value of every type'),
  why_tests_cant='The tests use a few values of each type; limits and unusual encodings are not covered.',
  anchors=anchors([J + 'File_Buffer.h', J + 'Buffer.h', J + 'Brotli_Codec.cpp', 'src/joedb/ui/type_io.cpp'], [('compact numbers', J + 'Buffer.h compact_write')]),
  reason='A pure function of its input: no schedule, clock, I/O outcome or crash can change the result, so simulation adds nothing over input generation, which is another technique. Values pass through the real encoder in every simulated run, but nothing here claims them all.'),
 dict(id='N02',
  title='Text, JSON, SQL and joedbi dumps describe the database',
  statement='Executing the output of a joedbi dump rebuilds the same database, and the JSON and SQL dumps contain every record and value with correct escaping.',
  quantifier=q(['inputs'], 'every database, every string'),
  why_tests_cant='The tests compare a few dumps to reference output; escaping depends on the content of strings and on the shape of the schema.',
  anchors=anchors(['src/joedb/ui/Interpreter_Dump_Writable.cpp', 'src/joedb/ui/joedb_to_json.cpp', 'src/joedb/ui/SQL_Dump_Writable.cpp', 'src/joedb/ui/Data_Manipulation_Command_Processor.cpp'], [('string escaping', 'src/joedb/ui/type_io.cpp')]),
  reason='A deterministic transformation of one input by one thread: there is no schedule, time or fault to decide. What depends on faults and concurrency, that a dump is made from one committed state and that a failure is reported, is claimed in P19.'),
 dict(id='N03',
  title='joedb_merge renumbers references consistently',
  statement='Merging databases keeps every record of each of them, in order, and every reference still designates the record that it designated.',
  quantifier=q(['inputs'], 'every pair of databases with the same schema'),
  why_tests_cant='The tests merge a handful of small databases.',
  anchors=anchors(['src/joedb/ui/merge.cpp'], [('offset of references', 'src/joedb/ui/merge.cpp')]),
  reason='A pure function of the content of its input files. The crash, concurrency and I/O error behaviour of the tool is claimed in P19.'),
 dict(id='N04',
  title='Compiled and interpreted databases agree, and indexes are exact',
  statement='For every journal, the database that generated code builds has the same records and values as the interpreter builds; each index contains exactly the live records, and a duplicate key of a unique index is refused.',
  quantifier=q(['inputs', 'histories'], 'every schema, every journal'),
  why_tests_cant='The tests compile a fixed set of schemas and check a few operations on each.',
  anchors=anchors(['src/joedb/compiler/generator/Database_h.cpp', 'src/joedb/Freedom_Keeper.h', 'src/joedb/interpreted/Database.cpp'], [('insertion in indexes', 'src/joedb/compiler/generator/Database_h.cpp')]),
  reason='A sequential property of an in-memory data structure and of a code generator: single-threaded, no I/O of its own, so there is no fault or interleaving to inject. P17 compares compiled with interpreted databases for three schemas while they are upgraded concurrently.'),
 dict(id='N05',
  title='The command interpreter reports every malformed command',
  statement='Whatever text is typed or piped to joedbi, joedbc, joedb_admin or joedb_client, a malformed command or schema produces an error message and the tool neither crashes nor writes anything for it.',
  quantifier=q(['inputs'], 'every sequence of characters'),
  why_tests_cant='The tests type a fixed list of commands.',
  anchors=anchors(['src/joedb/ui/Command_Interpreter.cpp', 'src/joedb/ui/Data_Manipulation_Command_Processor.cpp', 'src/joedb/compiler/Compiler_Options_io.cpp'], [('parsing of arguments', 'src/joedb/ui/Data_Manipulation_Command_Processor.cpp')]),
  reason='A parser fed by one stream: the outcome depends on the input text only. Input fuzzing is the technique for it, not simulation.'),
]
