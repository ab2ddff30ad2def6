"""Per-property facts used by check.py (what a run exercises, time budget)."""
REAL = ['all of /repo/src that the scenario links: journal, file, buffer, checkpoint and lock code, compiled unmodified from the working tree']
STUB = ['operating system: files, fcntl locks, fsync, sockets, poll/epoll, eventfd/timerfd, clocks, signals and process kill are served by the simulated kernel (sim/kernel.cpp)',
        'threads: real pthreads, exactly one runs at a time, chosen by the seeded scheduler']

PROPS = {
 'P01': dict(rule='A run is non-trivial when the machine loses power (and the file is recovered and checked) at least once.'),
 'P02': dict(rule='A run is non-trivial when a writer is killed while it runs.'),
 'P04': dict(rule='A run is non-trivial when at least two writers share the file.'),
 'P05': dict(rule='A run is non-trivial when a reader has read a file that others write.'),
 'P20': dict(rule='A run is non-trivial when a transaction is aborted.'),
 'P08': dict(rule='A run is non-trivial when several clients use the server, or when a client or the server is killed.'),
 'P09': dict(rule='A run is non-trivial when several clients compete for the lock of the server.'),
 'P15': dict(rule='A run is non-trivial when a remote procedure was executed by the real server for a real client.'),
 'P16': dict(rule='A run is non-trivial when hostile bytes, hostile disconnections or accept errors reached the server.'),
 'P12': dict(rule='A run is non-trivial when a client with a keep-alive interval was connected.'),
 'P13': dict(rule='A run is non-trivial when several clients, some of which may wait for data, are connected.'),
 'P10': dict(rule='A run is non-trivial when a robust connection is used.'),
 'P11': dict(rule='A run is non-trivial when clients of the server, some of which without a local copy, were running.'),
 'P14': dict(rule='A run is non-trivial when a replica with a given content was connected, or when several clients or failures were involved.'),
 'P06': dict(rule='A run is non-trivial when an injected disk error was reported to a client or hit the server.',
  assumptions=['a failed fsync leaves the data unsynced but still in the page cache: a later fsync writes it (systems that drop dirty pages after a failed fsync are not modelled)',
               'a failed write stops at a page boundary, and the 41-byte header, inside one page, is written entirely or not at all']),
 'P03': dict(rule='A run is non-trivial when a writer or the recovery tool is killed, or when several processes share the file.'),
 'P07': dict(rule='A run is non-trivial when the operations of the run were completed with transfers that may be short or split.',
  assumptions=['a read of at most 512 bytes is never short unless it reaches the end of the file (documented assumption of Abstract_File::pread)']),
 'P17': dict(rule='A run is non-trivial when the schema of the file was upgraded more than once, when a program with an older schema was refused, or when a program was killed.'),
 'P18': dict(rule='A run is non-trivial when a copy was made by the tool or by a connected client.',
  assumptions=['a write of at most 64 bytes is not torn by a kill']),
 'P19': dict(rule='A run is non-trivial when a tool was run on a file that other processes may be writing, or when a file was packed in place.'),
 'P21': dict(rule='A run is non-trivial when several processes opened the same file.'),
 'P23': dict(rule='A run is non-trivial when a process opened, read or served a file that was damaged, or damaged while it was open.',
  assumptions=['processes that interpret the data without a limit for record numbers use memory and time in proportion to the numbers that the file contains: they are not run on files that contain huge numbers',
   'an application may try again after an exception of joedb, but not after it ran out of memory']),
 'P24': dict(rule='A run is non-trivial when an allocation failed and the error was reported.'),
 'P25': dict(rule='A run is non-trivial when several users type commands, or when a server, a client or the machine fails.'),
 'P26': dict(rule='A run is non-trivial when at least one message of the server was changed on its way to a client.'),
 'P27': dict(rule='A run is non-trivial when a write was refused, or a writer or a server was killed or restarted.'),
 'P22': dict(rule='A run is non-trivial when a server that is connected to another server was started.'),
}
