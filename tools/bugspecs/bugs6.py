PY = '''
import os, re, signal, subprocess, sys, time
B = '/repo/_build/'
procs = []
class P:
    def __init__(self, *a):
        self.out = open('out%d' % len(procs), 'w+b')
        self.p = subprocess.Popen([B + a[0]] + list(a[1:]), stdin=subprocess.PIPE, stdout=self.out, stderr=subprocess.STDOUT)
        procs.append(self.p)
    def type(self, s): self.p.stdin.write((s + '\\\\n').encode()); self.p.stdin.flush()
    def text(self): return open(self.out.name, 'rb').read().decode(errors='replace')
    def see(self, s, n=1, seconds=20):
        end = time.time() + seconds
        while time.time() < end:
            if self.text().count(s) >= n: return True
            if self.p.poll() is not None: return self.text().count(s) >= n
            time.sleep(0.02)
        return False
    def wait(self, seconds):
        try: return self.p.wait(seconds)
        except subprocess.TimeoutExpired: return None
def finish(ok, what=''):
    for p in procs:
        if p.poll() is None: p.kill()
    if not ok: print('failed:', what)
    os._exit(0 if ok else 1)
def check(c, what):
    if not c: finish(False, what)
def exists(f, seconds=20):
    end = time.time() + seconds
    while time.time() < end:
        if os.path.exists(f): return True
        time.sleep(0.02)
    return False
'''.replace('\\\\', '\\')
BUGS = [
dict(id='P25-recovery-shared', property='P25',
 edits=[('ui/Parsed_Client.cpp', '''   if (db_type == DB_Type::none)
  {
'''[1:], '''  // data after the checkpoint of a shared file belongs to another writer
  const Recovery file_recovery = client_file->is_shared() ? Recovery::overwrite : recovery;

  if (db_type == DB_Type::none)
  {
'''), ('ui/Parsed_Client.cpp', '''     new Writable_Journal_Client
     (
      *client_file,
      *connection,
      content_check,
      recovery
''', '''     new Writable_Journal_Client
     (
      *client_file,
      *connection,
      content_check,
      file_recovery
'''), ('ui/Parsed_Client.cpp', '''      Record_Id::null,
      recovery
''', '''      Record_Id::null,
      file_recovery
''')],
 needs='an aborted transaction in the local file of a client, which is opened again in shared mode, without recovery option',
 breaks='the data after the checkpoint is silently overwritten instead of being reported',
 py=PY + '''
c = P('joedb_client', 'a.joedb')
c.type('transaction'); c.type('create_table person'); c.type('quit'); c.type('transaction'); c.type('comment "very precious"'); c.type('abort'); c.type('quit')
check(c.wait(20) is not None, 'quit')
before = open('a.joedb', 'rb').read()
check(b'very precious' in before, 'written')
c = P('joedb_client', 'a.joedb')
c.type('transaction'); c.type('comment "x"'); c.type('quit'); c.type('quit')
c.wait(20)
check(open('a.joedb', 'rb').read() == before, 'data overwritten: ' + c.text())
finish('aborted' in c.text(), 'not reported: ' + c.text())
'''),
dict(id='P25-second-loop', property='P25',
 edits=[('ui/Client_Command_Processor.cpp', '''   parameters >> wait_seconds >> sleep_seconds;

   Signal::start();
''', '''   parameters >> wait_seconds >> sleep_seconds;

   // the handler stays installed
   if (Signal::get_signal() == Signal::no_signal)
    Signal::start();
''')],
 needs='a second pull_every, after a loop that was interrupted by Ctrl-C',
 breaks='the second loop ends after one pull, and does not follow the other clients',
 py=PY + '''
s = P('joedb_server', 'a.joedb')
check(exists('a.joedb.sock'), 'server')
c = P('joedb_client', 'memory', 'local', 'a.joedb.sock')
c.type('pull_every 0 0.3')
check(c.see('Sleeping', 2), 'first loop')
c.p.send_signal(signal.SIGINT)
check(c.see('OK: pull_every'), 'Ctrl-C')
n = c.text().count('Sleeping')
c.type('pull_every 0 0.3')
check(c.see('Sleeping', n + 4), 'second loop ended: ' + c.text())
c.p.send_signal(signal.SIGINT)
check(c.see('OK: pull_every', 2), 'Ctrl-C')
finish(True)
'''),
dict(id='P25-graceful-stop', property='P25',
 edits=[('asio/Server.cpp', '''       this->log("interrupted by SIGTERM");
     }
     this->thread_pool.stop();
''', '''       this->log("interrupted by SIGTERM");
     }

     if (signal == SIGTERM)
     {
      // no new session, but let the current ones finish their work
      boost::system::error_code ignored;
      acceptor.close(ignored);
     }
     else
      this->thread_pool.stop();
''')],
 needs='a client that stays connected while the server gets SIGTERM',
 breaks='the server does not stop, and its socket stays',
 py=PY + '''
s = P('joedb_server', 'a.joedb')
check(exists('a.joedb.sock'), 'server')
c = P('joedb_client', 'memory', 'local', 'a.joedb.sock')
c.type('pull')
check(c.see('OK: pull'), 'pull')
s.p.send_signal(signal.SIGTERM)
check(s.wait(20) == 0, 'the server did not stop')
finish(not os.path.exists('a.joedb.sock'), 'socket')
'''),
dict(id='P25-hard-option', property='P25',
 edits=[('ui/Parsed_Client.cpp', '''   auto *writable_client = dynamic_cast<Writable_Client*>(client.get());
   if (writable_client)
    writable_client->set_hard_checkpoint(hard_checkpoint);
''', '''   // journal clients are used by servers, which write checkpoints themselves
   auto *writable_client = dynamic_cast<Writable_Database_Client*>(client.get());
   if (writable_client)
    writable_client->set_hard_checkpoint(hard_checkpoint);
''')],
 needs='joedb_server (or joedb_client --db none) with --hard_checkpoint, and a power failure',
 breaks='what was acknowledged is not on the disk',
 py=PY + '''
import struct
s = P('joedb_server', '--hard_checkpoint', 'a.joedb')
check(exists('a.joedb.sock'), 'server')
c = P('joedb_client', 'memory', 'local', 'a.joedb.sock')
c.type('transaction'); c.type('create_table person'); c.type('quit')
check(c.see('OK: transaction'), 'transaction')
h = struct.unpack('<4q', open('a.joedb', 'rb').read()[:32])
size = os.path.getsize('a.joedb')
# the data and both copies of its checkpoint were synchronized
finish((h[0] == h[1] == size) or (h[2] == h[3] == size), 'no hard checkpoint: %s %s' % (h, size))
'''),
]
