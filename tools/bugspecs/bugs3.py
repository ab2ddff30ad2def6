SRV = '''
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Connection.h"
'''
CON = SRV + '''
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/concurrency/Local_Connector.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_File.h"
struct Srv
{
 joedb::File sf;
 joedb::Writable_Journal_Client client;
 joedb::Logger quiet;
 joedb::Server server;
 Srv(joedb::Open_Mode m = joedb::Open_Mode::write_existing_or_create_new): sf("s.joedb", m), client(sf), server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(0)) {}
 ~Srv() {server.stop();}
};
'''
BUGS = [
dict(id='P01-one-sync', property='P01',
 edits=[('journal/Writable_Journal.cpp', '''  file.sync();

  file.pwrite''', '''  file.pwrite''')],
 needs='power failure inside a hard checkpoint, when the header reaches the disk before the data',
 breaks='the hard checkpoint of the file covers data that was lost',
 demo='''
int main()
{
 Rec_File f;
 joedb::Writable_Journal j(f);
 j.hard_checkpoint();
 j.comment("one"); j.hard_checkpoint();
 const size_t before = f.ops.size();
 j.comment("two, which is longer"); j.hard_checkpoint();
 for (size_t n = before; n <= f.ops.size(); n++)
 {
  // writes to the header survive, the others do not
  String_File s(f.power(n, [&](size_t i) {return f.ops[i].offset < 41;}));
  Comments c;
  try
  {
   joedb::Readonly_Journal r{joedb::Journal_Construction_Lock(s)};
   r.play_until(c, r.get_hard_checkpoint());
  }
  catch (const std::exception &e) {fprintf(stderr, "%s\\n", e.what()); CHECK(!"unreadable");}
  CHECK(c.v.size() >= 1 && c.v[0] == "one");
  if (c.v.size() > 1) CHECK(c.v.size() == 2 && c.v[1] == "two, which is longer");
 }
}
'''),
dict(id='P02-soft-index', property='P02',
 edits=[('journal/Readonly_Journal.cpp', '''    hard_index = i ^ 1;
    soft_index = j;''', '''    hard_index = i ^ 1;''')],
 needs='a file opened again, or pulled from another writer, then a process killed in the middle of a hard checkpoint',
 breaks='the hard checkpoint overwrites the most recent soft checkpoint first: a kill makes the file go back to an older one',
 demo='''
int main()
{
 for (int n = 0; n < 4; n++)
 {
  Rec_File f;
  {
   joedb::Writable_Journal j(f);
   for (int i = 0; i < 2 + n; i++) {j.comment("comment " + std::to_string(i)); j.soft_checkpoint();}
  }
  Rec_File g(joedb::Open_Mode::write_existing);
  g.data = f.data;
  g.ops.push_back({false, 0, f.data});
  joedb::Writable_Journal j(g);
  j.skip_directly_to(j.get_checkpoint());
  j.comment("last");
  j.hard_checkpoint();
  for (size_t k = 1; k <= g.ops.size(); k++) CHECK(read_comments(g.prefix(k)).size() >= size_t(2 + n));
 }
}
'''),
dict(id='P03-pieces', property='P03',
 edits=[('journal/Writable_Journal.cpp', '''   const int64_t size = until - checkpoint_position;
   journal.get_file().copy_to(file, checkpoint_position, size);
   soft_checkpoint_at(until);''', '''   constexpr int64_t max_piece = 1 << 16;
   while (checkpoint_position < until)
   {
    const int64_t size = std::min(max_piece, until - checkpoint_position);
    journal.get_file().copy_to(file, checkpoint_position, size);
    soft_checkpoint_at(checkpoint_position + size);
   }'''),
 ('journal/Writable_Journal.cpp', '#include "joedb/error/Destructor_Logger.h"', '#include "joedb/error/Destructor_Logger.h"\n\n#include <algorithm>')],
 needs='a file bigger than 64 kB, and joedb_push killed while it copies it',
 breaks='the copy looks complete, but it stops in the middle of a transaction or of an operation',
 demo='''
int main()
{
 Rec_File f;
 {
  joedb::Writable_Journal j(f);
  for (int i = 0; i < 200; i++) j.comment("comment number " + std::to_string(i) + std::string(1000, 'x'));
  j.soft_checkpoint();
 }
 String_File src(f.data);
 joedb::Readonly_Journal source{joedb::Journal_Construction_Lock(src)};
 Rec_File g;
 joedb::Writable_Journal copy(g);
 copy.soft_checkpoint();
 const size_t before = g.ops.size();
 copy.pull_from(source, source.get_checkpoint());
 for (size_t n = before; n <= g.ops.size(); n++)
 {
  if (g.prefix(n).size() < 41) continue;
  String_File out(g.prefix(n));
  joedb::Readonly_Journal r{joedb::Journal_Construction_Lock(out)};
  CHECK(r.get_checkpoint() == 41 || r.get_checkpoint() == source.get_checkpoint());
 }
}
'''),
dict(id='P05-read-ahead', property='P05',
 edits=[('journal/Readonly_Journal.cpp', '''  writable.soft_checkpoint();
 }

 file_buffer.flush();''', '''  writable.soft_checkpoint();
 }

 // nothing to write: keep what was already read
 if (!file.is_readonly())
  file_buffer.flush();''')],
 needs='a reader that pulls while the end of the file has unfinished data, which is then replaced',
 breaks='the reader goes on with the bytes that it had read ahead after the checkpoint: it delivers data that was never committed',
 demo='''
int main()
{
 std::string content[2];
 for (int k = 0; k < 2; k++)
 {
  Rec_File f;
  joedb::Writable_Journal j(f);
  j.comment("one");
  j.soft_checkpoint();
  const int64_t c = j.get_checkpoint();
  j.comment(k ? "committed" : "cancelled");
  j.soft_checkpoint();
  content[k] = f.data;
  if (k == 0) {const int64_t neg[4] = {-c, -c, 41, 41}; memcpy(content[k].data(), neg, 32);}
 }
 String_File s(content[0]);
 joedb::Readonly_Journal r{joedb::Journal_Construction_Lock(s)};
 Comments c;
 r.play_until_checkpoint(c);
 CHECK(c.v.size() == 1);
 s.get_data() = content[1];
 r.pull();
 r.play_until_checkpoint(c);
 CHECK(c.v.size() == 2 && c.v[1] == "committed");
}
'''),
dict(id='P06-partial-write', property='P06',
 edits=[('journal/Posix_File.cpp', '''   if (result < 0)
    throw_last_error("writing", "file");
   else
    written += size_t(result);''', '''   if (result < 0)
   {
    if (written == 0)
     throw_last_error("writing", "file");
    break;
   }

   written += size_t(result);''')],
 needs='the disk becomes full, or fails, in the middle of a write',
 breaks='the error is lost when the beginning of the data was written: a commit of incomplete data is confirmed',
 demo='''
#include <cerrno>
#include <sys/syscall.h>
static int64_t limit = 1 << 30;
static ssize_t my_pwrite(int fd, const void *p, size_t n, off_t o)
{
 if (o >= limit) {errno = ENOSPC; return -1;}
 if (int64_t(o + n) > limit) n = size_t(limit - o);
 return syscall(SYS_pwrite64, fd, p, n, o);
}
extern "C" ssize_t pwrite(int fd, const void *p, size_t n, off_t o) {return my_pwrite(fd, p, n, o);}
int main()
{
 joedb::File f("t.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal j(f);
 j.soft_checkpoint();
 limit = 8192;
 bool failed = false;
 try {j.comment(std::string(20000, 'x')); j.soft_checkpoint();} catch (const joedb::Exception &) {failed = true;}
 CHECK(failed);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P07-short-write', property='P07',
 edits=[('journal/Posix_File.cpp', '''    size - written,
    offset + written''', '''    size - written,
    offset''')],
 needs='a write that the system cuts short',
 breaks='the rest of the data is written over its beginning',
 demo='''
#include <sys/syscall.h>
static ssize_t my_pwrite(int fd, const void *p, size_t n, off_t o) {return syscall(SYS_pwrite64, fd, p, n > 5000 ? 5000 : n, o);}
extern "C" ssize_t pwrite(int fd, const void *p, size_t n, off_t o) {return my_pwrite(fd, p, n, o);}
int main()
{
 std::string s;
 for (int i = 0; i < 20000; i++) s += char(i * 7 + i / 256);
 joedb::File f("t.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal j(f);
 const joedb::Blob b = j.write_blob(s);
 j.soft_checkpoint();
 CHECK(f.read_blob(b) == s);
}
'''),
dict(id='P10-refused', property='P10',
 edits=[('concurrency/Robust_Connection.cpp', '   catch (std::exception &reconnect_exception)', '   catch (const Exception &reconnect_exception)'),
        ('concurrency/Robust_Connection.cpp', '#include "joedb/concurrency/Robust_Connection.h"', '#include "joedb/concurrency/Robust_Connection.h"\n#include "joedb/error/Exception.h"')],
 needs='a server that is still down when the client first tries to reconnect',
 breaks='the client gives up with an error instead of trying again',
 demo=CON + '''
int main()
{
 auto s = std::make_unique<Srv>();
 joedb::Logger quiet;
 joedb::Local_Connector connector("s.sock");
 joedb::Robust_Connection robust(connector, quiet);
 Rec_File f;
 joedb::Writable_Journal_Client c(f, robust);
 c.transaction([](joedb::Writable_Journal &j) {j.comment("one");});
 s.reset();
 std::thread restart([&]() {sleep_ms(7000); s = std::make_unique<Srv>();});
 bool error = false;
 try {c.pull(); c.transaction([](joedb::Writable_Journal &j) {j.comment("two");});}
 catch (const std::exception &e) {fprintf(stderr, "%s\\n", e.what()); error = true;}
 restart.join();
 CHECK(!error);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P11-read-retry', property='P11',
 edits=[('concurrency/Robust_Connection.cpp', '''  return try_until_success([&]()
  {
   return connection->pread(data, size, offset);}
  );''', '''  return connection->pread(data, size, offset);''')],
 needs='a connection that is lost right before or during a read of the file of the server',
 breaks='reading fails instead of reconnecting',
 demo=CON + '''
int main()
{
 auto s = std::make_unique<Srv>();
 joedb::Logger quiet;
 joedb::Blob b;
 {
  joedb::Local_Channel ch("s.sock");
  joedb::Server_Connection con(ch, quiet, std::chrono::milliseconds(0));
  Rec_File f;
  joedb::Writable_Journal_Client c(f, con);
  b = c.transaction([](joedb::Writable_Journal &j) {return j.write_blob(std::string(5000, 'b'));});
 }
 joedb::Local_Connector connector("s.sock");
 joedb::Server_File file(connector, quiet);
 CHECK(file.read_blob(b) == std::string(5000, 'b'));
 s.reset();
 s = std::make_unique<Srv>();
 bool error = false;
 try {CHECK(file.read_blob(b) == std::string(5000, 'b'));}
 catch (const std::exception &e) {fprintf(stderr, "%s\\n", e.what()); error = true;}
 CHECK(!error);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P12-ping-read', property='P12',
 edits=[('concurrency/Server_Client.cpp', '''  lock->write(buffer.data, buffer.index);
  lock->read(buffer.data, 9);
 }''', '''  lock->write(buffer.data, buffer.index);
  lock->read_some(buffer.data, 9);
 }''')],
 needs='the reply to a keep-alive ping arrives in several pieces',
 breaks='the next operation takes the rest of the ping for its own reply',
 demo=CON + '''
struct Pieces: public joedb::Local_Channel
{
 Pieces(): joedb::Local_Channel("s.sock") {}
 size_t read_some(char *d, size_t n) override {return joedb::Local_Channel::read_some(d, n > 3 ? 3 : n);}
};
int main()
{
 Srv s;
 joedb::Logger quiet;
 Pieces p;
 joedb::Server_Connection con(p, quiet, std::chrono::milliseconds(100));
 Rec_File f;
 joedb::Writable_Journal_Client c(f, con);
 sleep_ms(350);
 bool error = false;
 try {c.transaction([](joedb::Writable_Journal &j) {j.comment("one");});}
 catch (const std::exception &e) {fprintf(stderr, "%s\\n", e.what()); error = true;}
 CHECK(!error);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P13-first-waiter', property='P13',
 edits=[('concurrency/Server.cpp', '''  for (auto *waiter: get_server().pull_waiters)
   waiter->timer.cancel();
  get_server().pull_waiters.clear();''', '''  if (!get_server().pull_waiters.empty())
  {
   get_server().pull_waiters.front()->timer.cancel();
   get_server().pull_waiters.pop_front();
  }''')],
 needs='two clients that wait for new data at the same time',
 breaks='a push wakes up only one of them: the other one waits until the end of its time',
 demo=CON + '''
int main()
{
 Srv s;
 joedb::Logger quiet;
 Raw a("s.sock"), b("s.sock");
 const int64_t c = a.handshake();
 b.handshake();
 a.send("F" + Raw::i64(30000) + Raw::i64(c));
 b.send("F" + Raw::i64(30000) + Raw::i64(c));
 sleep_ms(300);
 joedb::Local_Channel ch("s.sock");
 joedb::Server_Connection con(ch, quiet, std::chrono::milliseconds(0));
 Rec_File f;
 joedb::Writable_Journal_Client client(f, con);
 client.transaction([](joedb::Writable_Journal &j) {j.comment("one");});
 CHECK(a.recv(9).size() == 9);
 CHECK(b.recv(9).size() == 9);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P14-ping-checkpoint', property='P14',
 edits=[('concurrency/Server_Client.cpp', '''  lock->write(buffer.data, buffer.index);
  lock->read(buffer.data, 9);
 }''', '''  lock->write(buffer.data, buffer.index);
  buffer.index = 1;
  lock->read(buffer.data, 9);
  server_checkpoint = buffer.read<int64_t>();
 }''')],
 needs='a client with offline data and keep-alive, a push by another client, then a ping before the next pull',
 breaks='the data that was not pushed is no longer compared with the data of the server: a replica that has diverged is not detected',
 demo=CON + '''
int main()
{
 Srv s;
 joedb::Logger quiet;
 joedb::Local_Channel ca("s.sock"), cb("s.sock");
 joedb::Server_Connection a(ca, quiet, std::chrono::milliseconds(100)), b(cb, quiet, std::chrono::milliseconds(0));
 Rec_File fa, fb;
 {joedb::Writable_Journal j(fa); j.comment("offline"); j.soft_checkpoint();}
 joedb::Writable_Journal_Client x(fa, a), y(fb, b);
 y.transaction([](joedb::Writable_Journal &j) {j.comment("something else");});
 sleep_ms(500);
 bool refused = false;
 try {x.transaction([](joedb::Writable_Journal &j) {j.comment("more");});} catch (const joedb::Exception &) {refused = true;}
 CHECK(refused);
 y.pull();
 CHECK(read_comments(fb.data).size() == 1);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P18-tail-check', property='P18',
 edits=[('concurrency/File_Connection.cpp', '''     !client_journal.equal_to(server_journal, Header::ssize, fast_size) ||
     !client_journal.equal_to(server_journal, min - fast_size, min)''', '''     !client_journal.equal_to(server_journal, Header::ssize, fast_size) ||
     !client_journal.equal_to(server_journal, fast_size, 2 * fast_size)''')],
 needs='two files of more than 4 kilobytes that diverge after their first 4 kilobytes',
 breaks='a replica that has diverged is accepted, and mixed with the other file',
 demo='''
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
int main()
{
 Rec_File f, g;
 for (auto *x: {&f, &g})
 {
  joedb::Writable_Journal j(*x);
  for (int i = 0; i < 500; i++) j.comment("comment number " + std::to_string(i));
  j.comment(x == &f ? "this" : "that");
  j.soft_checkpoint();
 }
 Rec_File a(joedb::Open_Mode::write_existing), b(joedb::Open_Mode::write_existing);
 a.data = f.data;
 b.data = g.data;
 joedb::File_Connection connection(b);
 bool refused = false;
 try {joedb::Writable_Journal_Client c(a, connection);} catch (const joedb::Exception &) {refused = true;}
 CHECK(refused);
}
'''),
]
