import re
exec(open('/verif/tools/bugspecs/bugs3.py').read().split('BUGS = [')[0])
KILL = '''
#include <sys/wait.h>
#include <fcntl.h>
static int kill_at = -1, writes = 0;
extern "C" ssize_t pwrite(int fd, const void *p, size_t n, off_t o)
{
 if (kill_at >= 0 && writes++ == kill_at) _exit(77);
 if (lseek(fd, o, SEEK_SET) < 0) return -1;
 return write(fd, p, n);
}
'''
SCHEMA = dict(schema=True, files={
 'v1.joedbi': '''
create_table person
add_field person name string
''', 'v1.joedbc': '''
namespace v1
create_index person_by_name person name
''', 'v2.joedbi': '''
create_table person
add_field person name string

add_field person age int32
custom set_age
''', 'v2.joedbc': '''
namespace v2
create_index person_by_name person name
'''})
BUGS = [
dict(id='P21-create-race', property='P21',
 edits=[('journal/Posix_File.cpp', '''  else if (mode == Open_Mode::create_new)
   fd = open(file_name, O_RDWR | O_CREAT | O_EXCL, 00644);''', '''  else if (mode == Open_Mode::create_new)
  {
   if (access(file_name, F_OK) == 0)
   {
    errno = EEXIST;
    fd = -1;
   }
   else
    fd = open(file_name, O_RDWR | O_CREAT, 00644);
  }''')],
 needs='another process that creates and writes the file between the test of its existence and its opening',
 breaks='a process that asks to create a new file gets the file of another one',
 demo='''
#include <sys/syscall.h>
#include <unistd.h>
// another process creates the file just before the file is opened for creation
static bool race = false;
static int other()
{
 race = false;
 joedb::File f("f.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal j(f);
 j.comment("mine"); j.soft_checkpoint();
 return 0;
}
#include <fcntl.h>
#include <stdarg.h>
#define WRAP(name) extern "C" int name(const char *path, int flags, ...) \\
{ \\
 va_list v; va_start(v, flags); const int m = va_arg(v, int); va_end(v); \\
 if (race && (flags & O_CREAT)) other(); \\
 return int(syscall(SYS_openat, AT_FDCWD, path, flags, m)); \\
}
WRAP(open)
int main()
{
 race = true;
 bool refused = false;
 try {joedb::File f("f.joedb", joedb::Open_Mode::create_new);}
 catch (const joedb::Exception &) {refused = true;}
 CHECK(!race);
 CHECK(refused);
}
'''),
dict(id='P21-create-unlocked', property='P21',
 edits=[('journal/Posix_File.cpp', '''  if (mode != Open_Mode::read_existing && mode != Open_Mode::shared_write)
  {
   if (mode == Open_Mode::write_lock)
    exclusive_lock_tail();
   else if''', '''  if (mode != Open_Mode::read_existing && mode != Open_Mode::shared_write)
  {
   if (mode == Open_Mode::write_lock)
    exclusive_lock_tail();
   else if (mode == Open_Mode::write_existing_or_create_new && get_size() == 0)
    exclusive_lock(0, 1); // a new file: nobody else has it
   else if''')],
 needs='a process that opens for writing a file that another process has created with write_existing_or_create_new and still writes',
 breaks='both write the same file',
 demo='''
int main()
{
 joedb::File f("f.joedb", joedb::Open_Mode::write_existing_or_create_new);
 joedb::Writable_Journal j(f);
 j.comment("one"); j.soft_checkpoint();
 bool refused = false;
 try {joedb::File g("f.joedb", joedb::Open_Mode::write_existing);}
 catch (const joedb::Exception &) {refused = true;}
 CHECK(refused);
}
'''),
dict(id='P19-convert-progress', property='P19',
 edits=[('ui/joedb_convert.cpp', '''  input.play_until(output, checkpoint);
  output.soft_checkpoint();''', '''  // bounded memory for very large inputs
  constexpr int64_t block = 1 << 16;
  while (input.get_position() < checkpoint)
  {
   input.play_until(output, std::min(checkpoint, input.get_position() + block));
   output.soft_checkpoint();
  }''')],
 needs='a large input, and the conversion killed, or the disk full, after one block',
 breaks='the output publishes a part of the data and looks complete',
 demo=KILL + '''
#define main convert_main
#include "joedb/ui/joedb_convert.cpp"
#undef main
int main()
{
 {
  joedb::File f("in.joedb", joedb::Open_Mode::create_new);
  joedb::Writable_Journal j(f);
  for (int i = 0; i < 3000; i++) j.comment(std::string(100, 'x'));
  j.soft_checkpoint();
 }
 bool complete = false;
 for (int n = 0; !complete; n++)
 {
  unlink("out.joedb");
  const pid_t pid = fork();
  if (!pid)
  {
   kill_at = n;
   char a[] = "joedb_convert", b[] = "in.joedb", c[] = "out.joedb";
   char *argv[] = {a, b, c, nullptr};
   _exit(convert_main(3, argv));
  }
  int status;
  CHECK(waitpid(pid, &status, 0) == pid && WIFEXITED(status));
  complete = WEXITSTATUS(status) == 0;
  size_t size = 0;
  try
  {
   joedb::File f("out.joedb", joedb::Open_Mode::read_existing);
   joedb::Readonly_Journal j(f);
   Comments c;
   j.replay_log(c);
   size = c.v.size();
  }
  catch (const joedb::Exception &) {}
  CHECK(size == 0 || size == 3000);
 }
}
'''),
dict(id='P19-pack-tables', property='P19',
 edits=[('ui/dump.cpp', '''    record_id = record_id + size;
   }
  }
  writable.soft_checkpoint();''', '''    record_id = record_id + size;
   }
   writable.soft_checkpoint();
  }''')],
 needs='a packing tool killed between two tables',
 breaks='the packed file has the first tables only, and looks complete',
 demo=KILL + '''
#define main pack_main
#include "joedb/ui/joedb_pack.cpp"
#undef main
#include "joedb/interpreted/Database.h"
int main()
{
 {
  joedb::File f("in.joedb", joedb::Open_Mode::create_new);
  joedb::Writable_Journal j(f);
  joedb::Database db;
  for (int t = 1; t <= 2; t++)
  {
   j.create_table(t == 1 ? "a" : "b");
   j.add_field(joedb::Table_Id(t), "f", joedb::Type::string());
   for (int i = 0; i < 500; i++)
   {
    j.insert_into(joedb::Table_Id(t), joedb::Record_Id(i));
    j.update_string(joedb::Table_Id(t), joedb::Record_Id(i), joedb::Field_Id(1), std::string(100, 'x'));
   }
  }
  j.soft_checkpoint();
 }
 bool complete = false;
 for (int n = 0; !complete; n++)
 {
  unlink("out.joedb");
  const pid_t pid = fork();
  if (!pid)
  {
   kill_at = n;
   char a[] = "joedb_pack", b[] = "in.joedb", c[] = "out.joedb";
   char *argv[] = {a, b, c, nullptr};
   _exit(pack_main(3, argv));
  }
  int status;
  CHECK(waitpid(pid, &status, 0) == pid && WIFEXITED(status));
  complete = WEXITSTATUS(status) == 0;
  size_t records = 0;
  try
  {
   joedb::File f("out.joedb", joedb::Open_Mode::read_existing);
   joedb::Readonly_Journal j(f);
   joedb::Database db;
   j.replay_log(db);
   for (auto &[id, name]: db.get_tables()) records += size_t(db.get_size(id));
  }
  catch (const joedb::Exception &) {}
  CHECK(records == 0 || records == 1000);
 }
}
'''),
dict(id='P22-early-ack', property='P22',
 edits=[('concurrency/Server.cpp', '''     else
      get_server().client_lock->checkpoint_and_push();''', '''     else
      get_server().client_lock->do_checkpoint();'''),
  ('concurrency/Server.cpp', '''  buffer.data[0] = push_status;
  buffer.index = 1;
  co_await write_buffer();
 }''', '''  buffer.data[0] = push_status;
  buffer.index = 1;
  co_await write_buffer();

  // the client does not have to wait for the upstream server
  if (get_server().client_lock)
   get_server().client_lock->push_if_ahead();
 }''')],
 needs='an intermediate server that keeps the lock of its parent, and fails between the acknowledgement and the push',
 breaks='a transaction is acknowledged although the root of the tree does not have it, and never gets it if the intermediate server has no file',
 demo=CON + '''
// a connection to an upstream that is lost
struct Upstream: public joedb::Connection
{
 bool lost = false;
 int64_t have = 41;
 int64_t handshake(const joedb::Readonly_Journal &, joedb::Content_Check) override {return have;}
 int64_t push(const joedb::Readonly_Journal &, int64_t from, int64_t until, joedb::Unlock_Action) override
 {
  if (lost) throw joedb::Exception("upstream lost");
  return have = until;
 }
};
int main()
{
 joedb::Memory_File sf;
 Upstream up;
 joedb::Writable_Journal_Client relay(sf, up);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", relay, std::chrono::milliseconds(0));
 bool acknowledged = false;
 {
  joedb::Local_Channel channel("s.sock");
  joedb::Server_Connection connection(channel);
  joedb::Memory_File f;
  joedb::Writable_Journal_Client c(f, connection);
  c.transaction([](joedb::Writable_Journal &j) {j.comment("one");});
  up.lost = true;
  try
  {
   c.transaction([](joedb::Writable_Journal &j) {j.comment("two");});
   acknowledged = true;
  }
  catch (const std::exception &) {}
 }
 server.stop();
 CHECK(!acknowledged);
}
'''),
dict(id='P22-no-new-handshake', property='P22',
 edits=[('concurrency/Robust_Connection.cpp', '''    if (handshake_journal)
     connection->handshake(*handshake_journal, handshake_content_check);
    return;''', '''    // the fast check has been done already, and nothing can have changed
    if (handshake_journal && handshake_content_check == Content_Check::full)
     connection->handshake(*handshake_journal, handshake_content_check);
    return;''')],
 needs='a reconnection to a server whose content was replaced by a longer one',
 breaks='a replica that has diverged goes on pulling: it mixes two histories',
 demo=CON + '''
static void fill(joedb::Writable_Journal_Client &c, const std::string &what, int n)
{
 c.transaction([&](joedb::Writable_Journal &j) {for (int i = 0; i < n; i++) j.comment(what + std::to_string(i));});
}
int main()
{
 joedb::Logger quiet;
 joedb::Local_Connector connector("s.sock");
 std::optional<joedb::Robust_Connection> connection;
 joedb::Memory_File f;
 std::optional<joedb::Writable_Journal_Client> c;
 {
  joedb::Memory_File sf;
  joedb::Writable_Journal_Client s(sf);
  fill(s, "first", 10);
  joedb::Server server(quiet, 0, 1, "s.sock", s, std::chrono::milliseconds(0));
  connection.emplace(connector, quiet);
  c.emplace(f, *connection);
  c->pull();
  server.stop();
 }
 const std::string before = f.get_data();
 unlink("s.sock");
 {
  joedb::Memory_File sf;
  joedb::Writable_Journal_Client s(sf);
  fill(s, "other", 50);
  joedb::Server server(quiet, 0, 1, "s.sock", s, std::chrono::milliseconds(0));
  try {c->pull();} catch (const std::exception &) {}
  server.stop();
 }
 CHECK(f.get_data().substr(41) == before.substr(41));
 _exit(0);
}
'''),
dict(id='P17-half-upgrade', property='P17',
 edits=[('compiler/generator/Writable_Database_cpp.cpp', '''   schema_journal.raw_play_until(journal, detail::schema_string_size);
''', '''   schema_journal.raw_play_until(journal, detail::schema_string_size);
   journal.soft_checkpoint();
''')],
 needs='a program killed, or a custom function that fails, in the middle of an upgrade',
 breaks='the schema is upgraded but its custom function never runs: the upgrade is done by half',
 demo='''
#include "v1/writable.cpp"
#include "v2/writable.cpp"
static bool fail = true;
void v2::Writable_Database::set_age(Writable_Database &db)
{
 if (fail) throw joedb::Exception("not now");
 for (auto p: db.get_person_table()) db.set_age(p, 20);
}
int main()
{
 {
  joedb::File f("f.joedb", joedb::Open_Mode::create_new);
  v1::Writable_Database db(f);
  db.new_person("Joe");
  db.soft_checkpoint();
 }
 try {joedb::File f("f.joedb", joedb::Open_Mode::write_existing); v2::Writable_Database db(f); CHECK(!"failed");} catch (const joedb::Exception &) {}
 fail = false;
 joedb::File f("f.joedb", joedb::Open_Mode::write_existing);
 v2::Writable_Database db(f, joedb::Recovery::overwrite);
 for (auto p: db.get_person_table()) CHECK(db.get_age(p) == 20);
}
''', **SCHEMA),
dict(id='P17-refused-once', property='P17',
 edits=[('compiler/generator/Client_h.cpp', '''     if (db.schema_journal.get_checkpoint() > schema_checkpoint)
      Database::throw_exception("Can't upgrade schema during pull");
     db.check_single_row();''', '''     const int64_t checkpoint = db.schema_journal.get_checkpoint();
     if (checkpoint > schema_checkpoint)
     {
      schema_checkpoint = checkpoint;
      Database::throw_exception("Can't upgrade schema during pull");
     }
     db.check_single_row();''')],
 needs='a program with an older schema that goes on after the error it got when another program upgraded the file',
 breaks='the transactions of a program with an older schema are accepted after the upgrade',
 demo='''
#include "v1/writable.cpp"
#include "v2/writable.cpp"
#include "v1/Client.h"
#include "v2/Client.h"
void v2::Writable_Database::set_age(Writable_Database &db)
{
 for (auto p: db.get_person_table()) db.set_age(p, 20);
}
int main()
{
 joedb::File f("f.joedb", joedb::Open_Mode::shared_write), g("f.joedb", joedb::Open_Mode::shared_write);
 v1::Client a(f);
 a.transaction([](v1::Writable_Database &db) {db.new_person("Joe");});
 v2::Client b(g);
 for (int i = 0; i < 3; i++)
 {
  bool refused = false;
  try {a.transaction([](v1::Writable_Database &db) {db.new_person("Max");});} catch (const joedb::Exception &) {refused = true;}
  CHECK(refused);
 }
}
''',
 **SCHEMA),
]
