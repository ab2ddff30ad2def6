SRV = '''
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Connection.h"
'''
BUGS = [
dict(id='P01-datasync', property='P01',
 edits=[('journal/Writable_Journal.cpp', '  file.datasync();\n }', ' }')],
 needs='power failure after a hard checkpoint is acknowledged and before anything else syncs the file, losing the second copy of the checkpoint',
 breaks='an acknowledged hard checkpoint is lost: the file goes back to the previous one',
 demo='''
int main()
{
 Rec_File f;
 joedb::Writable_Journal j(f);
 j.hard_checkpoint();
 j.comment("one"); j.hard_checkpoint();
 j.comment("two"); j.hard_checkpoint();
 CHECK(read_comments(f.power(f.ops.size(), [](size_t) {return false;})).size() == 2);
 j.comment("three"); j.soft_checkpoint();
 String_File s(f.power(f.ops.size(), [](size_t) {return false;}));
 joedb::Readonly_Journal r{joedb::Journal_Construction_Lock(s)};
 Comments c;
 r.play_until(c, r.get_hard_checkpoint());
 CHECK(c.v.size() >= 2);
}
'''),
dict(id='P02-flush-late', property='P02',
 edits=[('journal/Writable_Journal.cpp', '''   return;

  file_buffer.flush();

  JOEDB_DEBUG_ASSERT(file.get_size() < 0 || position <= file.get_size());

  soft_index ^= 1;''', '''   return;

  soft_index ^= 1;'''), ('journal/Writable_Journal.cpp', '''   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
  );
 }''', '''   int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + soft_index)
  );

  file_buffer.flush();
 }''')],
 needs='the writer is killed between the write of the checkpoint and the write of the buffered data',
 breaks='the checkpoint covers data that was never written: the file cannot be read any more, or loses its last committed transactions',
 demo='''
int main()
{
 Rec_File f;
 joedb::Writable_Journal j(f);
 j.soft_checkpoint();
 std::vector<std::string> done;
 for (int i = 0; i < 4; i++)
 {
  const size_t before = f.ops.size();
  j.comment("comment " + std::to_string(i));
  j.soft_checkpoint();
  for (size_t n = before; n <= f.ops.size() && n > 1; n++)
  {
   std::vector<std::string> v;
   try {v = read_comments(f.prefix(n));}
   catch (const std::exception &e) {fprintf(stderr, "%s\\n", e.what()); CHECK(!"unreadable");}
   CHECK(v.size() == size_t(i) || v.size() == size_t(i) + 1);
   for (size_t k = 0; k < v.size(); k++) CHECK(v[k] == "comment " + std::to_string(k));
  }
 }
}
'''),
dict(id='P04-pull-before-lock', property='P04',
 edits=[('journal/Writable_Journal.cpp', '''   file.exclusive_lock_tail();
   pull_without_locking();''', '''   pull_without_locking();
   file.exclusive_lock_tail();''')],
 needs='a writer waits for the lock while another one commits',
 breaks='the waiting writer starts from an old checkpoint and overwrites what was committed in between',
 demo='''
int main()
{
 {joedb::File f("t.joedb", joedb::Open_Mode::create_new); joedb::Writable_Journal j(f); j.soft_checkpoint();}
 joedb::File fa("t.joedb", joedb::Open_Mode::shared_write), fb("t.joedb", joedb::Open_Mode::shared_write);
 joedb::Writable_Journal a(fa), b(fb);
 std::thread t;
 {
  joedb::Tail_Exclusive_Lock lock(a);
  t = std::thread([&]()
  {
   joedb::Tail_Exclusive_Lock lock_b(b);
   Comments c;
   b.play_until_checkpoint(c);
   b.comment("from b"); b.soft_checkpoint();
  });
  sleep_ms(500);
  a.comment("from a, which is a longer text"); a.soft_checkpoint();
 }
 t.join();
 joedb::File f("t.joedb", joedb::Open_Mode::read_existing);
 joedb::Readonly_Journal r{joedb::Journal_Construction_Lock(f)};
 Comments c;
 r.replay_log(c);
 CHECK(c.v.size() == 2 && c.v[0] == "from a, which is a longer text" && c.v[1] == "from b");
}
'''),
dict(id='P08-early-conflict-check', property='P08',
 edits=[('concurrency/Server.cpp', '''  const int64_t until = buffer.read<int64_t>();

  if (get_server().locked && !locking)''', '''  const int64_t until = buffer.read<int64_t>();

  const bool outdated = from != get_server().client.get_journal().get_checkpoint();

  if (get_server().locked && !locking)'''), ('concurrency/Server.cpp', '''   !locking ||
   from != get_server().client.get_journal().get_checkpoint()
''', '''   !locking ||
   outdated
''')],
 needs='a push without lock to a server that shares its file with another process, which commits between the last pull of the server and the push',
 breaks='the pushed data is appended after data that the client has never seen: the server file is not a history of the transactions any more',
 demo=SRV + '''
int main()
{
 {joedb::File f("s.joedb", joedb::Open_Mode::create_new); joedb::Writable_Journal j(f); j.comment("0"); j.soft_checkpoint();}
 joedb::File sf("s.joedb", joedb::Open_Mode::shared_write);
 joedb::Writable_Journal_Client client(sf);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(0));
 Raw r("s.sock");
 const int64_t c = r.handshake();
 {joedb::File f("s.joedb", joedb::Open_Mode::shared_write); joedb::Writable_Journal j(f); joedb::Tail_Exclusive_Lock lock(j); Comments x; j.play_until_checkpoint(x); j.comment("local"); j.soft_checkpoint();}
 std::string data;
 {Rec_File m; joedb::Writable_Journal j(m); j.soft_checkpoint(); j.comment("remote"); j.soft_checkpoint(); data = m.data.substr(41);}
 r.send("O" + Raw::i64(c) + Raw::i64(c + int64_t(data.size())) + data);
 const std::string reply = r.recv(1);
 CHECK(reply == "C");
 server.stop();
 joedb::File f("s.joedb", joedb::Open_Mode::read_existing);
 joedb::Readonly_Journal j{joedb::Journal_Construction_Lock(f)};
 Comments x;
 j.replay_log(x);
 CHECK(x.v.size() == 2);
}
'''),
dict(id='P09-expired-push', property='P09',
 edits=[('concurrency/Server.cpp', '''      if (push_writer)
      {
       push_writer.reset();
       push_status = 't';
      }

''', '''      if (push_writer)
       push_status = 't';

''')],
 needs='the lock expires in the middle of a push, another client commits, then the first push goes on',
 breaks='a client whose lock has expired overwrites what another client committed in between',
 demo=SRV + '''
static std::string comment(const std::string &s) {Rec_File m; joedb::Writable_Journal j(m); j.soft_checkpoint(); j.comment(s); j.soft_checkpoint(); return m.data.substr(41);}
int main()
{
 joedb::File sf("s.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal_Client client(sf);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(300));
 Raw a("s.sock"), b("s.sock");
 const int64_t c = a.handshake();
 b.handshake();
 const std::string da = comment(std::string(100, 'a')), db = comment(std::string(50, 'b'));
 a.send("O" + Raw::i64(c) + Raw::i64(c + int64_t(da.size())));
 sleep_ms(1500);
 b.send("O" + Raw::i64(c) + Raw::i64(c + int64_t(db.size())) + db);
 CHECK(b.recv(1) == "O");
 a.send(da);
 a.recv(1);
 server.stop();
 CHECK(read_comments([]() {std::string s(100000, 0); joedb::File f("s.joedb", joedb::Open_Mode::shared_write); s.resize(f.pread(s.data(), s.size(), 0)); return s;}()) == std::vector<std::string>{std::string(50, 'b')});
}
'''),
dict(id='P15-long-error', property='P15',
 edits=[('rpc/Server.h', 'std::min(message.size(), buffer.size - 9);', 'std::min(message.size(), buffer.size);')],
 needs='a procedure that throws an exception with a text longer than the buffer of the session',
 breaks='the error message overflows the buffer: the reply is corrupted, the connection of the caller is unusable',
 demo='''
#include "joedb/rpc/Server.h"
#include "joedb/rpc/Client.h"
#include "joedb/concurrency/Local_Connector.h"
struct P: joedb::rpc::Procedure {void execute(joedb::Abstract_File &f) const override {if (f.get_size() > 60) throw joedb::Exception(std::string(9000, 'x')); f.pwrite("reply", 5, f.get_size());}};
int main()
{
 joedb::Logger quiet;
 P p;
 std::vector<joedb::rpc::Signature> signatures{{"p", std::string(50, 'p')}};
 std::vector<joedb::rpc::Procedure *> procedures{&p};
 joedb::rpc::Server server(quiet, 0, 1, "r.sock", signatures, procedures);
 try
 {
  joedb::Local_Connector connector("r.sock");
  auto channel = connector.new_channel();
  joedb::rpc::Client client(*channel, signatures);
  alarm(30);
  for (int i = 0; i < 3; i++)
  {
   {
    joedb::Memory_File f;
    f.get_data() = std::string(50, 'p') + "abc";
    client.call(0, f);
    CHECK(f.get_data().substr(50) == "abcreply");
   }
   {
    joedb::Memory_File f;
    f.get_data() = std::string(50, 'p') + std::string(30, 'e');
    bool thrown = false;
    try {client.call(0, f);} catch (const std::exception &e) {thrown = true; const std::string s(e.what()); CHECK(s.size() > 8000 && s == std::string(s.size(), 'x'));}
    CHECK(thrown);
   }
  }
 }
 catch (const std::exception &e) {fprintf(stderr, "%s\\n", e.what()); CHECK(!"exception");}
 server.stop();
}
'''),
dict(id='P16-backward-read', property='P16',
 edits=[('concurrency/Server.cpp', '''  if (from > until)
   from = until;

''', '')],
 needs='a read request whose range starts after the end of the data',
 breaks='the server crashes or sends garbage for ever when a client reads beyond the end',
 demo=SRV + '''
int main()
{
 joedb::File sf("s.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal_Client client(sf);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(0));
 Raw r("s.sock");
 const int64_t c = r.handshake();
 r.send("r" + Raw::i64(c + 1000) + Raw::i64(c + 2000));
 const std::string s = r.recv(9);
 CHECK(s == "r" + Raw::i64(c));
 r.send("Q");
 CHECK(r.recv(1) == "");
 server.stop();
}
'''),
dict(id='P20-uncheckpointed', property='P20',
 edits=[('journal/Writable_Journal.cpp', '''  if (journal.get_position() > journal.get_checkpoint())
   throw''', '''  if (journal.is_shared() && journal.get_position() > journal.get_checkpoint())
   throw''')],
 needs='a transaction that aborts in a client that does not share its file, followed by another transaction',
 breaks='the data of the aborted transaction is committed with the next transaction',
 demo='''
#include "joedb/concurrency/Writable_Journal_Client.h"
int main()
{
 Rec_File f;
 {
  joedb::Writable_Journal_Client client(f);
  client.transaction([](joedb::Writable_Journal &j) {j.comment("one");});
  try {client.transaction([](joedb::Writable_Journal &j) {j.comment("aborted"); throw joedb::Exception("abort");});} catch (...) {}
  try {client.transaction([](joedb::Writable_Journal &j) {j.comment("two");});} catch (...) {}
 }
 const auto v = read_comments(f.data);
 for (const auto &s: v) CHECK(s != "aborted");
}
'''),
]
