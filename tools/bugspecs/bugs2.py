exec(open('/verif/tools/bugspecs/bugs1.py').read().split('BUGS')[0])
BUGS = [
dict(id='P20-check-after-lock', property='P20',
 edits=[('journal/Writable_Journal.cpp', '''  if (journal.get_position() > journal.get_checkpoint())
   throw Exception("locking journal with uncheckpointed data (try rollback?)");
  journal.lock_pull();
''', '''  journal.lock_pull();
  if (journal.get_position() > journal.get_checkpoint())
  {
   journal.unlock();
   throw Exception("locking journal with uncheckpointed data (try rollback?)");
  }
''')],
 needs='a client of a shared file aborts a transaction, another process commits more bytes than the aborted transaction had written, then the first client tries again',
 breaks='the client with the aborted transaction is not refused: it goes on in the middle of the data of the other process',
 demo='''
#include "joedb/concurrency/Writable_Journal_Client.h"
int main()
{
 {joedb::File f("t.joedb", joedb::Open_Mode::create_new); joedb::Writable_Journal j(f); j.soft_checkpoint();}
 joedb::File fa("t.joedb", joedb::Open_Mode::shared_write), fb("t.joedb", joedb::Open_Mode::shared_write);
 joedb::Writable_Journal a(fa), b(fb);
 {
  joedb::Tail_Exclusive_Lock lock(a);
  a.comment("aborted");
 }
 {
  joedb::Tail_Exclusive_Lock lock(b);
  b.comment("a committed comment that is longer than what was aborted"); b.soft_checkpoint();
 }
 bool refused = false;
 try {joedb::Tail_Exclusive_Lock lock(a);} catch (const joedb::Exception &) {refused = true;}
 CHECK(refused);
 { // the lock is free
  joedb::Tail_Exclusive_Lock lock(b);
  b.comment("end"); b.soft_checkpoint();
 }
}
'''),
dict(id='P16-procedure-id', property='P16',
 edits=[('rpc/Server.h', 'if (id >= get_server().procedures.size())', 'if (id > get_server().procedures.size())')],
 needs='a client that calls the procedure whose number is one past the last',
 breaks='the server uses a procedure that does not exist and crashes',
 demo='''
#include "joedb/rpc/Server.h"
#include "joedb/rpc/get_hash.h"
struct P: joedb::rpc::Procedure {void execute(joedb::Abstract_File &f) const override {f.pwrite("reply", 5, f.get_size());}};
int main()
{
 joedb::Logger quiet;
 P p;
 std::vector<joedb::rpc::Signature> signatures{{"p", std::string(50, 'p')}};
 std::vector<joedb::rpc::Procedure *> procedures{&p};
 joedb::rpc::Server server(quiet, 0, 1, "r.sock", signatures, procedures);
 const auto h = joedb::rpc::get_hash(signatures);
 for (int64_t id: {1, 2, -1, 0})
 {
  Raw r("r.sock");
  r.send(std::string((const char *)h.data(), 32));
  CHECK(r.recv(9).size() == 9);
  r.send("C" + Raw::i64(id) + Raw::i64(53) + "abc");
  CHECK(r.recv(14).size() == (id == 0 ? 14 : 0));
 }
 server.stop();
}
'''),
dict(id='P16-hash-beyond', property='P16',
 edits=[('concurrency/Server.cpp', '''   checkpoint > journal.get_checkpoint() ||
''', '')],
 needs='a hash request for a checkpoint that is after the end of the data of the server',
 breaks='the server never answers, or accepts a replica that it does not have',
 demo=SRV + '''
#include "joedb/journal/File_Hasher.h"
int main()
{
 joedb::File sf("s.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal_Client client(sf);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(0));
 for (const char *code: {"H", "I"})
 for (int64_t n: {int64_t(5000), int64_t(1) << 61})
 {
  Raw r("s.sock");
  const int64_t c = r.handshake();
  r.send(code + Raw::i64(c + n) + std::string(32, 'h'));
  CHECK(r.recv(1) == "h");
 }
 server.stop();
}
'''),
dict(id='P09-value-transaction', property='P09',
 edits=[('concurrency/Writable_Client.h', '''       return inner_result;
      }
      catch (...)
      {
       connection.unlock();
       throw;''', '''       return inner_result;
      }
      catch (...)
      {
       throw;''')],
 needs='a transaction that returns a value and throws, in a client of joedb_server that stays connected, while another client wants the lock',
 breaks='the lock of the server is never released: the other clients wait for ever',
 demo=SRV + '''
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Local_Channel.h"
int main()
{
 joedb::File sf("s.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal_Client client(sf);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(0));
 {
  joedb::Local_Channel ca("s.sock"), cb("s.sock");
  joedb::Server_Connection a(ca, quiet, std::chrono::milliseconds(0)), b(cb, quiet, std::chrono::milliseconds(0));
  Rec_File fa, fb;
  joedb::Writable_Journal_Client x(fa, a), y(fb, b);
  try {x.transaction([](joedb::Writable_Journal &j) -> int {j.comment("x"); throw joedb::Exception("x");});} catch (const joedb::Exception &) {}
  std::thread guard([]() {sleep_ms(5000); CHECK(!"the lock was not released");});
  guard.detach();
  const int n = y.transaction([](joedb::Writable_Journal &j) {j.comment("y"); return 7;});
  CHECK(n == 7);
 }
 server.stop();
 fflush(0);
 _exit(0);
}
'''),
]
