COMMON = '''
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/concurrency/Local_Connector.h"
#include "joedb/concurrency/protocol_version.h"
struct Origin
{
 joedb::Logger quiet;
 joedb::File writer_file;
 joedb::Writable_Journal_Client writer;
 joedb::File file;
 joedb::Readonly_Client client;
 joedb::Server server;
 Origin():
  writer_file("s.joedb", joedb::Open_Mode::shared_write), writer(writer_file),
  file("s.joedb", joedb::Open_Mode::read_existing), client(file),
  server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(0))
 {
 }
 void write(const char *s) {writer.transaction([&](joedb::Writable_Journal &j) {j.comment(s);});}
};
'''
BUGS = [
dict(id='P27-wait-stale', property='P27',
 edits=[('concurrency/Server.cpp', '  if (!get_server().client_lock)\n   get_server().client.pull(); // ??? takes_time\n\n  if\n  (\n   wait.count() > 0 &&\n   pull_checkpoint == get_server().client.get_journal_checkpoint()\n  )\n  {\n', '  if (!get_server().client_lock && wait.count() == 0)\n   get_server().client.pull(); // ??? takes_time\n\n  if\n  (\n   wait.count() > 0 &&\n   pull_checkpoint == get_server().client.get_journal_checkpoint()\n  )\n  {\n')],
 needs='a pull that waits, from a server whose file is written by another program',
 breaks='the pull returns nothing although data was committed before it started',
 demo=COMMON + '''
int main()
{
 {
  Origin o;
  joedb::Local_Channel channel("s.sock");
  joedb::Server_Connection connection(channel, o.quiet, std::chrono::milliseconds(0));
  Rec_File f;
  joedb::Writable_Journal_Client c(f, connection);
  o.write("one");
  c.pull();
  CHECK(c.get_journal_checkpoint() == o.writer.get_journal_checkpoint());
  o.write("two");
  c.pull(std::chrono::milliseconds(100));
  CHECK(c.get_journal_checkpoint() == o.writer.get_journal_checkpoint());
 fflush(0);
 _exit(0);
 }
}
'''),
dict(id='P27-refused-data', property='P27',
 edits=[('concurrency/Server.cpp', '  while (remaining_size > 0)\n  {\n   refresh_lock_timeout();\n', '  while (remaining_size > 0 && push_status != \'R\')\n  {\n   refresh_lock_timeout();\n')],
 needs='a push of data to a pull-only server, followed by another request in the same connection',
 breaks='the data of the refused push is taken for requests',
 demo=COMMON + '''
int main()
{
 {
  Origin o;
  struct Raw: public joedb::Local_Channel {using Local_Channel::Local_Channel; using Local_Channel::read_some; using Local_Channel::write_some;} c("s.sock");
  auto i64 = [](int64_t x) {return std::string((const char *)&x, 8);};
  auto put = [&](std::string s) {size_t n = 0; while (n < s.size()) n += c.write_some(s.data() + n, s.size() - n);};
  auto get = [&](size_t n) {std::string s(n, 0); size_t k = 0; while (k < n) k += c.read_some(s.data() + k, n - k); return s;};
  put("joedb" + i64(joedb::protocol_version));
  CHECK(get(30)[29] == 'R');
  put("N" + i64(41) + i64(51) + "0123456789");
  CHECK(get(1) == "R");
  put("D" + i64(0) + i64(41));
  bool ok = false;
  try {ok = get(9)[0] == 'D';} catch (...) {}
  CHECK(ok);
 fflush(0);
 _exit(0);
 }
}
'''),
dict(id='P27-robust-mode', property='P27',
 edits=[('concurrency/Robust_Connection.h', '{return connection->is_pullonly();}', '{return Connection::is_pullonly();}')],
 needs='a robust connection to a pull-only server',
 breaks='the client is not told that the server is pull-only, and a server with such a connection offers to write',
 demo=COMMON + '''
int main()
{
 {
  Origin o;
  joedb::Local_Connector connector("s.sock");
  joedb::Robust_Connection connection(connector, o.quiet);
  joedb::File rf("r.joedb", joedb::Open_Mode::shared_write);
  joedb::Writable_Journal_Client relay_client(rf, connection);
  joedb::Server relay(o.quiet, 0, 1, "r.sock", relay_client, std::chrono::milliseconds(0));
  joedb::Local_Channel channel("r.sock");
  joedb::Server_Connection down(channel, o.quiet, std::chrono::milliseconds(0));
  Rec_File f;
  joedb::Writable_Journal_Client c(f, down);
  CHECK(c.is_pullonly());
 fflush(0);
 _exit(0);
 }
}
'''),
]
