FAKE = '''
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/rpc/Client.h"
// a server that answers what it is told to
struct Fake: public joedb::Channel
{
 std::string replies;
 size_t at = 0;
 size_t write_some(const char *, size_t size) override {return size;}
 size_t read_some(char *data, size_t size) override
 {
  if (at >= replies.size()) throw joedb::Exception("closed");
  const size_t n = std::min(size, replies.size() - at);
  memcpy(data, replies.data() + at, n);
  at += n;
  return n;
 }
 void i64(int64_t x) {replies.append((const char *)&x, 8);}
 void hello(int64_t checkpoint) {replies += "joedb"; i64(joedb::protocol_version); i64(1); i64(checkpoint); replies += 'W';}
};
'''
BUGS = [
dict(id='P26-pread-size', property='P26',
 edits=[('concurrency/Server_Connection.cpp', 'if (until < offset || until > offset + int64_t(size))', 'if (until < offset || until > std::max(server_checkpoint, offset + int64_t(size)))')],
 needs='an answer to a remote read that is longer than what was asked, and ends before the checkpoint of the server',
 breaks='the end of the answer is written beyond the buffer of the caller',
 demo=FAKE + '''
int main()
{
 Fake f;
 f.hello(10000);
 f.replies += 'r';
 f.i64(400);
 f.replies += std::string(400, 'x');
 joedb::Server_Connection c(f);
 std::vector<char> v(400, 'a');
 bool reported = false;
 try {c.pread(v.data(), 100, 100);} catch (const joedb::Exception &) {reported = true;}
 for (size_t i = 100; i < v.size(); i++) CHECK(v[i] == 'a');
 CHECK(reported);
}
'''),
dict(id='P26-any-pull', property='P26',
 edits=[('concurrency/Server_Connection.cpp', 'else if (reply != pull_type)', "else if (reply < 'D' || reply > 'G')")],
 needs='a pull that gets the answer to another kind of pull',
 breaks='the client believes that it has the lock, or waits for data that does not come',
 demo=FAKE + '''
int main()
{
 Fake f;
 f.hello(41);
 f.replies += 'F'; // no lock
 f.i64(41);
 f.replies += 'M';
 joedb::Server_Connection c(f);
 joedb::Memory_File m;
 joedb::Writable_Journal_Client j(m, c, joedb::Content_Check::none);
 bool locked = false;
 try {j.transaction([&](joedb::Writable_Journal &) {locked = true; throw joedb::Exception("stop");});} catch (const joedb::Exception &) {}
 CHECK(!locked);
}
'''),
dict(id='P26-rpc-reply', property='P26',
 edits=[('rpc/Client.h', "    if (reply == 'C')\n", "    if (reply != 'c')\n")],
 needs='a reply to a call that is neither that of a success nor that of an error',
 breaks='the call returns normally although the server did not say that it was executed',
 demo=FAKE + '''
int main()
{
 const std::vector<joedb::rpc::Signature> signatures{{"a", std::string(41, 'a')}};
 Fake f;
 f.replies += 'H';
 f.i64(1);
 f.replies += 'P';
 f.i64(50);
 f.replies += std::string(100, 'z');
 joedb::rpc::Client client(f, signatures);
 joedb::Memory_File m;
 m.get_data() = std::string(45, 'a');
 bool reported = false;
 try {client.call(0, m);} catch (const std::exception &) {reported = true;}
 CHECK(reported);
}
'''),
dict(id='P26-unknown-mode', property='P26',
 edits=[('concurrency/Server_Client.cpp', """  else if (mode == 'W')
   pullonly_server = false;
  else
   throw Exception("Unexpected server mode");
""", """  else
   pullonly_server = false;
""")],
 needs='a greeting whose last byte is unknown',
 breaks='a client goes on with a server that it does not understand',
 demo=FAKE + '''
int main()
{
 Fake f;
 f.hello(41);
 f.replies.back() = 'X';
 bool reported = false;
 try {joedb::Server_Connection c(f);} catch (const joedb::Exception &) {reported = true;}
 CHECK(reported);
}
'''),
]
