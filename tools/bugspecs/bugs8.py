CLOCK = '''
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/protocol_version.h"
#include <time.h>
#include <sys/syscall.h>
#include <atomic>
#include <mutex>
// the wall clock of this program can be set
static std::atomic<long> wall_offset{0};
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
 const int r = int(syscall(SYS_clock_gettime, c, t));
 if (c == CLOCK_REALTIME) t->tv_sec += wall_offset;
 return r;
}
extern "C" int gettimeofday(struct timeval *v, void *) noexcept
{
 struct timespec t;
 clock_gettime(CLOCK_REALTIME, &t);
 v->tv_sec = t.tv_sec;
 v->tv_usec = t.tv_nsec / 1000;
 return 0;
}
'''
FAKE = CLOCK + '''
// a server that greets, and answers everything
struct Fake: public joedb::Channel
{
 std::atomic<int> *pings;
 std::string replies;
 size_t at = 0;
 Fake(std::atomic<int> *pings): pings(pings)
 {
  replies += "joedb"; i64(joedb::protocol_version); i64(1); i64(41); replies += 'W';
 }
 size_t write_some(const char *data, size_t size) override
 {
  if (data[0] == 'D') {++*pings; replies += 'D'; i64(41);}
  return size;
 }
 size_t read_some(char *data, size_t size) override
 {
  if (at >= replies.size()) throw joedb::Exception("closed");
  const size_t n = std::min(size, replies.size() - at);
  memcpy(data, replies.data() + at, n);
  at += n;
  return n;
 }
 void i64(int64_t x) {replies.append((const char *)&x, 8);}
};
'''
BUGS = [
dict(id='P10-wall-clock', property='P10',
 edits=[('concurrency/Robust_Connection.h', 'using clock = std::chrono::steady_clock;', 'using clock = std::chrono::system_clock;')],
 needs='the wall clock is set back between two reconnections',
 breaks='the client does not try to reconnect before the clock shows again the time of the previous connection',
 demo=FAKE + '''
struct Failing: public joedb::Connector
{
 mutable std::atomic<int> count{0}, pings{0};
 std::unique_ptr<joedb::Channel> new_channel() const override
 {
  if (++count == 1) {wall_offset = -3600; throw joedb::Exception("no server");}
  return std::make_unique<Fake>(&pings);
 }
};
int main()
{
 std::thread guard([]() {sleep_ms(30000); CHECK(!"no reconnection");});
 guard.detach();
 Failing f;
 joedb::Robust_Connection c(f, joedb::Logger::dummy_logger);
 CHECK(f.count == 2);
 fflush(0);
 _exit(0);
}
'''),
dict(id='P12-wall-ping', property='P12',
 edits=[('concurrency/Keep_Alive_Thread.h', 'condition.wait_for(lock, interval);', 'condition.wait_until(lock, std::chrono::system_clock::now() + interval);')],
 needs='the wall clock is set back while the keep-alive thread waits',
 breaks='no keep-alive message is sent before the clock shows again the time of the previous one',
 demo=FAKE + '''
int main()
{
 std::atomic<int> pings{0};
 Fake f(&pings);
 {
  joedb::Server_Connection c(f, joedb::Logger::dummy_logger, std::chrono::milliseconds(50));
  for (int i = 0; i < 100 && pings == 0; i++) sleep_ms(50);
  CHECK(pings > 0);
  // the kernel is not aware of our clock: move it at a moment when the thread computes its next time
  wall_offset = 3600;
  sleep_ms(300);
  const int before = pings;
  sleep_ms(2000);
  CHECK(pings > before);
 }
 fflush(0);
 _exit(0);
}
'''),
dict(id='P09-wall-timer', property='P09',
 edits=[('concurrency/Server.h', '     boost::asio::steady_timer lock_timeout_timer;', '     boost::asio::system_timer lock_timeout_timer;'),
  ('concurrency/Server.h', '#include <deque>\n', '#include <boost/asio/system_timer.hpp>\n\n#include <deque>\n')],
 needs='the wall clock of the server is set while a client holds the lock',
 breaks='a lock expires much earlier or much later than it should',
 demo=CLOCK + '''
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Local_Channel.h"
int main()
{
 joedb::File sf("s.joedb", joedb::Open_Mode::create_new);
 joedb::Writable_Journal_Client client(sf);
 joedb::Logger quiet;
 joedb::Server server(quiet, 0, 1, "s.sock", client, std::chrono::milliseconds(2000));
 joedb::Local_Channel ca("s.sock"), cb("s.sock");
 joedb::Server_Connection a(ca, quiet, std::chrono::milliseconds(0)), b(cb, quiet, std::chrono::milliseconds(0));
 Rec_File fa, fb;
 joedb::Writable_Journal_Client x(fa, a), y(fb, b);
 std::thread guard([]() {sleep_ms(9000); CHECK(!"the lock did not expire");});
 guard.detach();
 std::atomic<bool> locked{false};
 std::thread t([&]() {try {x.transaction([&](joedb::Writable_Journal &j) {locked = true; sleep_ms(15000);});} catch (...) {}});
 t.detach();
 while (!locked) sleep_ms(1);
 wall_offset = -3600;
 y.transaction([](joedb::Writable_Journal &j) {j.comment("y");});
 fflush(0);
 _exit(0);
}
'''),
]
