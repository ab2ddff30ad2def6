// joedb_server and its clients: several machines, one server file, network
// faults, process kills, server restarts, lock time-outs, keep-alive pings.
#pragma once

#include "scenarios/txn.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Local_Connector.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"

#include <signal.h>

namespace h
{
 struct Net_Knobs
 {
  int min_clients = 1, max_clients = 3;
  int max_ops = 6;
  double db = 0.4;
  double shared = 0.4;         // server opens the file in shared mode
  double local_writer = 0;     // another process writes to the server file directly
  double hard = 0.2;
  double lock_timeout = 0;     // probability that the server has a lock time-out
  double hold = 0;             // probability that a client holds the lock for long
  double reset = 0;            // connection-loss rate (per socket call)
  double stall = 0;
  double robust = 0.3;
  double server_file = 0;
  double keep_alive = 0.2;
  double abort = 0.1;
  double kill_client = 0;
  double kill_server = 0;      // kill -9, then restart
  double stop_server = 0;      // SIGTERM, then restart
  double power = 0;            // power failure of the server machine, then restart
  double pull = 0.25;          // probability of a pull
  double wait_pull = 0;        // probability that a pull waits for data
  double long_sleep = 0;        // probability of long idle periods
  int max_keep_alive = 30;
  double persistent = 0.4;     // replica is a file that survives the client
  int server_lives = 1;
  double big = 0.1;
  double preads = 0;           // probability of random reads from the connection
  double pull_push = 0;
  double valid_data = 0;       // clients that write valid_data at each checkpoint
  double read_own = 0;         // transactions read the file back before they commit
  double offline = 0;          // transactions on the local file without connection, pushed later
  double shared_replica = 0;   // clients that share their local file
  double alloc = 0;            // failing allocations of clients
  double short_io = 0;         // short reads and writes of files
  int64_t faults_for = 0;      // connection faults stop at a random time before this
 };

 struct Net
 {
  Net_Knobs k;
  const std::string path = "/sim/0/s.joedb", sock = "/sim/0/s.sock";
  Txn_Log log;
  std::string committed;
  int op = 0;
  bool db_mode = false;
  bool shared = false;
  bool hard = false;
  std::chrono::milliseconds lock_timeout{0};
  bool server_up = false;
  int server_generation = 0;
  sim::Node *server_node = nullptr;
  bool stopping = false;
  bool disturbed = false;      // connections may be lost in this run

  // lock holder as seen by the clients (network lock only)
  std::string holder;
  int64_t holder_request = 0;  // when the holder asked for the lock
  uint64_t holder_session = 0;

  struct Style {bool robust, server_file, db, persistent; int keep_alive_ms; joedb::Content_Check check; bool valid_data = false, shared_replica = false; std::string socket;};
  struct Activity {std::string who; int64_t begin, end;};
  std::vector<Activity> activity; // operations of all clients
  virtual void idle(const std::string &, const Style &, bool) {} // the client does nothing (begin/end)
  virtual bool allowed_error(const Style &, const std::string &, bool) {return true;} // when there are faults
  virtual bool allowed_connect_error(const Style &, const std::string &) {return true;}
  virtual void failed(const std::string &, const Style &, const std::string &, size_t) {}
  virtual void clients_done() {}
  virtual void session_closed(const std::string &, const Style &, int64_t) {}

  struct Commit {int64_t before, after; int64_t checkpoint; std::string who;};
  std::vector<Commit> commits; // simulated time interval of each acknowledged push

  virtual void committed_to(int64_t checkpoint)
  {
   sim::Atomic a;
   if (checkpoint > int64_t(committed.size()))
   {
    const std::string c = sim::vfs_content(path);
    if (int64_t(c.size()) >= checkpoint) committed = c.substr(0, size_t(checkpoint));
   }
  }

  void check_immutable()
  {
   if (committed.size() <= 41 || !sim::vfs_exists(path) || sim::vfs_begins(path, committed, 41)) return;
   const std::string c = sim::vfs_content(path);
   SIM_CHECK(c.size() >= committed.size(), "committed-modified", "the server file is now shorter (%zu) than what was acknowledged (%zu)", c.size(), committed.size());
   if (memcmp(c.data() + 41, committed.data() + 41, committed.size() - 41))
   {
    size_t i = 41;
    while (c[i] == committed[i]) i++;
    sim::fail("committed-modified", "byte %zu of the server file was changed below the acknowledged checkpoint %zu", i, committed.size());
   }
  }

  // -------------------------------------------------------------- server --
  virtual void server_process()
  {
   Logger_ logger("server");
   joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
   joedb::Writable_Journal_Client client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
   client.set_hard_checkpoint(hard);
   joedb::Server server(logger, sim::verbose ? 3 : 0, 1, sock, client, lock_timeout);
   {
    sim::Atomic a;
    server_up = true;
    server_generation++;
   }
   server.join();
   sim::Atomic a;
   server_up = false;
   if (server_node == sim::self_node()) SIM_CHECK(stopping, "server-stopped", "the server stopped without being asked to");
  }

  // asio keeps signal registrations in a global variable: what a killed process
  // left there must not leak into the next one.
  // asio's signal state is a global variable: one copy per simulated process
  static void separate_asio()
  {
   auto *s = boost::asio::detail::get_signal_state();
   char *const begin = reinterpret_cast<char *>(&s->read_descriptor_);
   sim::per_node(begin, size_t(reinterpret_cast<char *>(s + 1) - begin));
  }

  sim::Thread *start_server()
  {
   separate_asio();
   sim::vfs_remove(sock);
   server_node = sim::new_node("server" + std::to_string(server_generation), 0);
   stopping = false;
   benign(server_node, 0.003);
   server_node->rates[sim::K_SHORT_SEND] = short_rate;
   server_node->rates[sim::K_SHORT_RECV] = short_rate;
   server_node->rates[sim::K_SHORT_READ] = server_node->rates[sim::K_SHORT_WRITE] = k.short_io;
   server_node->rates[sim::K_CONN_RESET] = k.reset;
   server_node->rates[sim::K_CONN_STALL] = k.stall;
   server_node->rates[sim::K_ACCEPT_FAIL] = accept_fail;
   server_node->on_crash = [this]() {server_up = false;};
   return sim::spawn(server_node, server_node->name, [this]() {server_process();});
  }
  double short_rate = 0;

  virtual bool ready() {return server_up;}
  virtual std::string choose_socket(sim::Rng &) {return sock;}
  virtual void before_stop() {}
  bool await_server(int64_t timeout = 600 * SEC)
  {
   return sim::wait_until([this]() {return ready();}, timeout);
  }

  // -------------------------------------------------------------- client --
  struct Plan {int op; uint64_t seed; int n; int what; bool check; int64_t sleep; int64_t hold; int64_t wait; bool big; bool offline = false;};

  struct Replica // content of a client
  {
   std::string who, path;
   bool file = false;
  };

  template<typename D> size_t write(const std::string &who, D &writable, const joedb::Readable *db, const Plan &p, uint64_t seed, bool valid_data = false)
  {
   sim::Rng r(seed);
   Ops ops;
   {
    sim::Atomic a;
    ops = db ? db_ops(*db, r, p.n, std::to_string(seed)) : db_mode ? Ops{[seed](joedb::Writable &w) {w.comment("note " + std::to_string(seed)); w.write_blob("blob" + std::to_string(seed)); w.comment("end " + std::to_string(seed));}} : raw_ops(seed, p.n);
    if (p.big)
     ops.push_back([seed](joedb::Writable &w)
     {
      sim::Rng g(seed);
      std::string s(8000 + g.below(30000), 0);
      for (auto &c: s) c = char('A' + g.below(26));
      w.write_blob(s);
      w.comment("after blob " + std::to_string(seed));
     });
   }
   const size_t i = log.begin(who, ops, valid_data);
   for (auto &o: ops) o(writable);
   return i;
  }

  void granted(const std::string &who, int64_t request, sim::Node *server)
  {
   sim::Atomic a;
   if (!holder.empty() && holder != who && server == holder_server && !disturbed)
   {
    const int64_t timeout = lock_timeout.count() * MS;
    // the other way round: who was slow got it first, and lost it before knowing that it had it
    const bool late = request < holder_request + 100 * MS && sim::now() >= request + timeout;
    const bool expired = timeout > 0 && (sim::now() >= holder_request + timeout || late);
    SIM_CHECK(expired, "two-lock-holders", "%s got the lock while %s, who asked for it %ld us ago, was holding it", who.c_str(), holder.c_str(), (sim::now() - holder_request) / 1000);
    sim::probe("expired_locks");
   }
   // the lock must not stay with somebody who has released it
   if (holder.empty() && (!disturbed || only_memory) && k.shared_replica == 0) // a waiting pull locks the shared file
    SIM_CHECK(sim::now() - std::max(request, last_free) < (only_memory ? 150 : 15) * SEC, "lock-not-handed-over", "%s asked for the lock %ld ms ago and got it %ld ms after its last release", who.c_str(), (sim::now() - request) / MS, (sim::now() - last_free) / MS);
   holder = who;
   holder_request = request;
   holder_server = server;
   sim::probe("lock_grants");
  }
  sim::Node *holder_server = nullptr;
  int64_t last_free = 0;       // when the lock was last released
  void released(const std::string &who) {sim::Atomic a; last_free = sim::now(); if (holder == who) holder.clear();}

  virtual std::string explain(const Events &e, uint64_t before) {return log.explain(e, before);}
  virtual bool database_is_known() {return true;}

  void check_replica(const std::string &who, const joedb::Abstract_File &file, int64_t checkpoint, uint64_t before)
  {
   // a memory image of the replica, read by the real reader
   std::string s(size_t(checkpoint), 0);
   if (checkpoint < 41) return;
   size_t got = 0;
   while (got < s.size())
   {
    const size_t n = file.pread(s.data() + got, s.size() - got, int64_t(got));
    if (n == 0) break;
    got += n;
   }
   sim::Atomic a; // reading a server file goes through the network
   joedb::Memory_File m;
   SIM_CHECK(got == s.size(), "replica-short", "%s: replica has checkpoint %ld but %zu bytes", who.c_str(), checkpoint, got);
   m.get_data() = s;
   Recorder rec;
   joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(m, joedb::Recovery::ignore_header));
   j.rewind();
   try {j.raw_play_until(rec, checkpoint);}
   catch (const std::exception &x) {sim::fail("replica-wrong", "%s: replica at checkpoint %ld cannot be read: %s", who.c_str(), checkpoint, x.what());}
   const std::string x = explain(rec.e, before);
   SIM_CHECK(x.empty(), "replica-wrong", "%s: replica at checkpoint %ld: %s", who.c_str(), checkpoint, x.c_str());
   sim::probe("replica_checks");
  }

  void check_database(const std::string &who, const joedb::Readable &db, uint64_t before)
  {
   sim::Atomic a;
   if (!database_is_known()) return;
   for (auto &x: log.t) if (x.state == St::running || x.state == St::doubt) return;
   const Events got = dump_of(db), want = log.dump(log.t.size());
   // when locks expire or are lost with their connection, the data may be older than the last commit
   if (lock_timeout.count() > 0 || disturbed)
    for (size_t n = log.t.size(); n > 0 && (log.t[n - 1].state != St::acked || log.t[n - 1].ack > before); n--)
     if (got == log.dump(n - 1)) return;
   SIM_CHECK(got == want, "database-wrong", "%s: the database of the client differs from the committed history: %s", who.c_str(), diff_text(got, want).c_str());
   sim::probe("database_checks");
  }

  bool read_own(const Plan &q) const {return k.read_own > 0 && double((q.seed >> 5) % 100) < k.read_own * 100;}

  // read random ranges from the connection
  template<typename S> void random_preads(S &s, const std::string &who, const Plan &q)
  {
   sim::Rng r(q.seed);
   const int64_t known = s.c->get_connection_checkpoint();
   for (int n = 1 + int(r.below(6)); n > 0; n--)
   {
    const int64_t from = r.chance(0.1) ? known - 1 + int64_t(r.below(s.sf ? 50 : 2)) : r.chance(0.2) ? 41 : 41 + int64_t(r.below(uint64_t(known - 41 + 1)));
    const size_t size = size_t(r.chance(0.3) ? r.below(60000) : r.below(300));
    std::vector<char> v(size + 16, char(0x5c));
    const size_t got = s.sf ? s.sf->pread(v.data(), size, from) : s.robust ? s.robust->pread(v.data(), size, from) : s.plain->pread(v.data(), size, from);
    sim::Atomic a;
    SIM_CHECK(got <= size, "pread-count", "%s: reading %zu bytes returned %zu", who.c_str(), size, got);
    for (size_t i = size; i < v.size(); i++) SIM_CHECK(v[i] == 0x5c, "pread-overflow", "%s: reading %zu bytes wrote beyond the buffer", who.c_str(), size);
    SIM_CHECK(!s.sf || got == 0 || from + int64_t(got) <= s.sf->get_size(), "pread-beyond", "%s: reading %zu bytes at %ld returned %zu bytes, the file has %ld", who.c_str(), size, from, got, s.sf->get_size());
    SIM_CHECK(got > 0 || size == 0 || from >= known, "pread-nothing", "%s: nothing read at %ld, the checkpoint is %ld", who.c_str(), from, known);
    if (!has_power && from < known)
    {
     const std::string c = sim::vfs_content(path);
     const size_t n2 = std::min(got, size_t(known - from));
     for (size_t i = 0; i < n2; i++) SIM_CHECK(v[i] == c[size_t(from) + i], "pread-wrong", "%s: wrong byte at %ld (reading %zu bytes at %ld)", who.c_str(), from + int64_t(i), size, from);
    }
    sim::probe("remote_reads");
   }
  }

  struct Session // objects of one connected client
  {
   std::unique_ptr<joedb::Local_Connector> connector;
   std::unique_ptr<joedb::Channel> channel;
   std::unique_ptr<joedb::Server_Connection> plain;
   std::unique_ptr<joedb::Robust_Connection> robust;
   std::unique_ptr<joedb::Server_File> sf;
   std::unique_ptr<joedb::Abstract_File> local;
   std::unique_ptr<joedb::Writable_Journal_Client> jc;
   std::unique_ptr<joedb::Writable_Database_Client> dc;
   joedb::Connection *connection = nullptr;
   joedb::Abstract_File *file = nullptr;
   joedb::Writable_Client *c = nullptr;

   void reset()
   {
    jc.reset(); dc.reset(); sf.reset(); robust.reset(); plain.reset(); channel.reset(); local.reset(); connector.reset();
    connection = nullptr; file = nullptr; c = nullptr;
   }
   ~Session() {reset();}
  };

  void open(Session &s, const Style &y, const std::string &replica, joedb::Logger &logger)
  {
   s.reset();
   s.connector.reset(new joedb::Local_Connector(y.socket));
   s.connector->set_keep_alive_interval(std::chrono::milliseconds(y.keep_alive_ms));
   if (y.server_file)
   {
    s.sf.reset(new joedb::Server_File(*s.connector, logger));
    s.connection = s.sf.get();
    s.file = s.sf.get();
   }
   else
   {
    if (y.shared_replica) s.local.reset(new joedb::File(replica, joedb::Open_Mode::shared_write));
    else if (y.persistent) s.local.reset(new joedb::File(replica, joedb::Open_Mode::write_existing_or_create_new));
    else s.local.reset(new joedb::Memory_File);
    s.file = s.local.get();
    if (y.robust)
    {
     s.robust.reset(new joedb::Robust_Connection(*s.connector, logger));
     s.connection = s.robust.get();
    }
    else
    {
     s.channel = s.connector->new_channel();
     s.plain.reset(new joedb::Server_Connection(*s.channel, logger, s.connector->get_keep_alive_interval()));
     s.connection = s.plain.get();
    }
   }
   const joedb::Recovery recovery = y.persistent && !y.server_file ? joedb::Recovery::overwrite : joedb::Recovery::none;
   if (y.db) {s.dc.reset(new joedb::Writable_Database_Client(*s.file, *s.connection, y.check, joedb::Record_Id(1000000), recovery)); s.c = s.dc.get();}
   else {s.jc.reset(new joedb::Writable_Journal_Client(*s.file, *s.connection, y.check, recovery)); s.c = s.jc.get();}
   s.c->set_valid_data(y.valid_data);
  }

  static bool has(const std::string &s, const char *x) {return s.find(x) != std::string::npos;}

  void client(const std::string &who, const Style &style, const std::vector<Plan> &plan)
  {
   Logger_ logger(who);
   const std::string replica = "/sim/" + std::to_string(sim::self_node()->machine) + "/" + (style.shared_replica ? "shared" : who) + ".joedb";
   struct Offline {Ops ops; size_t i = SIZE_MAX;};
   std::vector<Offline> pending; // written to the replica, not yet pushed
   bool offline_used = false;
   auto drop_replica = [&]()
   {
    if (style.shared_replica) return;
    sim::vfs_remove(replica);
    pending.clear();
   };
   auto begin_pending = [&]() {for (auto &o: pending) o.i = log.begin(who, o.ops, style.valid_data);};
   auto end_pending = [&](int what)
   {
    for (auto &o: pending)
     if (o.i != SIZE_MAX && log.t[o.i].state == St::running)
      {if (what == 0) log.ack(o.i); else if (what == 1) log.abort(o.i); else log.doubt(o.i);}
    pending.clear();
   };
   size_t p = 0;
   int failures = 0;
   while (p < plan.size())
   {
    Session s;
    sim::Node *at = nullptr;
    // without connection
    while (p < plan.size() && plan[p].offline && style.persistent && !style.server_file && !style.shared_replica)
    {
     const Plan q = plan[p++];
     if (!sim::op_enabled(q.op)) continue;
     if (q.sleep) sim::sleep_for(q.sleep);
     joedb::File f(replica, joedb::Open_Mode::write_existing_or_create_new);
     Offline o;
     sim::Rng r(q.seed);
     if (style.db)
     {
      joedb::Writable_Database_Client c(f, joedb::Connection::dummy, q.check ? joedb::Content_Check::fast : joedb::Content_Check::none, joedb::Record_Id(1000000), joedb::Recovery::overwrite);
      c.set_valid_data(style.valid_data);
      c.transaction([&](const joedb::Readable &db, joedb::Writable &x) {{sim::Atomic a; o.ops = db_ops(db, r, q.n, std::to_string(q.seed));} for (auto &f2: o.ops) f2(x);});
     }
     else
     {
      joedb::Writable_Journal_Client c(f, joedb::Connection::dummy, q.check ? joedb::Content_Check::fast : joedb::Content_Check::none, joedb::Recovery::overwrite);
      c.set_valid_data(style.valid_data);
      o.ops = db_mode ? Ops{[q](joedb::Writable &x) {x.comment("offline " + std::to_string(q.seed));}} : raw_ops(q.seed, q.n);
      c.transaction([&](joedb::Writable_Journal &x) {for (auto &f2: o.ops) f2(x);});
     }
     pending.push_back(o);
     offline_used = true;
     sim::probe("offline_transactions");
    }
    // (re)connect
    while (true)
    {
     if (!await_server()) sim::fail("liveness", "no server");
     try
     {
      at = server_node;
      sim::Alloc_Faults on(k.alloc > 0);
      open(s, style, replica, logger);
      break;
     }
     catch (const joedb::Content_Mismatch &e)
     {
      // a replica that diverged because of a failed push is thrown away
      SIM_CHECK(failures > 0 || disturbed || offline_used, "content-mismatch", "%s: %s", who.c_str(), e.what());
      s.reset();
      if (offline_used) sim::probe("offline_refused");
      drop_replica();
      sim::probe("replicas_discarded");
     }
     catch (const std::exception &e)
     {
      SIM_CHECK((disturbed && allowed_connect_error(style, e.what())) || tolerant_connect, "connect-failed", "%s: cannot connect: %s", who.c_str(), e.what());
      s.reset();
      sim::probe("connect_failures");
      sim::sleep_for(10 * MS);
      if (++failures > 2000) sim::fail("liveness", "%s: cannot connect: %s", who.c_str(), e.what());
     }
    }

    bool again = false;
    while (p < plan.size() && !again)
    {
     if (plan[p].offline && style.persistent && !style.server_file && !style.shared_replica) {again = true; break;}
     const Plan q = plan[p++];
     if (!sim::op_enabled(q.op)) continue;
     // push what was written offline, alone or together with the next transaction
     if (!pending.empty() && (q.what != 0 || !(q.seed & 32)))
     {
      const uint64_t before = sim::step();
      const bool with_lock = (q.seed & 16) && !style.valid_data; // pulling and pushing nothing writes valid_data
      try
      {
       begin_pending();
       {
        sim::Alloc_Faults on(k.alloc > 0);
        if (with_lock) s.c->pull_push(); else s.c->push_if_ahead();
       }
       end_pending(0);
       commits.push_back({0, sim::now(), s.c->get_connection_checkpoint(), who});
       if (!has_power) committed_to(s.c->get_connection_checkpoint());
       check_replica(who, *s.file, s.c->get_journal_checkpoint(), before);
       sim::probe("offline_pushed");
      }
      catch (const std::exception &e)
      {
       const std::string m = e.what();
       const bool refused = has(m, "conflict") || dynamic_cast<const joedb::Content_Mismatch *>(&e);
       // without lock, a push may be rejected because somebody else has the lock
       SIM_CHECK(disturbed || refused || !with_lock || lock_timeout.count() > 0, "operation-failed", "%s: pushing offline changes failed without any fault: %s", who.c_str(), m.c_str());
       // a robust connection may get a conflict after a push whose acknowledgement was lost
       end_pending(refused && !(style.robust && disturbed) ? 1 : 2);
       failures++;
       sim::probe(refused ? "offline_refused" : "connection_errors");
       s.reset();
       drop_replica();
       again = true;
       continue;
      }
     }
     if (q.sleep)
     {
      idle(who, style, true);
      sim::sleep_for(q.sleep);
      idle(who, style, false);
     }
     size_t i = SIZE_MAX;
     std::vector<size_t> mine;
     bool wanted_abort = false, pushed = false;
     const uint64_t before = sim::step();
     const int64_t start = sim::now();
     {sim::Atomic a; activity.push_back({who, start, INT64_MAX});}
     struct Leave {Net &n; size_t k; ~Leave() {n.activity[k].end = sim::now();}} leave{*this, activity.size() - 1};
     try
     {
      sim::Alloc_Faults on(k.alloc > 0);
      switch (q.what)
      {
       case 0: case 1: // transaction
       {
        auto body = [&](joedb::Writable &w, const joedb::Readable *db)
        {
         granted(who, start, at);
         if (!pending.empty()) begin_pending();
         else if (db && q.check) check_database(who, *db, before);
         i = write(who, w, db, q, q.seed, style.valid_data);
         if (s.jc && read_own(q))
         {
          // what was just written can be read back from the file
          auto &wj = static_cast<joedb::Writable_Journal &>(w);
          wj.flush();
          check_replica(who, *s.file, wj.get_position(), before);
          sim::probe("own_writes_read");
         }
         if (q.hold) sim::sleep_for(q.hold);
         if (q.what == 1)
         {
          wanted_abort = true;
          log.abort(i);
          released(who);
          throw Abort_Me();
         }
         released(who); // about to push and unlock
        };
        const int64_t t0 = sim::now();
        if (q.seed & 4) // a transaction that returns a value
        {
         const uint64_t x = s.jc
          ? s.jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr); return q.seed;})
          : s.dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, &db); return q.seed;});
         SIM_CHECK(x == q.seed, "transaction-value", "%s: a transaction did not return its value", who.c_str());
        }
        else if (s.jc) s.jc->transaction([&](joedb::Writable_Journal &w) {body(w, nullptr);});
        else s.dc->transaction([&](const joedb::Readable &db, joedb::Writable &w) {body(w, &db);});
        end_pending(0);
        log.ack(i);
        pushed = true;
        commits.push_back({t0, sim::now(), s.c->get_connection_checkpoint(), who});
        if (!has_power) committed_to(s.c->get_connection_checkpoint());
       }
       break;
       case 2: // several pushes under one lock
       if (s.jc)
       {
        joedb::Writable_Journal_Client_Lock lock(*s.jc);
        granted(who, start, at);
        i = write(who, lock.get_journal(), nullptr, q, q.seed, style.valid_data);
        if (q.hold) sim::sleep_for(q.hold);
        lock.checkpoint_and_push();
        log.ack(i);
        if (!has_power) committed_to(s.c->get_connection_checkpoint());
        const int64_t again_at = sim::now();
        if (lock_timeout.count() == 0 || !q.hold) holder_request = std::max(holder_request, again_at > 0 ? holder_request : 0);
        i = write(who, lock.get_journal(), nullptr, q, q.seed + 1, style.valid_data);
        if (q.check)
        {
         log.abort(i);
         wanted_abort = true;
         released(who);
         lock.unlock();
         again = true;
        }
        else
        {
         released(who);
         lock.checkpoint_and_push_unlock();
         log.ack(i);
         if (!has_power) committed_to(s.c->get_connection_checkpoint());
        }
        i = SIZE_MAX;
       }
       break;
       case 3: // pull
       {
        const int64_t old = s.c->get_journal_checkpoint();
        const int64_t n = s.c->pull(std::chrono::milliseconds(q.wait));
        SIM_CHECK(n == s.c->get_journal_checkpoint() - old, "pull-count", "%s: pull returned %ld, checkpoint went from %ld to %ld", who.c_str(), n, old, s.c->get_journal_checkpoint());
        if (q.wait) pull_waited(who, start, q.wait, old, n);
        check_replica(who, *s.file, s.c->get_journal_checkpoint(), before);
        sim::probe("pulls");
       }
       break;
       case 4: again = true; break; // reconnect
       case 5: random_preads(s, who, q); break;
       case 6: // a transaction that writes nothing
       {
        const int64_t old = s.c->get_connection_checkpoint();
        s.c->pull_push();
        SIM_CHECK(s.c->get_connection_checkpoint() >= old && s.c->get_checkpoint_difference() == 0, "pull-push", "%s: checkpoints %ld and %ld after pulling and pushing", who.c_str(), s.c->get_connection_checkpoint(), s.c->get_journal_checkpoint());
        check_replica(who, *s.file, s.c->get_journal_checkpoint(), before);
        sim::probe("pull_push");
       }
       break;
      }
      if (pushed && q.check) check_replica(who, *s.file, s.c->get_journal_checkpoint(), before);
     }
     catch (const Abort_Me &)
     {
      if (!pending.empty()) sim::fail("harness-state", "pending data in an aborted transaction");
      again = true;
      // the replica has an aborted tail: overwritten at the next opening
      // the connection is still there for a while, without the lock
      if (q.seed & 8) sim::sleep_for(60 * SEC);
     }
     catch (const std::exception &e)
     {
      const bool in_body = holder == who; // not while pulling or pushing
      released(who);
      again = true;
      failures++;
      const std::string m = e.what();
      if (sim::verbose) sim::note("%s: op %d: exception: %s", who.c_str(), q.op, m.c_str());
      failed(who, style, m, i);
      const bool conflict = has(m, "conflict"), timeout = has(m, "time out");
      bool ok = disturbed && allowed_error(style, m, dynamic_cast<const joedb::Content_Mismatch *>(&e));
      // a replica that is ahead because of a failed push may have diverged
      const bool mismatch = dynamic_cast<const joedb::Content_Mismatch *>(&e);
      if (mismatch && (failures > 1 || offline_used)) ok = true;
      if (lock_timeout.count() > 0 && (conflict || timeout)) ok = true;
      if (lock_timeout.count() > 0 && sim::now() - start > lock_timeout.count() * MS / 2) ok = true; // pushed while another one was locking
      SIM_CHECK(ok, "operation-failed", "%s: operation %d failed without any fault: %s", who.c_str(), q.what, m.c_str());
      if (!pending.empty()) {end_pending((conflict || mismatch) && !(style.robust && disturbed) ? 1 : 2); sim::vfs_remove(replica);}
      if (wanted_abort) {}
      else if (i != SIZE_MAX && log.t[i].state == St::running)
      {
       if ((conflict || timeout) && !style.robust && !style.server_file) {log.abort(i); drop_replica();}
       else log.doubt(i);
       sim::nontrivial();
      }
      // the connection is still there for a while, without the lock
      if (k.alloc > 0 && in_body && (q.seed & 8)) {sim::probe("kept_after_bad_alloc"); sim::sleep_for(300 * SEC);}
      sim::probe(conflict ? "conflicts" : timeout ? "push_timeouts" : "connection_errors");
      s.reset();
      // a replica that is ahead of the server may be kept: the next handshake decides
      if (!(q.seed & 1) || mismatch) drop_replica();
     }
     if (i != SIZE_MAX && log.t[i].state == St::running) sim::fail("harness-state", "transaction still running");
    }
    const int64_t closing = sim::now();
    s.reset();
    session_closed(who, style, sim::now() - closing);
   }
  }
  bool has_power = false;
  bool only_memory = false;    // no other fault than failing allocations
  int64_t calm_at = 0; // no fault after this time
  int client_count = 0;

  virtual void pull_waited(const std::string &, int64_t start, int64_t wait, int64_t old, int64_t n) {}

  // ------------------------------------------------------------------ run --
  virtual void configure(sim::Rng &) {}
  virtual void extra(std::vector<sim::Thread *> &) {} // more processes
  double accept_fail = 0;
  bool tolerant_connect = false; // connecting may fail, nothing else
  virtual ~Net() = default;
  std::vector<sim::Thread *> servers;

  void run()
  {
   quiet_destructors();
   auto &w = sim::wl();
   db_mode = w.chance(k.db);
   shared = w.chance(k.shared);
   hard = w.chance(k.hard);
   if (w.chance(k.lock_timeout)) lock_timeout = std::chrono::milliseconds(w.range(5, 500));
   short_rate = w.chance(0.5) ? 0.1 : 0;
   sim::set_default_latency(int64_t(1 + w.below(50)) * US, int64_t(1 + w.below(5)) * MS);
   configure(w);
   const bool kills = w.chance(k.kill_server), stops = w.chance(k.stop_server), power = w.chance(k.power);
   has_power = power;
   if (power) hard = true;
   disturbed = k.reset > 0 || k.alloc > 0 || k.kill_client > 0 || kills || stops || power;
   sim::vfs_on_write([this](const std::string &p) {if (p == path) check_immutable();});

   if (power)
   {
    // a durable file to start with
    sim::Atomic a;
    joedb::File f(path, joedb::Open_Mode::create_new);
    joedb::Writable_Journal j(f);
    Ops ops{[](joedb::Writable &x) {x.comment("start");}};
    const size_t i = log.begin("setup", ops);
    for (auto &o: ops) o(j);
    j.hard_checkpoint();
    log.ack(i);
   }
   servers.push_back(start_server());
   std::vector<sim::Thread *> threads;
   std::vector<sim::Node *> nodes;
   const int clients = int(w.range(k.min_clients, k.max_clients + (sim::thorough() ? 1 : 0)));
   client_count = clients;
   for (int c = 0; c < clients; c++)
   {
    const std::string who = "c" + std::to_string(c);
    const bool share = k.shared_replica > 0 && w.chance(k.shared_replica);
    auto *node = sim::new_node(who, share ? 1 : 1 + c % 3);
    benign(node, 0.003);
    node->rates[sim::K_SHORT_SEND] = short_rate;
    node->rates[sim::K_SHORT_RECV] = short_rate;
    node->rates[sim::K_SHORT_READ] = node->rates[sim::K_SHORT_WRITE] = k.short_io;
    node->rates[sim::K_CONN_RESET] = k.reset;
    node->rates[sim::K_CONN_STALL] = k.stall;
    node->rates[sim::K_ALLOC] = k.alloc;
    Style y;
    y.socket = choose_socket(w);
    y.server_file = w.chance(k.server_file);
    y.robust = w.chance(k.robust);
    y.db = db_mode && w.chance(0.8);
    y.persistent = w.chance(k.persistent);
    if (share) {y.shared_replica = y.persistent = true; y.server_file = false;}
    y.keep_alive_ms = w.chance(k.keep_alive) ? int(1 + w.below(uint64_t(k.max_keep_alive))) : 0;
    y.check = w.chance(0.5) ? joedb::Content_Check::fast : joedb::Content_Check::full;
    y.valid_data = k.valid_data > 0 && w.chance(k.valid_data);
    std::vector<Plan> plan;
    const int n = 1 + int(w.below(uint64_t(k.max_ops)));
    for (int t = 0; t < n; t++)
    {
     Plan p;
     p.op = op++;
     p.seed = (w.next() >> 24) * 2 + w.below(2);
     p.n = int(w.below(6));
     p.what = w.chance(k.abort) ? 1 : w.chance(0.12) ? 2 : w.chance(k.pull) ? 3 : w.chance(0.05) ? 4 : 0;
     if (p.what == 2 && y.db) p.what = 0;
     p.offline = k.offline > 0 && w.chance(k.offline);
     if (k.preads > 0 && w.chance(k.preads)) p.what = 5;
     if (k.pull_push > 0 && !y.valid_data && w.chance(k.pull_push)) p.what = 6;
     p.check = w.chance(0.5);
     p.sleep = w.chance(k.long_sleep) ? int64_t(w.below(10000)) * MS : w.chance(0.5) ? int64_t(w.below(20000)) * US : 0;
     p.hold = w.chance(k.hold) ? int64_t(1 + w.below(1000)) * MS : w.chance(0.2) ? int64_t(w.below(3000)) * US : 0;
     p.wait = p.what == 3 && w.chance(k.wait_pull) ? int64_t(1 + w.below(20000)) : 0;
     p.big = w.chance(k.big);
     static const char *const names[] = {"transaction", "aborted transaction", "two pushes under one lock", "pull", "reconnect", "reads from the server", "pull and push"};
     sim::declare_op(p.op, who + (y.server_file ? " (server file)" : y.robust ? " (robust)" : "") + (y.db ? " (database) " : " (journal) ") + names[p.what] + " seed " + std::to_string(p.seed) + (p.hold ? " hold " + std::to_string(p.hold / MS) + "ms" : "") + (p.offline ? " (offline if the replica is a file)" : "") + (p.wait ? " wait " + std::to_string(p.wait) + "ms" : "") + (p.big ? " big" : ""));
     plan.push_back(p);
    }
    if (w.chance(k.kill_client)) node->crash_at = 20 + w.below(400);
    node->on_crash = [this, who]() {if (holder == who) holder.clear();};
    threads.push_back(sim::spawn(node, who, [=, this]() {client(who, y, plan);}));
    nodes.push_back(node);
   }
   if (shared && w.chance(k.local_writer))
   {
    auto *node = sim::new_node("local", 0);
    benign(node, 0.003);
    const int n = 1 + int(w.below(4));
    std::vector<Plan> plan;
    for (int t = 0; t < n; t++)
    {
     Plan p{};
     p.op = op++;
     p.seed = (w.next() >> 24) * 2;
     p.n = int(w.below(5));
     p.sleep = int64_t(w.below(20000)) * US;
     sim::declare_op(p.op, "local process, transaction seed " + std::to_string(p.seed));
     plan.push_back(p);
    }
    threads.push_back(sim::spawn(node, "local", [=, this]()
    {
     if (!await_server()) return;
     joedb::File file(path, joedb::Open_Mode::shared_write);
     std::unique_ptr<joedb::Writable_Journal_Client> c;
     c.reset(new joedb::Writable_Journal_Client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite));
     for (auto &q: plan)
     {
      if (!sim::op_enabled(q.op)) continue;
      sim::sleep_for(q.sleep);
      size_t i = 0;
      c->transaction([&](joedb::Writable_Journal &j) {i = write("local", j, nullptr, q, q.seed);});
      log.ack(i);
      if (!has_power) committed_to(c->get_journal_checkpoint());
      sim::probe("local_transactions");
     }
    }));
   }

   extra(threads);
   if (k.faults_for > 0)
   {
    const int64_t t = int64_t(w.below(uint64_t(k.faults_for)));
    auto *node = sim::new_node("calm", 9);
    sim::spawn(node, "calm", [this, t, nodes]()
    {
     sim::sleep_for(t);
     sim::Atomic a;
     k.reset = k.stall = 0;
     for (auto *n: nodes) n->rates[sim::K_ALLOC] = n->rates[sim::K_CONN_RESET] = n->rates[sim::K_CONN_STALL] = 0;
     if (server_node) server_node->rates[sim::K_CONN_RESET] = server_node->rates[sim::K_CONN_STALL] = 0;
     calm_at = std::max(calm_at, sim::now());
    });
    calm_at = t;
   }

   // server restarts
   for (int life = 1; life <= k.server_lives && (kills || stops || power); life++)
   {
    if (!await_server(60 * SEC)) break;
    sim::sleep_for(int64_t(w.below(40000)) * US);
    sim::Node *old = server_node;
    if (power)
    {
     sim::power_fail(0);
     sim::probe("server_power_failures");
     sim::Atomic a;
     committed.clear();
     if (sim::vfs_exists(path))
     {
      // recovery: truncate the file at its hard checkpoint
      const Read_Result r = read_file(path, joedb::Recovery::none, true);
      SIM_CHECK(r.ok, "unreadable", "after a power failure: %s", r.error.c_str());
      const std::string x = log.explain(r.e);
      SIM_CHECK(x.empty(), "acknowledged-lost", "after a power failure: %s", x.c_str());
      const std::string next = path + ".recovered";
      {
       joedb::File from(path, joedb::Open_Mode::read_existing);
       joedb::File to(next, joedb::Open_Mode::create_new);
       joedb::Readonly_Journal rj(from);
       joedb::Writable_Journal wj(to);
       wj.pull_from(rj, rj.get_hard_checkpoint());
       wj.skip_directly_to(wj.get_checkpoint());
       wj.hard_checkpoint();
      }
      sim::vfs_put(path, sim::vfs_content(next));
      sim::vfs_remove(next);
     }
    }
    else if (kills && (!stops || w.chance(0.5))) {sim::crash(old); sim::probe("server_kills");}
    else
    {
     stopping = true;
     sim::send_signal(old, w.chance(0.5) ? SIGTERM : SIGINT);
     if (!sim::join({servers.back()}, 60 * SEC)) sim::fail("liveness", "the server does not stop");
     sim::probe("server_stops");
     sim::Atomic a;
     SIM_CHECK(!sim::vfs_exists(sock), "socket-left", "the socket file was not removed by a graceful shutdown");
    }
    sim::nontrivial();
    if (w.chance(0.3)) sim::sleep_for(int64_t(w.below(8000)) * MS);
    {
     sim::Atomic a;
     holder.clear();
    }
    servers.push_back(start_server());
    calm_at = std::max(calm_at, sim::now());
   }

   if (!sim::join(threads, 36000 * SEC)) sim::fail("liveness", "clients of the server did not finish:");
   clients_done();
   for (auto *n: nodes)
    if (!n->alive)
    {
     sim::nontrivial();
     sim::probe("killed_clients");
     for (auto &x: log.t) if (x.node == n && x.state == St::running) x.state = St::doubt;
    }
   // let the server digest what dead clients have sent
   sim::sleep_for(10 * SEC);
   before_stop();
   stopping = true;
   sim::send_signal(server_node, SIGTERM);
   if (!sim::join({servers.back()}, 600 * SEC)) sim::fail("liveness", "the server does not stop");
   sim::Atomic a;
   SIM_CHECK(!sim::vfs_exists(sock), "socket-left", "the socket file was not removed by a graceful shutdown");
   check_server_file(true);
   if (clients > 1) sim::nontrivial();
  }

  void check_server_file(bool final)
  {
   if (!sim::vfs_exists(path)) {SIM_CHECK(log.acked() == 0, "acknowledged-lost", "the server file does not exist"); return;}
   const Read_Result r = read_file(path);
   if (!r.ok)
   {
    SIM_CHECK(log.acked() == 0 && r.size == 0, "unreadable", "the server file cannot be read: %s", r.error.c_str());
    return;
   }
   const std::string x = log.explain(r.e);
   SIM_CHECK(x.empty(), "history-wrong", "%s", x.c_str());
   if (final) sim::probe("final_checks");
  }
 };
}
