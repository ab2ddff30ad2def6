// P18: copies of a file, made by pushing and pulling between files, are always
// prefixes of it, and catch up.
// MAINS: joedb_push
#include "scenarios/world.h"
#include "scenarios/tools.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/Local_Connector.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/journal/Readonly_Brotli_File.h"
#include "joedb/journal/Brotli_File.h"
using namespace h;

int joedb_push_main(int, char **);

namespace
{
 // the position until which a reader of these bytes may read
 int64_t published(const std::string &d)
 {
  if (d.size() < 41) return 41;
  int64_t pos[4];
  memcpy(pos, d.data(), 32);
  int64_t r = 41;
  for (int i = 0; i < 2; i++)
  {
   if (pos[2 * i] == pos[2 * i + 1]) r = std::max(r, pos[2 * i]);
   for (int j = 0; j < 2; j++) r = std::max(r, -pos[2 * i + j]);
  }
  return r;
 }

 struct Copy
 {
  std::string source, path;
  int64_t last = 41;

  void check()
  {
   if (!sim::vfs_exists(path)) return;
   const std::string d = sim::vfs_content(path);
   if (d.size() < 41) return;
   const int64_t c = published(d);
   SIM_CHECK(c >= last, "copy-regress", "the checkpoint of the copy went back from %ld to %ld", last, c);
   last = c;
   if (c == 41) return;
   SIM_CHECK(int64_t(d.size()) >= c, "copy-torn", "the copy publishes %ld bytes, but has %zu", c, d.size());
   const std::string s = sim::vfs_content(source);
   const int64_t sc = published(s);
   SIM_CHECK(c <= sc, "copy-ahead", "the copy publishes %ld bytes, the source %ld", c, sc);
   SIM_CHECK(!memcmp(d.data() + 41, s.data() + 41, size_t(c - 41)), "copy-differs", "the copy differs from its source below its checkpoint %ld", c);
   sim::probe("copy_checks");
  }
  bool complete() const
  {
   if (!sim::vfs_exists(path) || !sim::vfs_exists(source)) return false;
   return published(sim::vfs_content(path)) == published(sim::vfs_content(source));
  }
 };

 // joedb_push --follow, killed, stopped and started again while others write
 struct Push_World: World
 {
  enum {to_file, to_brotli, to_server} kind = to_file;
  const std::string copy_path = "/sim/1/copy.joedb", sock = "/sim/1/copy.sock";
  Copy copy{path, copy_path};
  double interrupt = 0.5;
  int generation = 0;
  int64_t push_start = 0;
  sim::Node *push_node = nullptr, *server_node = nullptr;
  sim::Thread *push_thread = nullptr, *server_thread = nullptr;
  int push_result = -1;
  bool server_up = false, disturbed = false;

  void check_brotli(const char *when)
  {
   if (!sim::vfs_exists(copy_path) || sim::vfs_content(copy_path).size() < 41) return;
   sim::vfs_put("/sim/9/b", sim::vfs_content(copy_path));
   Events e;
   try
   {
    joedb::Readonly_Brotli_File f("/sim/9/b");
    if (f.get_size() >= 41)
    {
     joedb::Readonly_Journal j(f);
     SIM_CHECK(j.get_checkpoint() >= copy.last, "copy-regress", "%s: the checkpoint of the compressed copy went back from %ld to %ld", when, copy.last, j.get_checkpoint());
     copy.last = j.get_checkpoint();
     Recorder rec;
     j.replay_log(rec);
     e = rec.e;
    }
   }
   catch (const std::exception &x)
   {
    // before its own schema is written, a compressed file is not usable
    if (copy.last == 41 && strstr(x.what(), "Schema is out of date")) return;
    sim::fail("copy-unreadable", "%s: the compressed copy cannot be read: %s", when, x.what());
   }
   const Read_Result s = read_bytes(sim::vfs_content(path));
   SIM_CHECK(prefix_mismatch(e, s.e) < 0, "copy-differs", "%s: compressed copy: %s", when, diff_text(e, s.e).c_str());
   sim::probe("copy_checks");
  }

  void start_push()
  {
   generation++;
   push_node = sim::new_node("push" + std::to_string(generation), 0);
   set_rates(push_node);
   push_result = -1;
   push_start = sim::now();
   std::vector<std::string> args{"joedb_push", "--follow"};
   if (sim::wl().chance(0.3)) {args.push_back("--check"); args.push_back("full");}
   args.push_back(path);
   if (kind == to_file) {args.push_back("file"); args.push_back(copy_path);}
   else if (kind == to_brotli) {args.push_back("file"); args.push_back("brotli"); args.push_back(copy_path);}
   else {args.push_back("local"); args.push_back(sock);}
   push_thread = sim::spawn(push_node, push_node->name, [=, this]() {push_result = run_tool(joedb_push_main, args);});
  }

  void start_server()
  {
   server_node = sim::new_node("server", 1);
   set_rates(server_node);
   sim::vfs_remove(sock);
   server_thread = sim::spawn(server_node, "server", [this]()
   {
    Logger_ logger("server");
    joedb::File file(copy_path, joedb::Open_Mode::write_existing_or_create_new);
    joedb::Writable_Journal_Client client(file, joedb::Connection::dummy, joedb::Content_Check::fast, joedb::Recovery::overwrite);
    joedb::Server server(logger, 0, 1, sock, client, std::chrono::milliseconds(0));
    server_up = true;
    server.join();
    server_up = false;
   });
  }

  bool source_ready() {sim::Atomic a; return sim::vfs_exists(path) && sim::vfs_content(path).size() >= 41;}

  // what the error message says: joedb_push makes a clean file from one that was not closed
  bool repair_copy()
  {
   {
    sim::Atomic a;
    if (!sim::vfs_exists(copy_path)) return true;
    if (sim::vfs_content(copy_path).size() < 41) return false;
    if (kind == to_brotli) check_brotli("after a failure");
    else
    {
     const Read_Result r = read_file(copy_path);
     SIM_CHECK(r.ok, "copy-unreadable", "the copy cannot be read: %s", r.error.c_str());
     if (r.size == r.checkpoint) return true;
    }
   }
   const std::string fixed = "/sim/1/fixed.joedb";
   {sim::Atomic a; sim::vfs_remove(fixed);}
   std::vector<std::string> args{"joedb_push"};
   if (kind == to_brotli) args.insert(args.end(), {"brotli", copy_path, "file", "brotli", fixed});
   else args.insert(args.end(), {copy_path, "file", fixed});
   int result = -1;
   sim::Node *n = sim::new_node("repair" + std::to_string(generation), 0);
   sim::Thread *t = sim::spawn(n, n->name, [=, &result]() {result = run_tool(joedb_push_main, args);});
   if (!sim::join({t}, 60 * SEC)) sim::fail("liveness", "joedb_push does not end");
   sim::Atomic a;
   if (kind == to_brotli)
   {
    // the compressed file may have been killed before its schema was written
    if (result != 0) return false;
   }
   else SIM_CHECK(result == 0, "push-failed", "joedb_push cannot make a clean file from the copy: %d", result);
   if (!sim::vfs_exists(fixed)) return false;
   const std::string c = sim::vfs_content(fixed);
   sim::vfs_remove(fixed);
   sim::vfs_put(copy_path, c);
   sim::probe("copies_repaired");
   return true;
  }

  // an operator that keeps joedb_push running
  bool keep_running()
  {
   if (!push_thread) {if (source_ready()) start_push(); return true;}
   if (!sim::finished(push_thread)) return true;
   if (push_node->alive)
   {
    // it stopped by itself, which may only be because of what an earlier failure left
    SIM_CHECK(disturbed || push_result == 0, "push-failed", "joedb_push returned %d", push_result);
    sim::probe("push_errors", push_result != 0);
   }
   if (kind != to_server && disturbed)
   {
    if (!repair_copy())
    {
     sim::Atomic a;
     sim::vfs_remove(copy_path);
     copy.last = 41;
     sim::probe("copies_restarted");
    }
   }
   start_push();
   return true;
  }

  void running(const std::vector<sim::Thread *> &threads) override
  {
   auto &w = sim::wl();
   if (kind == to_server && !server_thread) start_server();
   auto all_done = [&]() {for (auto *t: threads) if (!sim::finished(t)) return false; return true;};
   if (kind == to_server) {if (!sim::wait_until([&]() {return server_up || !server_node->alive;}, 60 * SEC)) sim::fail("liveness", "the server does not start");}
   int interruptions = w.chance(interrupt) ? 1 + int(w.below(4)) : 0;
   int64_t end = -1, quiet_since = -1;
   while (true)
   {
    keep_running();
    sim::sleep_for(int64_t(1 + w.below(interruptions ? 700 : 1500)) * MS);
    if (interruptions && push_thread)
    {
     interruptions--;
     disturbed = true;
     sim::nontrivial();
     switch (w.below(kind == to_server ? 5 : 3))
     {
      case 0: sim::crash(push_node); break;
      case 1: push_node->crash_at = push_node->points + 1 + w.below(60); break;
      case 2: sim::send_signal(push_node, 2); break;
      case 3: sim::cut_all_connections(); break;
      default:
       // the server stops and starts again
       sim::send_signal(server_node, 2);
       if (!sim::join({server_thread}, 60 * SEC)) sim::fail("liveness", "the server does not stop");
       start_server();
       if (!sim::wait_until([&]() {return server_up;}, 60 * SEC)) sim::fail("liveness", "the server does not start");
      break;
     }
    }
    if (kind == to_brotli) {sim::Atomic a; if (sim::vfs_exists(path)) check_brotli("while running");}
    if (all_done() && !source_ready()) break;
    if (!all_done() || interruptions) continue;
    if (quiet_since < 0) quiet_since = sim::now();
    // nothing happens any more: the copy catches up
    bool done;
    if (kind == to_brotli)
    {
     // the last write may be kept in memory until the file is closed
     if (!source_ready()) break;
     done = push_thread && !sim::finished(push_thread) && sim::now() > std::max(push_start, quiet_since) + 5 * SEC;
    }
    else
    {
     sim::Atomic a;
     if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41) break;
     const Read_Result s = read_file(path);
     if (!s.ok) break;
     done = copy.complete();
    }
    if (done) break;
    if (end < 0) end = sim::now() + 40 * SEC;
    SIM_CHECK(sim::now() < end, "liveness", "the copy does not catch up with its source");
   }
   sim::probe("copies_completed");
   if (push_thread && !sim::finished(push_thread))
   {
    sim::send_signal(push_node, 2);
    if (!sim::join({push_thread}, 60 * SEC)) sim::fail("liveness", "joedb_push does not stop");
    if (push_node->alive)
    {
     SIM_CHECK(disturbed || push_result == 0, "push-failed", "joedb_push returned %d", push_result);
     if (kind == to_brotli && push_result == 0)
     {
      sim::Atomic a;
      check_brotli("after joedb_push stopped");
      const Read_Result r = read_file(path);
      SIM_CHECK(!r.ok || copy.last == r.checkpoint, "copy-incomplete", "the compressed copy stops at %ld, its source at %ld", copy.last, r.checkpoint);
     }
    }
   }
   push_thread = nullptr;
   sim::nontrivial();
  }

  void stop()
  {
   if (server_thread && !sim::finished(server_thread))
   {
    sim::send_signal(server_node, 2);
    if (!sim::join({server_thread}, 60 * SEC)) sim::fail("liveness", "the server does not stop");
   }
   sim::Atomic a;
   if (kind == to_brotli) {if (sim::vfs_exists(path)) check_brotli("at the end"); return;}
   if (!sim::vfs_exists(copy_path) || !sim::vfs_exists(path)) return;
   const Read_Result c = read_file(copy_path), s = read_file(path);
   if (!s.ok || s.checkpoint == 41) return;
   SIM_CHECK(c.ok, "copy-unreadable", "the copy cannot be read at the end: %s", c.error.c_str());
   SIM_CHECK(c.e == s.e, "copy-differs", "at the end: %s", diff_text(c.e, s.e).c_str());
   SIM_CHECK(c.size == c.checkpoint || disturbed, "copy-dirty", "the copy has %ld bytes, its checkpoint is %ld", c.size, c.checkpoint);
  }

  void go()
  {
   auto &w = sim::wl();
   quiet_destructors();
   setup();
   sim::vfs_on_write([this](const std::string &p)
   {
    if (p == path) check_immutable();
    if (p == copy_path && kind != to_brotli) copy.check();
   });
   const int lives = 1 + int(w.below(uint64_t(k.max_lives)));
   for (int life = 0; life < lives; life++) one_life(life);
   stop();
  }
 };

 void knobs(Push_World &w)
 {
  w.k.sleep_unit = 3 * MS;
  w.k.max_lives = 2;
  w.k.max_writers = 2;
  w.k.max_readers = 1;
  w.k.kill = 0.15;
  w.k.abort = 0.1;
  w.k.short_io = sim::wl().chance(0.3) ? 0.2 : 0;
 }
}

SCENARIO(P18, push_to_file, 10)
{
 Push_World w;
 knobs(w);
 w.go();
}

SCENARIO(P18, push_to_brotli, 5)
{
 Push_World w;
 knobs(w);
 w.kind = Push_World::to_brotli;
 w.go();
}

SCENARIO(P18, push_to_server, 8)
{
 Push_World w;
 knobs(w);
 w.kind = Push_World::to_server;
 w.go();
}

namespace
{
 // Replicas that work on a local file, and push to a file that they open
 // exclusively, one after the other.
 struct Archive
 {
  const std::string remote = "/sim/0/remote.joedb";
  struct Local {std::string path, bytes;};
  std::vector<Local> locals;
  std::string remote_bytes;
  int op = 0, generation = 0;

  static std::string committed(const std::string &p)
  {
   if (!sim::vfs_exists(p)) return "";
   const std::string d = sim::vfs_content(p);
   const int64_t c = published(d);
   if (d.size() < 41 || c == 41) return "";
   SIM_CHECK(int64_t(d.size()) >= c, "copy-torn", "%s publishes %ld bytes, but has %zu", p.c_str(), c, d.size());
   return d.substr(41, size_t(c - 41));
  }

  static void grow(std::string &old, const std::string &p)
  {
   const std::string now = committed(p);
   SIM_CHECK(now.size() >= old.size() && !memcmp(now.data(), old.data(), old.size()), "copy-regress", "%s: what was committed (%zu bytes) is not a prefix of what is committed now (%zu bytes)", p.c_str(), old.size(), now.size());
   old = now;
   sim::probe("copy_checks");
  }

  void on_write(const std::string &p)
  {
   if (p == remote) grow(remote_bytes, p);
   for (auto &l: locals) if (p == l.path) grow(l.bytes, p);
  }

  void repair(const std::string &p)
  {
   {
    sim::Atomic a;
    if (!sim::vfs_exists(p)) return;
    const std::string d = sim::vfs_content(p);
    if (d.size() < 41) {sim::vfs_remove(p); return;}
    if (int64_t(d.size()) == published(d)) return;
    sim::vfs_remove("/sim/0/fixed.joedb");
   }
   int result = -1;
   std::vector<std::string> args{"joedb_push", p, "file", "/sim/0/fixed.joedb"};
   sim::Node *n = sim::new_node("repair" + std::to_string(generation++), 0);
   sim::Thread *t = sim::spawn(n, n->name, [=, &result]() {result = run_tool(joedb_push_main, args);});
   if (!sim::join({t}, 60 * SEC)) sim::fail("liveness", "joedb_push does not end");
   SIM_CHECK(result == 0, "push-failed", "joedb_push cannot make a clean file: %d", result);
   sim::Atomic a;
   const std::string c = sim::vfs_content("/sim/0/fixed.joedb"), before = committed(p);
   SIM_CHECK(c.size() == 41 + before.size() && committed("/sim/0/fixed.joedb") == before, "repair-wrong", "the clean file (%zu bytes) does not have what was committed (%zu bytes)", c.size(), before.size() + 41);
   sim::vfs_put(p, c);
   sim::probe("copies_repaired");
  }

  struct Plan {int op, what, n; uint64_t seed;};

  void session(Local &l, bool online, bool full, const std::vector<Plan> &plan, const std::string &who)
  {
   const std::string r0 = remote_bytes, l0 = l.bytes;
   const size_t min = std::min(r0.size(), l0.size());
   const bool equal = !memcmp(r0.data(), l0.data(), min);
   bool seen = true;
   if (!equal && !full && min + 41 > 4096)
   {
    size_t diff = 0;
    while (r0[diff] == l0[diff]) diff++;
    seen = diff < 2048 || r0.compare(min - 2048, 2048, l0, min - 2048, 2048) != 0;
   }
   joedb::File file(l.path, joedb::Open_Mode::write_existing_or_create_new);
   std::unique_ptr<joedb::File> rf;
   std::unique_ptr<joedb::File_Connection> connection;
   std::unique_ptr<joedb::Writable_Journal_Client> c;
   try
   {
    if (online)
    {
     rf.reset(new joedb::File(remote, joedb::Open_Mode::write_existing_or_create_new));
     connection.reset(new joedb::File_Connection(*rf));
    }
    c.reset(new joedb::Writable_Journal_Client(file, online ? *connection : joedb::Connection::dummy, full ? joedb::Content_Check::full : joedb::Content_Check::fast, joedb::Recovery::overwrite));
   }
   catch (const joedb::Content_Mismatch &)
   {
    SIM_CHECK(online && !equal, "false-mismatch", "%s: a replica whose content is the same was refused", who.c_str());
    sim::probe("diverged_replicas_refused");
    sim::nontrivial();
    return;
   }
   if (online)
   {
    SIM_CHECK(equal || !seen, "mismatch-missed", "%s: a replica that differs from the remote file was accepted", who.c_str());
    if (!equal) return;
    if (l0.size() > r0.size()) sim::probe("sessions_that_are_ahead");
    if (l0.size() < r0.size()) sim::probe("sessions_that_are_behind");
   }
   auto synced = [&](const char *when)
   {
    if (!online) return;
    sim::Atomic a;
    SIM_CHECK(l.bytes == remote_bytes, "copy-incomplete", "%s: after %s, the replica has %zu bytes, the remote file %zu", who.c_str(), when, l.bytes.size(), remote_bytes.size());
    sim::probe("synchronisations");
   };
   bool ahead = online && l.bytes.size() > remote_bytes.size();
   for (auto &p: plan)
   {
    if (!sim::op_enabled(p.op)) continue;
    const std::string before = l.bytes;
    if (ahead || p.what == 0)
    {
     if (p.what == 2) {c->pull(); SIM_CHECK(l.bytes == before, "pull-wrong", "%s: a pull changed a replica that is ahead", who.c_str());}
     c->push_if_ahead();
     if (ahead) {synced("pushing"); ahead = false;}
    }
    else if (p.what == 2) {c->pull(); synced("pulling");}
    else
    {
     Recorder rec;
     apply(rec, p.seed, p.n);
     try
     {
      if (p.what == 3)
      {
       joedb::Writable_Journal_Client_Lock lock(*c);
       apply(lock.get_journal(), p.seed, p.n);
       lock.checkpoint_and_push();
       synced("pushing inside of a lock");
       lock.get_journal().comment("second");
       rec.comment("second");
       lock.checkpoint_and_push_unlock();
      }
      else c->transaction([&](joedb::Writable_Journal &j)
      {
       apply(j, p.seed, p.n);
       if (p.what == 4) j.hard_checkpoint();
      });
     }
     catch (const std::exception &x) {sim::fail("transaction-failed", "%s: %s", who.c_str(), x.what());}
     synced("a transaction");
     sim::Atomic a;
     SIM_CHECK(p.n == 0 || l.bytes.size() > before.size(), "lost", "%s: the transaction did not write anything", who.c_str());
     sim::nontrivial();
    }
   }
  }

  void run()
  {
   quiet_destructors();
   auto &w = sim::wl();
   sim::vfs_on_write([this](const std::string &p) {on_write(p);});
   const int n = 1 + int(w.below(2 + uint64_t(sim::thorough())));
   for (int i = 0; i < n; i++) locals.push_back({"/sim/1/local" + std::to_string(i) + ".joedb", ""});
   const double shorts = w.chance(0.4) ? 0.2 : 0, kills = w.chance(0.7) ? 0.4 : 0, offline = w.chance(0.5) ? 0.3 : 0;
   const int sessions = int(w.range(2, 8)) + (sim::thorough() ? int(w.below(8)) : 0);
   for (int s = 0; s < sessions; s++)
   {
    const std::string who = "s" + std::to_string(s);
    Local &l = locals[w.below(locals.size())];
    const bool online = !w.chance(offline), full = w.chance(0.4);
    std::vector<Plan> plan;
    static const char *const names[] = {"push if ahead", "transaction", "pull", "two pushes in a lock", "transaction with a hard checkpoint"};
    for (int k = int(w.below(5)); k > 0; k--)
    {
     Plan p{op++, w.chance(0.15) ? 0 : w.chance(0.2) ? 2 : w.chance(0.2) ? 3 : w.chance(0.2) ? 4 : 1, int(w.below(6)), (w.next() >> 24) * 2};
     sim::declare_op(p.op, who + " on " + l.path + (online ? " online: " : " offline: ") + names[p.what] + " seed " + std::to_string(p.seed) + " size " + std::to_string(p.n));
     plan.push_back(p);
    }
    const bool kill = w.chance(kills);
    auto *node = sim::new_node(who, 0);
    benign(node, 0.01);
    node->rates[sim::K_SHORT_READ] = node->rates[sim::K_SHORT_WRITE] = shorts;
    if (kill) node->rates[sim::K_CRASH] = w.chance(0.5) ? 0.03 : 0.15;
    sim::Thread *t = sim::spawn(node, who, [=, this, &l]() {session(l, online, full, plan, who);});
    if (!sim::join({t}, 600 * SEC)) sim::fail("liveness", "a session does not end");
    if (!node->alive) {sim::probe("killed_sessions"); sim::nontrivial();}
    repair(remote);
    sim::Atomic a;
    if (sim::vfs_exists(l.path) && sim::vfs_content(l.path).size() < 41) {sim::vfs_remove(l.path);}
   }
   // at the end, every file still has everything
   for (auto &l: locals) repair(l.path);
   sim::Atomic a;
   SIM_CHECK(committed(remote) == remote_bytes, "lost", "the remote file lost something");
   for (auto &l: locals)
   {
    SIM_CHECK(committed(l.path) == l.bytes, "lost", "%s lost something", l.path.c_str());
    if (sim::vfs_exists(l.path)) {const Read_Result r = read_file(l.path); SIM_CHECK(r.ok, "copy-unreadable", "%s cannot be read: %s", l.path.c_str(), r.error.c_str());}
   }
  }
 };
}

SCENARIO(P18, archive, 8)
{
 Archive a;
 a.run();
}
