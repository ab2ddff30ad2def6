// P25: joedb_server, joedb_multi_server and joedb_client, run from their command
// lines, with users who type commands and read the answers.
// MAINS: joedb_server joedb_multi_server joedb_client joedbi write_lock
#include "scenarios/net.h"
#include "scenarios/tools.h"
#include "joedb/Signal.h"
#include "joedb/ui/Interpreter.h"

#include <iostream>
#include <sstream>
using namespace h;

int joedb_server_main(int, char **);
int joedb_multi_server_main(int, char **);
int joedb_client_main(int, char **);
int joedbi_main(int, char **);
int write_lock_main(int, char **);
extern "C" char __data_start, _end;

namespace
{
 const char *const prompt_end = "> \x1b[0m";

 // std::cin, std::cout, ... and the signal status of joedb: one of each per process
 void separate_processes()
 {
  Net::separate_asio();
  sim::per_node(&std::cin, sizeof(std::cin));
  sim::per_node(&std::cout, sizeof(std::cout));
  sim::per_node(&std::cerr, sizeof(std::cerr));
  sim::per_node(&std::clog, sizeof(std::clog));
  std::vector<int *> found;
  joedb::Signal::set_signal(0x13579bd);
  for (int *p = reinterpret_cast<int *>((uintptr_t(&__data_start) + 3) & ~uintptr_t(3)); reinterpret_cast<char *>(p + 1) <= &_end; p++)
   if (*p == 0x13579bd) found.push_back(p);
  joedb::Signal::set_signal(joedb::Signal::no_signal);
  for (int *p: found)
   if (*p == joedb::Signal::no_signal) sim::per_node(p, sizeof(int));
 }

 // a process with a keyboard and a screen
 struct Terminal
 {
  struct In: std::streambuf
  {
   Terminal &t;
   std::string line;
   In(Terminal &t): t(t) {}
   int_type underflow() override
   {
    {
     sim::Atomic a;
     t.waiting = true;
     if (t.on_wait) {auto f = std::move(t.on_wait); t.on_wait = nullptr; f();}
    }
    sim::wait_until([this]() {return !t.typed.empty() || t.eof;}, INT64_MAX / 4);
    sim::Atomic a;
    t.waiting = false;
    if (t.typed.empty()) return traits_type::eof();
    line = std::move(t.typed);
    t.typed.clear();
    setg(line.data(), line.data(), line.data() + line.size());
    return traits_type::to_int_type(line[0]);
   }
  };
  struct Out: std::streambuf
  {
   std::string &s;
   Out(std::string &s): s(s) {}
   int_type overflow(int_type c) override {sim::Atomic a; if (c != traits_type::eof()) s += char(c); return 0;}
   std::streamsize xsputn(const char *p, std::streamsize n) override {sim::Atomic a; s.append(p, size_t(n)); return n;}
  };
  std::string typed, screen, errors;
  bool eof = false, waiting = false, ended = false;
  std::function<void()> on_wait; // called in the process when it waits for its next command
  std::function<void()> on_end;  // called in the process when it ends
  int result = -1;
  In in{*this};
  Out out{screen}, err{errors};
  sim::Node *node = nullptr;
  sim::Thread *thread = nullptr;

  bool gone() const {return ended || !node->alive;}

  void start(sim::Node *n, int (*f)(int, char **), const std::vector<std::string> &args)
  {
   node = n;
   thread = sim::spawn(n, n->name, [=, this]()
   {
    {
     sim::Atomic a;
     std::cin.clear();
     std::cin.rdbuf(&in);
     std::cout.rdbuf(&out);
     std::cerr.rdbuf(&err);
     std::clog.rdbuf(&err);
    }
    const int r = run_tool(f, args);
    sim::Atomic a;
    result = r;
    ended = true;
    if (on_end) on_end();
   });
  }
 };

 struct Command_World
 {
  double kill_client = 0, kill_server = 0, stop_server = 0, reset = 0, lock_timeout = 0, power = 0;
  bool servers = true, multi = false, chain = false, direct = false;
  int max_clients = 3, max_ops = 6;
  std::string path = "/sim/0/a.joedb", other = "/sim/0/b.joedb", cache = "/sim/1/cache.joedb";
  std::string sock = "/sim/0/a.joedb.sock", sock2 = "/sim/0/b.joedb.sock", chain_sock = "/sim/1/cache.sock";
  Txn_Log log;
  std::deque<Terminal> t; // every process
  Terminal *server = nullptr, *second = nullptr;
  bool disturbed = false, hard = false, shared = false, exclusive = false, timeouts = false, stopped = false, closing = false;
  double timeout_s = 0;
  int generation = 0, runs = 0, user_count = 0;
  std::vector<std::pair<int64_t, uint64_t>> commits; // (time, size of the file) of each acknowledged transaction
  std::string committed;

  static Events without_timestamps(Events e)
  {
   Events r;
   for (auto &s: e) if (s.compare(0, 10, "timestamp ")) r.push_back(std::move(s));
   return r;
  }
  Events schema;

  std::string explain(const Events &file, uint64_t before = UINT64_MAX)
  {
   Events e = without_timestamps(file);
   if (prefix_mismatch(schema, e) >= 0) return "the initial data is damaged";
   e.erase(e.begin(), e.begin() + int64_t(schema.size()));
   return log.explain(e, before);
  }

  static void make_schema(joedb::Writable &w)
  {
   using namespace joedb;
   w.create_table("person");
   w.add_field(Table_Id(1), "name", Type::string());
   w.add_field(Table_Id(1), "age", Type::int32());
   w.add_field(Table_Id(1), "boss", Type::reference(Table_Id(1)));
   w.insert_vector(Table_Id(1), Record_Id(0), 20);
   w.comment("schema");
  }

  void create(const std::string &p)
  {
   sim::Atomic a;
   {
    joedb::File f(p, joedb::Open_Mode::create_new);
    joedb::Writable_Journal j(f);
    make_schema(j);
    j.soft_checkpoint();
    j.hard_checkpoint();
   }
   sim::vfs_put(p, sim::vfs_content(p));
  }

  // ------------------------------------------------------------ servers --
  void faults(sim::Node *n)
  {
   benign(n, 0.002);
   n->rates[sim::K_SHORT_SEND] = n->rates[sim::K_SHORT_RECV] = 0.1;
   n->rates[sim::K_CONN_RESET] = reset;
  }

  Terminal *start(const std::string &name, int machine, int (*f)(int, char **), std::vector<std::string> args, std::function<void(Terminal *)> prepare = nullptr)
  {
   auto *n = sim::new_node(name + std::to_string(runs++), machine);
   faults(n);
   std::string s;
   for (auto &x: args) s += " " + x;
   sim::note("%s:%s", n->name.c_str(), s.c_str());
   t.emplace_back();
   if (prepare) prepare(&t.back());
   t.back().start(n, f, args);
   return &t.back();
  }

  bool listens(const std::string &s) {sim::Atomic a; return sim::vfs_exists(s);}

  void await(Terminal *x, const std::string &s)
  {
   if (!sim::wait_until([&]() {return x->gone() || listens(s);}, 60 * SEC)) sim::fail("liveness", "the server does not start");
   if (x->ended) sim::fail("server-refused", "the server ended with status %d: %s", x->result, x->errors.c_str());
  }

  void start_server()
  {
   sim::vfs_remove(sock);
   sim::vfs_remove(sock2);
   std::vector<std::string> a;
   auto &w = sim::wl();
   const std::string timeout = std::to_string(timeout_s);
   if (multi)
   {
    a = {"joedb_multi_server", "--log", "none"};
    if (timeout_s > 0) a.insert(a.end(), {"--timeout", timeout});
    const bool swapped = w.chance(0.5);
    a.push_back(swapped ? other : path);
    a.push_back(swapped ? path : other);
    server = start("multi", 0, joedb_multi_server_main, a);
    await(server, sock2);
    await(server, sock);
   }
   else
   {
    std::vector<std::vector<std::string>> options;
    options.push_back({"--log", "none"});
    if (timeout_s > 0) options.push_back({"--timeout", timeout});
    if (hard) options.push_back({"--hard_checkpoint"});
    if (generation) options.push_back({"--recovery", "overwrite"});
    if (w.chance(0.3)) options.push_back({"--socket", sock});
    if (w.chance(0.3)) options.push_back({"--check", "full"});
    a = {"joedb_server"};
    while (!options.empty())
    {
     auto i = options.begin() + int64_t(w.below(options.size()));
     a.insert(a.end(), i->begin(), i->end());
     options.erase(i);
    }
    if (w.chance(0.3)) a.push_back("file");
    if (shared) a.push_back("--shared");
    else if (w.chance(0.3)) a.push_back("--write");
    a.push_back(path);
    server = start("server", 0, joedb_server_main, a);
    await(server, sock);
   }
   generation++;
  }

  void start_second()
  {
   sim::vfs_remove(chain_sock);
   std::vector<std::string> a{"joedb_server", "--log", "none", "--socket", chain_sock};
   if (timeout_s > 0) a.insert(a.end(), {"--timeout", std::to_string(timeout_s)});
   // a server with an exclusive file keeps the lock of the first server
   if (!exclusive) a.push_back("--shared");
   a.insert(a.end(), {cache, "local"});
   if (sim::wl().chance(0.4)) a.insert(a.end(), {"--keep_alive", "1"});
   a.push_back(sock);
   second = start("second", 1, joedb_server_main, a);
   await(second, chain_sock);
  }

  void stop_process(Terminal *x, int sig, const char *name, const std::string &s)
  {
   sim::send_signal(x->node, sig);
   if (!sim::join({x->thread}, 60 * SEC)) sim::fail("liveness", "%s does not stop", name);
   SIM_CHECK(x->result == 0, "stop-status", "%s stopped by a signal returned %d: %s", name, x->result, x->errors.c_str());
   SIM_CHECK(!listens(s), "socket-left", "%s left its socket", name);
   sim::probe("servers_stopped");
  }

  // ------------------------------------------------------------ history --
  void acked(size_t i)
  {
   sim::Atomic a;
   log.ack(i);
   const std::string c = sim::vfs_content(path);
   const Read_Result r = read_bytes(c);
   if (r.ok) commits.push_back({sim::now(), uint64_t(r.checkpoint)});
   if (r.ok && r.checkpoint > int64_t(committed.size())) committed = c.substr(0, size_t(r.checkpoint));
  }

  bool may_be_dirty()
  {
   for (auto &x: log.t) if (x.state == St::aborted || (x.node && !x.node->alive)) return true;
   return false;
  }

  void check_immutable()
  {
   if (committed.size() <= 41) return;
   const std::string c = sim::vfs_content(path);
   SIM_CHECK(c.size() >= committed.size() && !memcmp(c.data() + 41, committed.data() + 41, committed.size() - 41), "committed-modified", "acknowledged data was modified");
  }

  // the text of the database after the transactions of the history
  static std::string text_of(const Txn_Log &l, size_t n)
  {
   joedb::Database db;
   make_schema(db);
   for (size_t i = 0; i < n; i++)
    if (l.t[i].state == St::acked) for (auto &o: l.t[i].ops) o(db);
   joedb::Readable_Interpreter x(db);
   x.set_echo(false);
   std::istringstream in("dump\n");
   std::ostringstream out;
   x.main_loop(in, out);
   return out.str();
  }

  // -------------------------------------------------------------- users --
  struct User
  {
   Command_World &w;
   int id;
   sim::Rng r;
   std::string name;
   enum Kind {local_file, memory, server_file, shared_file, copy_file, follow_file, editor, locker} kind = local_file;
   bool db = true, follow = false, tail = false, second = false;
   std::string replica;
   bool fresh = true;            // the local file has to be replaced
   bool dirty = false;           // it may contain an aborted transaction
   Terminal *p = nullptr;
   int next_record = 0, n = 0, lives = 0;
   int64_t granted_at = 0;
   bool hard = false, valid = false, keep_alive = false;
   size_t comments_before = 0;

   User(Command_World &w, int id, uint64_t seed): w(w), id(id), r(seed), name("user" + std::to_string(id)) {}

   [[noreturn]] void wrong(const char *cls, const std::string &what) {sim::fail(cls, "%s: %s", name.c_str(), what.c_str());}

   // A server whose own connection is lost, or that has diverged from its parent,
   // may never answer again: its user gives up.
   bool wait_or_give_up(const std::function<bool()> &f, int64_t timeout)
   {
    if (sim::wait_until(f, timeout)) return true;
    if (!second || !w.disturbed) return false;
    sim::Atomic a;
    sim::crash(p->node);
    sim::probe("given_up");
    return true;
   }

   // types a line, and returns what appears on the screen until the next prompt
   std::string type(const std::string &line, int64_t timeout = 3600 * SEC, bool wait = true)
   {
    size_t from;
    {
     sim::Atomic a;
     from = p->screen.size();
     p->typed = line + "\n";
     p->waiting = false;
     if (sim::verbose) sim::note("%s types: %s", name.c_str(), line.c_str());
    }
    if (!wait) return {};
    return answer(from, line, timeout);
   }
   std::string answer(size_t from, const std::string &line, int64_t timeout = 3600 * SEC)
   {
    if (!wait_or_give_up([&]() {return p->gone() || (p->waiting && p->typed.empty());}, timeout)) wrong("liveness", "no answer to " + line);
    sim::Atomic a;
    if (sim::verbose) sim::note("%s sees: %s", name.c_str(), p->screen.substr(from).c_str());
    return p->screen.substr(from);
   }
   static size_t count(const std::string &s, const std::string &x)
   {
    size_t c = 0;
    for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) c++;
    return c;
   }
   // every command is either executed or reported
   bool ok(const std::string &answer, const std::string &line)
   {
    const bool done = answer.find("OK: " + line + "\n") != std::string::npos, error = answer.find("Exception caught: ") != std::string::npos;
    if (p->gone()) return false;
    if (done == error) wrong("no-answer", "the answer to \"" + line + "\" is neither OK nor an error: " + answer);
    return done;
   }
   // the checkpoint that the prompt shows
   bool prompt(const std::string &answer, int64_t &checkpoint, int64_t &difference)
   {
    bool found = false;
    size_t i = answer.rfind("client(");
    if (i != std::string::npos)
    {
     i += 7;
     char *end;
     checkpoint = strtoll(answer.c_str() + i, &end, 10);
     difference = *end == '+' || *end == '-' ? strtoll(end, &end, 10) : 0;
     found = *end == ')';
    }
    return found;
   }

   std::vector<std::string> arguments()
   {
    std::vector<std::string> a{"joedb_client"};
    std::vector<std::vector<std::string>> options;
    options.push_back({"--log", "none"});
    if (r.chance(0.3)) options.push_back({"--check", r.chance(0.5) ? "full" : "fast"});
    if (hard) options.push_back({"--hard_checkpoint"});
    if (follow) options.push_back({"--db", tail ? "dump_tail" : "dump"});
    else if (!db) options.push_back({"--db", "none"});
    else if (r.chance(0.3)) options.push_back({"--db", "interpreted"});
    if (dirty) options.push_back({"--recovery", "overwrite"});
    while (!options.empty())
    {
     auto i = options.begin() + int64_t(r.below(options.size()));
     a.insert(a.end(), i->begin(), i->end());
     options.erase(i);
    }
    const std::string s = second ? w.chain_sock : w.sock;
    auto local = [&]()
    {
     a.push_back("local");
     keep_alive = r.chance(0.3); // the time-out does not apply while it works
     if (keep_alive) a.insert(a.end(), {"--keep_alive", r.chance(0.5) ? "1" : "0.2"});
     a.push_back(s);
    };
    switch (kind)
    {
     case local_file: if (r.chance(0.3)) a.push_back(r.chance(0.5) ? "--shared" : "--write_or_new"); a.push_back(replica); local(); break;
     case memory: a.push_back("memory"); local(); break;
     case server_file: a.push_back("server"); local(); break;
     case shared_file: if (r.chance(0.5)) a.push_back("--shared"); a.push_back(w.path); if (r.chance(0.2)) a.push_back("dummy"); break;
     case follow_file: a.insert(a.end(), {"--read", w.path}); break;
     case copy_file: a.insert(a.end(), {replica, "file", "--read", w.path}); break;
     case editor: case locker: break;
    }
    return a;
   }

   bool start()
   {
    if (kind == local_file || kind == copy_file)
    {
     if (fresh)
     {
      replica = "/sim/" + std::to_string(2 + id) + "/local" + std::to_string(n++) + ".joedb";
      fresh = false;
      dirty = false;
     }
     else if (dirty && r.chance(0.5))
     {
      // without --recovery, a file with an aborted transaction is refused, and not modified
      std::string before;
      bool really;
      {
       sim::Atomic a;
       before = sim::vfs_content(replica);
       const Read_Result x = read_bytes(before);
       really = x.ok && x.size > x.checkpoint;
      }
      if (really)
      {
       dirty = false;
       launch();
       dirty = true;
       if (p->node->alive && (!p->gone() || p->errors.find("aborted transaction") == std::string::npos)) wrong("dirty-accepted", "a file with an aborted transaction was opened: " + p->errors);
       if (p->node->alive && p->result == 0) wrong("start-status", "the client refused its file, and returned 0: " + p->errors);
       sim::Atomic a;
       SIM_CHECK(before == sim::vfs_content(replica), "dirty-modified", "a file that was refused was modified");
       sim::probe("dirty_files_refused");
      }
     }
    }
    launch();
    comments_before = comments().size();
    if (!p->gone()) return true;
    if (!p->node->alive) return false;
    if (kind == shared_file && !dirty && p->errors.find("aborted transaction") != std::string::npos && w.may_be_dirty())
    {
     dirty = true;
     return start();
    }
    if (!w.disturbed && !w.closing) wrong("client-refused", "the client cannot start: " + p->errors);
    if (p->errors.empty()) wrong("silent-end", "the client ended without a message");
    if (p->result == 0) wrong("start-status", "the client did not start, and returned 0: " + p->errors);
    fresh = true;
    sim::probe("clients_refused");
    return false;
   }
   void launch()
   {
    p = w.start(name + "_", 2 + id, joedb_client_main, arguments());
    if (w.kill_client > 0 && r.chance(w.kill_client)) p->node->crash_at = 1 + r.below(1200);
    if (w.closing) sim::crash(p->node);
    if (!wait_or_give_up([&]() {return p->gone() || p->waiting;}, 3600 * SEC)) wrong("liveness", "the client does not start");
   }

   struct Line {std::string text; Op op; bool bad = false;};
   std::vector<Line> lines(int size)
   {
    using namespace joedb;
    std::vector<Line> v;
    const std::string label = name + " " + std::to_string(n++);
    v.push_back({"comment \"txn " + label + "\"", [label](Writable &x) {x.comment("txn " + label);}});
    for (int i = 0; i < size; i++)
    {
     std::string s;
     for (uint64_t k = r.chance(0.1) ? 3000 + r.below(3000) : r.below(20); k > 0; k--) s += char("abcdefghij xyz"[r.below(14)]);
     const Record_Id id_(r.below(20));
     switch (r.below(db ? 8 : 2))
     {
      case 0: v.push_back({"write_blob \"" + s + "\"", [s](Writable &x) {x.write_blob(s);}}); break;
      case 1: v.push_back({"comment \"" + s + "\"", [s](Writable &x) {x.comment(s);}}); break;
      case 2:
      {
       const Record_Id k(100 + 200 * id + next_record++);
       v.push_back({"insert_into person " + std::to_string(to_underlying(k)), [k](Writable &x) {x.insert_into(Table_Id(1), k);}});
      }
      break;
      case 3: v.push_back({"update person " + std::to_string(to_underlying(id_)) + " boss " + std::to_string(i), [=](Writable &x) {x.update_reference(Table_Id(1), id_, Field_Id(3), Record_Id(i));}}); break;
      case 4: v.push_back({"update person " + std::to_string(to_underlying(id_)) + " age " + std::to_string(i * 1000 + int(s.size())), [=](Writable &x) {x.update_int32(Table_Id(1), id_, Field_Id(2), i * 1000 + int(s.size()));}}); break;
      case 5:
      {
       static const char *const bad[] = {"fly", "insert_into nosuch 1", "insert_into person 3", "update person 5000 name \"x\"", "update person 3 nosuch \"x\"", "delete_from person 4000"};
       v.push_back({bad[r.below(6)], nullptr, true});
      }
      break;
      default: v.push_back({"update person " + std::to_string(to_underlying(id_)) + " name \"" + s + "\"", [=](Writable &x) {x.update_string(Table_Id(1), id_, Field_Id(1), s);}}); break;
     }
    }
    v.push_back({"comment \"end " + label + "\"", [label](Writable &x) {x.comment("end " + label);}});
    return v;
   }

   // returns false when the session has to end
   bool transaction(bool abort)
   {
    const auto v = lines(int(r.below(5)));
    Ops ops;
    for (auto &x: v) if (x.op) ops.push_back(x.op);
    size_t i = SIZE_MAX;
    size_t from;
    {
     sim::Atomic a;
     from = p->screen.size();
     p->on_wait = [&, this]()
     {
      // the first prompt after the command
      if (p->screen.substr(from).find("transaction") == std::string::npos || p->screen.substr(from).find("Exception caught") != std::string::npos) return;
      i = w.log.begin(name, ops, valid);
      w.log.t[i].node = p->node;
      granted_at = sim::now();
     };
    }
    const int64_t asked = sim::now();
    std::string s = type("transaction");
    // a client that keeps its transaction open longer than the time-out does not block the others
    if (w.timeouts && !w.disturbed && !w.shared && i != SIZE_MAX && granted_at - asked > int64_t(w.max_clients * (w.timeout_s * 1e9)) + 5 * SEC)
     wrong("lock-late", "the lock came after " + std::to_string((granted_at - asked) / MS) + " ms; the time-out is " + std::to_string(w.timeout_s));
    {sim::Atomic a; p->on_wait = nullptr;}
    if (p->gone()) return ended(i);
    if (i == SIZE_MAX)
    {
     // the lock could not be taken
     if (s.find("Exception caught: ") == std::string::npos) wrong("no-answer", "the answer to \"transaction\" is neither a prompt nor an error: " + s);
     if (!w.disturbed) wrong("transaction-refused", "a transaction could not start: " + s);
     sim::probe("transactions_refused");
     return false;
    }
    const bool coffee = w.timeouts && !keep_alive && r.chance(0.1);
    for (auto &x: v)
    {
     if (coffee && &x == &v.front()) {sim::sleep_for(60 * SEC); sim::probe("slow_users");}
     if (r.chance(0.2)) sim::sleep_for(int64_t(r.below(w.timeouts ? 1500 : 300)) * MS);
     s = type(x.text);
     if (p->gone()) return ended(i);
     if (ok(s, x.text) == x.bad) wrong(x.bad ? "bad-command-accepted" : "command-refused", "command \"" + x.text + "\": " + s);
     if (x.bad) sim::probe("bad_commands");
    }
    {
     sim::Atomic a;
     from = p->screen.size();
     // the commit happens before the next prompt
     p->on_wait = [&, this]()
     {
      if (abort) return;
      if (p->screen.substr(from).find("OK: transaction\n") != std::string::npos) w.acked(i);
     };
    }
    if (abort) w.log.abort(i);
    s = type(abort ? "abort" : "quit");
    {sim::Atomic a; p->on_wait = nullptr;}
    if (abort)
    {
     dirty = true;
     if (p->gone()) return false;
     if (s.find("Exception caught: ") == std::string::npos || s.find("OK: transaction\n") != std::string::npos) wrong("abort-not-reported", "an aborted transaction was answered by: " + s);
     sim::probe("aborted");
     return false;
    }
    if (p->gone() && w.log.t[i].state != St::acked) return ended(i);
    if (w.log.t[i].state == St::acked)
    {
     int64_t c, d;
     if (!w.disturbed && prompt(s, c, d) && d < 0) wrong("prompt-wrong", "after a commit, the prompt says that something remains to be pushed: " + s);
     return !p->gone();
    }
    if (s.find("Exception caught: ") == std::string::npos) wrong("no-answer", "the end of a transaction is neither confirmed nor refused: " + s);
    if (!w.disturbed && !(w.timeouts && sim::now() - granted_at >= int64_t(w.timeout_s * 1e9))) wrong("commit-refused", "a commit was refused: " + s);
    sim::probe("commits_refused");
    w.log.doubt(i);
    fresh = true;
    return false;
   }
   bool ended(size_t i)
   {
    sim::Atomic a;
    if (i != SIZE_MAX && w.log.t[i].state == St::running) w.log.doubt(i);
    fresh = true;
    if (p->node->alive && !w.disturbed) wrong("client-ended", "the client ended in a command: " + p->errors);
    return false;
   }

   bool pull(const std::string &command)
   {
    uint64_t size, step;
    {
     sim::Atomic a;
     size = w.committed.size();
     step = sim::step();
    }
    const std::string s = type(command);
    if (p->gone()) {fresh = true; return false;}
    if (!ok(s, command))
    {
     if (!w.disturbed) wrong("pull-refused", "a pull was refused: " + s);
     fresh = true;
     return false;
    }
    int64_t c, d;
    if (prompt(s, c, d))
    {
     if (c < int64_t(size)) wrong("pull-stale", "after a pull, the checkpoint is " + std::to_string(c) + "; " + std::to_string(size) + " bytes were committed before");
     if (d > 0 && !w.disturbed) wrong("prompt-wrong", "after a pull, the prompt says that something remains to be pulled: " + s);
    }
    else wrong("no-prompt", s);
    if (follow) check_comments(step);
    return true;
   }

   // the screen after the command dump: the transactions that were committed
   // before, and perhaps others
   void check_dump(const std::string &s, uint64_t before)
   {
    sim::Atomic a;
    bool known = true;
    for (auto &x: w.log.t) known &= x.state != St::running && x.state != St::doubt;
    const size_t end = s.find("OK: dump\n");
    if (end == std::string::npos) wrong("no-answer", "dump: " + s);
    if (!known) return;
    const std::string got = s.substr(0, end);
    bool found = false;
    size_t k = w.log.t.size();
    while (true)
    {
     if (got == text_of(w.log, k)) {found = true; break;}
     if (k == 0) break;
     k--;
     if (w.log.t[k].state == St::acked && w.log.t[k].ack <= before) break;
    }
    if (!found) wrong("database-wrong", "the database is not the result of the committed transactions:\n" + got.substr(0, 1000) + "\nexpected:\n" + text_of(w.log, w.log.t.size()).substr(0, 1000));
    sim::probe("databases_checked");
   }

   // the database, as the client shows it
   bool show(uint64_t before)
   {
    if (follow || !db) return true;
    std::string s = type("db");
    if (!p->gone()) s = type("dump");
    if (p->gone()) {fresh = true; return false;}
    check_dump(s, before);
    s = type("quit");
    if (p->gone()) fresh = true;
    return !p->gone();
   }

   // what a follower has printed: the comments of the history, in order
   void check_comments(uint64_t before)
   {
    sim::Atomic a;
    Events got;
    std::istringstream screen(p->screen);
    for (std::string l; std::getline(screen, l);)
    {
     if (const size_t k = l.rfind("\x1b[0m"); k != std::string::npos) l.erase(0, k + 4);
     if (!l.compare(0, 9, "comment \"") && l.size() > 9) got.push_back(brief(l.substr(9, l.size() - 10)));
    }
    const Events want = comments();
    // everything that was committed before is there
    size_t end = 0;
    for (auto &y: w.log.t)
     if (y.state == St::acked && y.ack <= before)
      for (size_t i = 0; i < want.size(); i++)
       if (want[i] == y.e[y.e.size() - 1 - (y.e.back() == "valid_data")].substr(8)) end = std::max(end, i + 1);
    bool found = false;
    size_t mismatch = 0;
    for (size_t skip = 0; skip <= (tail ? comments_before : 0) && !found; skip++)
    {
     size_t i = 0;
     while (i < got.size() && skip + i < want.size() && got[i] == want[skip + i]) i++;
     mismatch = std::max(mismatch, i);
     found = i == got.size() && (skip + i >= end);
    }
    if (!found) wrong("follower-wrong", "what is shown (" + std::to_string(got.size()) + " comments) differs from the history at comment " + std::to_string(mismatch) + ": " + (mismatch < got.size() ? got[mismatch] : "(end)") + "; " + std::to_string(end) + " were committed before the pull");
    sim::probe("follower_checks");
   }
   Events comments()
   {
    sim::Atomic a;
    const Read_Result f = read_bytes(sim::vfs_content(w.path));
    Events r;
    for (auto &y: f.e) if (!y.compare(0, 8, "comment ")) r.push_back(y.substr(8));
    return r;
   }

   // pull_every or push_every until Ctrl-C
   bool every(bool push)
   {
    const double wait = 0.2 + double(r.below(20)) / 10, sleep = r.chance(0.5) ? (kind >= shared_file ? 0.3 : 0) : double(r.below(25)) / 10;
    std::ostringstream o;
    if (push) o << "push_every " << sleep; else o << "pull_every " << wait << ' ' << sleep;
    size_t from;
    {sim::Atomic a; from = p->screen.size();}
    if (push && sleep == 0) o << ".5";
    const std::string command = o.str();
    type(command, 0, false);
    sim::sleep_for(int64_t(r.below(8000)) * MS);
    uint64_t size = 0;
    {
     sim::Atomic a;
     const int64_t margin = int64_t(sleep * 1e9) + 3 * SEC;
     for (auto &x: w.commits) if (x.first + margin < sim::now()) size = std::max(size, x.second);
     if (p->gone()) {fresh = true; if (p->node->alive && !w.disturbed) wrong("client-ended", p->errors); return false;}
     if (p->waiting && p->typed.empty())
     {
      if (!w.disturbed) wrong("loop-ended", command + " ended: " + p->screen.substr(from));
      fresh = true;
      return false;
     }
    }
    if (!sim::wait_until([&]() {return p->gone() || p->node->handlers.count(2);}, 60 * SEC)) wrong("liveness", command + " does not catch signals");
    sim::sleep_for(2 * SEC); // a signal that comes before the command starts is ignored
    if (p->gone()) {fresh = true; return false;}
    const int64_t t = sim::now();
    sim::send_signal(p->node, 2);
    const std::string s = answer(from, command, w.disturbed ? 3600 * SEC : 600 * SEC);
    if (p->gone()) {fresh = true; if (p->node->alive && !w.disturbed) wrong("client-ended", p->errors); return false;}
    if (!ok(s, command))
    {
     if (!w.disturbed) wrong("pull-refused", command + ": " + s);
     fresh = true;
     return false;
    }
    if (!w.disturbed && sim::now() - t > int64_t(wait * 1e9) + 6 * SEC) wrong("slow-stop", command + " stopped " + std::to_string((sim::now() - t) / MS) + " ms after Ctrl-C");
    int64_t c, d;
    if (!prompt(s, c, d)) wrong("no-prompt", s);
    if (!push && !w.disturbed && c < int64_t(size)) wrong("loop-stale", command + " has not seen what was committed long before");
    sim::probe("loops");
    return true;
   }

   void session()
   {
    valid = false;
    if (!start()) return;
    if (follow) {sim::Atomic a;}
    const bool writer = !follow && kind != copy_file;
    for (int op = 1 + int(r.below(uint64_t(w.max_ops))); op > 0 && !p->gone() && !w.closing; op--)
    {
     sim::sleep_for(int64_t(r.below(r.chance(0.1) ? 5000 : 300)) * MS);
     if (p->gone()) break;
     switch (r.below(10))
     {
      case 0: case 1: case 2: case 3: case 4:
      if (writer) {if (!transaction(r.chance(0.1))) goto end;}
      else if (!pull("pull")) goto end;
      break;
      case 5:
      {
       const uint64_t step = sim::step();
       if (!pull("pull")) goto end;
       if (!show(step)) goto end;
      }
      break;
      case 6: if (!pull("pull 0.7")) goto end; break;
      case 7:
      {
       const bool push = writer && r.chance(0.5);
       if (!every(push)) goto end;
      }
      break;
      case 8:
      {
       const std::string s = type("push");
       if (p->gone()) {fresh = true; goto end;}
       const bool good = ok(s, "push");
       if (!good && !follow)
       {
        if (!w.disturbed) wrong("push-refused", s);
        fresh = true;
        goto end;
       }
      }
      break;
      default:
      if (writer)
      {
       valid = r.chance(0.5);
       const std::string c = valid ? "set_valid_data true" : "set_valid_data false", s = type(c);
       if (p->gone()) {fresh = true; goto end;}
       if (!ok(s, c)) wrong("command-refused", s);
       if (r.chance(0.5)) type(r.chance(0.5) ? "set_timestamp true" : "set_timestamp false");
       if (p->gone()) {fresh = true; goto end;}
      }
      break;
     }
    }
    end:
    if (p->gone()) return;
    if (r.chance(0.5)) type("quit");
    else {sim::Atomic a; p->eof = true;}
    if (!wait_or_give_up([&]() {return p->gone();}, 3600 * SEC)) wrong("liveness", "the client does not quit");
    if (p->node->alive)
    {
     if (p->result != 0) wrong("quit-status", "the client returned " + std::to_string(p->result) + ": " + p->errors);
     sim::probe("sessions");
    }
    else fresh = true;
   }

   void set_kills()
   {
    if (w.kill_client > 0 && r.chance(w.kill_client)) p->node->crash_at = 1 + r.below(600);
    if (w.closing) sim::crash(p->node);
   }

   // joedbi: the whole session is one transaction
   void edit()
   {
    auto options = [&](std::vector<std::string> x)
    {
     std::vector<std::string> a{"joedbi", "--log", "none"};
     if (r.chance(0.3)) a.insert(a.end(), {"--max_record_id", "100000"});
     if (r.chance(0.3)) a.push_back("file");
     a.insert(a.end(), x.begin(), x.end());
     a.push_back(w.path);
     return a;
    };
    if (r.chance(0.3))
    {
     const uint64_t step = sim::step();
     p = w.start(name + "_", 2 + id, joedbi_main, options({"--read"}));
     set_kills();
     if (!sim::wait_until([&]() {return p->gone() || p->waiting;}, 3600 * SEC)) wrong("liveness", "joedbi does not start");
     if (p->ended) wrong("reader-refused", "joedbi --read: " + p->errors);
     if (p->gone()) return;
     const std::string s = type("dump");
     if (p->gone()) return;
     check_dump(s, step);
     type("quit");
     if (!sim::wait_until([&]() {return p->gone();}, 3600 * SEC)) wrong("liveness", "joedbi does not quit");
     if (p->node->alive && p->result != 0) wrong("quit-status", "joedbi --read: " + p->errors);
     return;
    }
    const auto v = lines(int(r.below(5)));
    Ops ops;
    for (auto &x: v) if (x.op) ops.push_back(x.op);
    size_t i = SIZE_MAX;
    const bool abort = r.chance(0.15);
    p = w.start(name + "_", 2 + id, joedbi_main, options(r.chance(0.3) ? std::vector<std::string>{r.chance(0.5) ? "--write" : "--write_or_new"} : std::vector<std::string>{}), [&, this](Terminal *x)
    {
     x->on_wait = [&, this, x]()
     {
      i = w.log.begin(name, ops);
      w.log.t[i].node = x->node;
     };
     x->on_end = [&, this, x]()
     {
      if (i != SIZE_MAX && x->result == 0) w.acked(i);
     };
    });
    set_kills();
    if (!sim::wait_until([&]() {return p->gone() || p->waiting;}, 3600 * SEC)) wrong("liveness", "joedbi does not start");
    if (i == SIZE_MAX)
    {
     if (!p->node->alive) return;
     const bool dirty = p->errors.find("aborted transaction") != std::string::npos && w.may_be_dirty();
     if (p->errors.empty() || p->result == 0) wrong("silent-end", "joedbi does not start, and returns " + std::to_string(p->result) + ": " + p->errors);
     if (w.user_count == 1 && !w.servers && !dirty) wrong("client-refused", "joedbi cannot open the file: " + p->errors);
     sim::probe("editors_refused");
     return;
    }
    for (auto &x: v)
    {
     if (p->gone()) break;
     if (r.chance(0.2)) sim::sleep_for(int64_t(r.below(300)) * MS);
     const std::string s = type(x.text);
     if (p->gone()) break;
     if (ok(s, x.text) == x.bad) wrong(x.bad ? "bad-command-accepted" : "command-refused", "command \"" + x.text + "\": " + s);
    }
    if (!p->gone())
    {
     if (abort) w.log.abort(i);
     if (abort || r.chance(0.5)) type(abort ? "abort" : "quit");
     else {sim::Atomic a; p->eof = true;}
     if (!sim::wait_until([&]() {return p->gone();}, 3600 * SEC)) wrong("liveness", "joedbi does not quit");
    }
    sim::Atomic a;
    p->on_end = nullptr;
    if (p->ended && (p->result == 0) == abort) wrong("quit-status", std::string(abort ? "aborted" : "quit") + ", but joedbi returned " + std::to_string(p->result) + ": " + p->errors);
    if (w.log.t[i].state == St::running) w.log.doubt(i);
    sim::probe("editor_sessions");
   }

   // write_lock: nobody writes while the file is locked
   void lock()
   {
    p = w.start(name + "_", 2 + id, write_lock_main, {"joedb_write_lock", w.path});
    set_kills();
    if (!sim::wait_until([&]() {return p->gone() || p->waiting;}, 3600 * SEC)) wrong("liveness", "write_lock waits for ever");
    if (p->ended) wrong("client-refused", "write_lock: " + p->errors);
    if (p->gone()) return;
    std::string before;
    {
     sim::Atomic a;
     if (p->screen.find("Locked. ") == std::string::npos) wrong("no-answer", p->screen);
     before = sim::vfs_content(w.path);
    }
    sim::sleep_for(int64_t(r.below(3000)) * MS);
    {
     sim::Atomic a;
     if (p->gone()) return;
     SIM_CHECK(before == sim::vfs_content(w.path), "locked-written", "the file was modified while write_lock held it");
     p->typed = "\n";
     p->waiting = false;
     sim::probe("locks");
    }
    if (!sim::wait_until([&]() {return p->gone();}, 3600 * SEC)) wrong("liveness", "write_lock does not end");
   }

   void run()
   {
    for (int life = 1 + int(r.below(3)); life > 0 && !w.closing; life--)
    {
     if (kind == editor) {sim::sleep_for(int64_t(r.below(2000)) * MS); edit();}
     else if (kind == locker) {sim::sleep_for(int64_t(r.below(2000)) * MS); lock();}
     else session();
    }
   }
  };

  void run()
  {
   auto &w = sim::wl();
   quiet_destructors();
   separate_processes();
   {
    sim::Atomic a;
    Recorder rec;
    make_schema(rec);
    schema = rec.e;
   }
   create(path);
   if (multi) create(other);
   committed = sim::vfs_content(path);
   disturbed = kill_server > 0 || reset > 0 || power > 0 || stop_server > 0;
   timeouts = lock_timeout > 0 && w.chance(lock_timeout);
   if (timeouts) timeout_s = 0.3 + double(w.below(30)) / 10;
   hard = power > 0;
   shared = servers && !multi && direct && w.chance(0.7);
   sim::vfs_on_write([this](const std::string &p) {if (p == path) check_immutable();});
   if (servers) start_server();
   exclusive = chain && w.chance(0.3);
   if (chain) start_second();
   std::deque<User> users;
   std::vector<sim::Thread *> threads;
   const int count = 1 + int(w.below(uint64_t(max_clients)));
   for (int i = 0; i < count; i++)
   {
    users.emplace_back(*this, i, w.next());
    User &u = users.back();
    user_count = count;
    if (!servers) u.kind = w.chance(0.25) ? User::copy_file : w.chance(0.25) && power == 0 ? User::editor : w.chance(0.1) ? User::locker : User::shared_file;
    else if (shared && w.chance(0.2)) u.kind = w.chance(0.5) && power == 0 ? User::editor : User::locker;
    else if (shared && w.chance(0.3)) u.kind = User::shared_file;
    else u.kind = std::vector<User::Kind>{User::local_file, User::local_file, User::memory, User::server_file}[w.below(4)];
    u.db = w.chance(0.7);
    u.second = chain && (exclusive || w.chance(0.6));
    u.hard = power > 0 ? u.kind == User::shared_file || w.chance(0.3) : w.chance(0.2);
    if (u.kind < User::editor && w.chance(0.2)) {u.follow = true; u.kind = User::follow_file; u.tail = w.chance(0.5);}
    auto *n = sim::new_node("human" + std::to_string(i), 9);
    threads.push_back(sim::spawn(n, n->name, [&u]() {u.run();}));
   }
   auto all_done = [&]() {for (auto *x: threads) if (!sim::finished(x)) return false; return true;};
   for (int life = 0; life < 3 && servers; life++)
   {
    const bool kill = w.chance(kill_server), stop = w.chance(stop_server);
    if (!kill && !stop) continue;
    sim::sleep_for(int64_t(w.below(4000)) * MS);
    if (all_done()) break;
    const bool first = !chain || w.chance(0.5);
    Terminal *x = first ? server : second;
    if (kill && (!stop || w.chance(0.5))) {sim::crash(x->node); sim::probe("server_kills");}
    else stop_process(x, w.chance(0.5) ? SIGINT : SIGTERM, "the server", first ? sock : chain_sock);
    sim::nontrivial();
    sim::sleep_for(int64_t(w.below(3000)) * MS);
    if (first) start_server(); else start_second();
   }
   if (power > 0 && w.chance(power))
   {
    sim::sleep_for(int64_t(w.below(6000)) * MS);
    {
     sim::Atomic a;
     closing = true;
     for (auto &x: t) if (x.node->machine > 0 && !x.gone()) sim::crash(x.node);
    }
    sim::power_fail(0);
    sim::probe("power_failures");
    sim::nontrivial();
    if (!sim::join(threads, 36000 * SEC)) sim::fail("liveness", "users");
    sim::Atomic a;
    settle();
    const Read_Result r = read_file(path, joedb::Recovery::none, true);
    SIM_CHECK(r.ok, "unreadable", "after a power failure: %s", r.error.c_str());
    const std::string x = explain(r.e);
    SIM_CHECK(x.empty(), "acknowledged-lost", "after a power failure: %s", x.c_str());
    return;
   }
   if (!sim::join(threads, 36000 * SEC)) sim::fail("liveness", "the users did not finish:");
   if (count > 1) sim::nontrivial();
   sim::sleep_for(10 * SEC);
   if (chain) stop_process(second, SIGINT, "the second server", chain_sock);
   if (servers) stop_process(server, w.chance(0.5) ? SIGINT : SIGTERM, "the server", sock);
   sim::Atomic a;
   settle();
   const Read_Result r = read_file(path);
   SIM_CHECK(r.ok, "unreadable", "the file cannot be read: %s", r.error.c_str());
   const std::string x = explain(r.e);
   SIM_CHECK(x.empty(), "history-wrong", "%s", x.c_str());
   if (multi)
   {
    const Read_Result o = read_file(other);
    SIM_CHECK(o.ok && o.e == schema, "other-modified", "the other file of the server was modified");
   }
   if (chain && !disturbed)
   {
    const Read_Result c = read_file(cache);
    SIM_CHECK(c.ok && prefix_mismatch(c.e, r.e) < 0, "cache-differs", "%s", diff_text(c.e, r.e).c_str());
   }
   sim::probe("final_checks");
  }
  void settle()
  {
   for (auto &x: log.t) if (x.state == St::running) x.state = St::doubt;
  }
 };
}

SCENARIO(P25, commands_calm, 10)
{
 Command_World w;
 w.direct = sim::wl().chance(0.4);
 w.run();
}

SCENARIO(P25, commands_multi, 5)
{
 Command_World w;
 w.multi = true;
 w.run();
}

SCENARIO(P25, commands_chain, 6)
{
 Command_World w;
 w.chain = true;
 w.stop_server = sim::wl().chance(0.5) ? 0.5 : 0;
 w.run();
}

SCENARIO(P25, commands_timeout, 6)
{
 Command_World w;
 w.lock_timeout = 1;
 w.multi = sim::wl().chance(0.3);
 w.run();
}

SCENARIO(P25, commands_restart, 8)
{
 Command_World w;
 w.kill_server = 0.4;
 w.stop_server = 0.6;
 w.run();
}

SCENARIO(P25, commands_reset, 6)
{
 Command_World w;
 w.reset = 0.01;
 w.direct = sim::wl().chance(0.3);
 w.run();
}

SCENARIO(P25, commands_kill, 6)
{
 Command_World w;
 w.kill_client = 0.5;
 w.run();
}

SCENARIO(P25, commands_files, 8)
{
 Command_World w;
 w.servers = false;
 w.kill_client = sim::wl().chance(0.3) ? 0.4 : 0;
 w.run();
}

SCENARIO(P25, commands_power, 6)
{
 Command_World w;
 w.servers = sim::wl().chance(0.6);
 w.direct = w.servers && sim::wl().chance(0.3);
 w.power = 1;
 w.run();
}
