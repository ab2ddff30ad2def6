// P19: the offline tools work on one committed state of a live file, never
// touch it, and their output is all or nothing.
// MAINS: joedb_convert joedb_pack joedb_merge joedb_logdump joedb_to_json
#include "scenarios/world.h"
#include "scenarios/tools.h"
#include "joedb/ui/inplace_pack.h"

#include <iostream>
#include <sstream>
using namespace h;

int joedb_convert_main(int, char **);
int joedb_pack_main(int, char **);
int joedb_merge_main(int, char **);
int joedb_logdump_main(int, char **);
int joedb_to_json_main(int, char **);

namespace
{
 int64_t published(const std::string &d)
 {
  if (d.size() < 41) return 0;
  int64_t pos[4];
  memcpy(pos, d.data(), 32);
  int64_t r = 41;
  for (int i = 0; i < 2; i++)
  {
   if (pos[2 * i] == pos[2 * i + 1]) r = std::max(r, pos[2 * i]);
   for (int j = 0; j < 2; j++) r = std::max(r, -pos[2 * i + j]);
  }
  return r;
 }

 // a clean file that contains these bytes until this checkpoint
 std::string snapshot(const std::string &d, int64_t c)
 {
  std::string s = d.substr(0, size_t(c));
  const int64_t pos[4] = {c, c, 0, 0};
  memcpy(s.data(), pos, 32);
  return s;
 }

 enum {convert, pack, merge, logdump, raw_dump, load_dump, json, json_base64, sql, blob_dump, tool_count};
 const char *const tool_names[] = {"joedb_convert", "joedb_pack", "joedb_merge", "joedb_logdump", "joedb_logdump --raw", "joedb_logdump --load", "joedb_to_json", "joedb_to_json --base64", "joedb_logdump --sql", "joedb_logdump --blob"};

 struct Outcome
 {
  int code = -1;
  bool finished = false;
  std::string out;   // file or standard output
  bool exists = false;
 };

 struct Tool_World: World
 {
  const std::string other = "/sim/0/other.joedb", result = "/sim/0/result.joedb", quiet_input = "/sim/9/quiet.joedb", quiet_result = "/sim/9/quiet_result.joedb";
  double disk_errors = 0, tool_kill = 0;
  sim::Node *tool_node = nullptr;
  std::set<int64_t> candidates;
  int runs = 0;
  bool other_only = false;

  std::vector<std::string> arguments(int tool, const std::string &input, const std::string &output, bool twice)
  {
   switch (tool)
   {
    case convert: return {"joedb_convert", input, output};
    case pack: return {"joedb_pack", input, output};
    case merge: if (other_only) return {"joedb_merge", other, output}; if (twice) return {"joedb_merge", other, input, output}; return {"joedb_merge", input, output};
    case logdump: return {"joedb_logdump", input};
    case raw_dump: return {"joedb_logdump", "--raw", input};
    case load_dump: return {"joedb_logdump", "--load", input};
    case json: return {"joedb_to_json", input};
    case json_base64: return {"joedb_to_json", "--base64", input};
    case sql: return {"joedb_logdump", "--sql", input};
    default: return {"joedb_logdump", "--blob", input};
   }
  }

  static int call(int tool, const std::vector<std::string> &args)
  {
   switch (tool)
   {
    case convert: return run_tool(joedb_convert_main, args);
    case pack: return run_tool(joedb_pack_main, args);
    case merge: return run_tool(joedb_merge_main, args);
    case json: case json_base64: return run_tool(joedb_to_json_main, args);
    default: return run_tool(joedb_logdump_main, args);
   }
  }

  static bool has_file(int tool) {return tool == convert || tool == pack || tool == merge;}

  // the real tool, alone, on an input that nobody modifies
  Outcome quietly(int tool, const std::string &data, bool twice)
  {
   sim::Atomic a;
   Outcome o;
   sim::vfs_put(quiet_input, data);
   if (sim::vfs_exists(quiet_result)) sim::vfs_remove(quiet_result);
   std::ostringstream s;
   std::streambuf *old = std::cout.rdbuf(s.rdbuf());
   o.code = call(tool, arguments(tool, quiet_input, quiet_result, twice));
   std::cout.rdbuf(old);
   o.finished = true;
   if (has_file(tool)) {o.exists = sim::vfs_exists(quiet_result); if (o.exists) o.out = sim::vfs_content(quiet_result);}
   else o.out = without_name(s.str());
   return o;
  }

  static std::string without_name(std::string s)
  {
   for (const char *n: {"/sim/9/quiet.joedb", "/sim/0/w.joedb"})
    for (size_t p; (p = s.find(n)) != std::string::npos;) s.erase(p, strlen(n));
   return s;
  }

  void use_tool(int tool, bool twice, uint64_t kill_at)
  {
   {
    sim::Atomic a;
    if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41) return;
    if (sim::vfs_exists(result)) sim::vfs_remove(result);
    candidates.clear();
    candidates.insert(published(sim::vfs_content(path)));
    if (twice && !sim::vfs_exists(other)) sim::vfs_put(other, snapshot(sim::vfs_content(path), published(sim::vfs_content(path))));
   }
   const std::string who = std::string("tool") + std::to_string(runs++);
   tool_node = sim::new_node(who, 0);
   benign(tool_node, 0.02);
   tool_node->rates[sim::K_SHORT_READ] = k.short_io;
   tool_node->rates[sim::K_SHORT_WRITE] = k.short_io;
   tool_node->rates[sim::K_EIO_READ] = disk_errors;
   tool_node->rates[sim::K_EIO_WRITE] = disk_errors;
   tool_node->rates[sim::K_ENOSPC] = disk_errors;
   tool_node->crash_at = kill_at;
   Outcome o;
   const uint64_t start = sim::step();
   const std::string input = path;
   const auto args = arguments(tool, input, result, twice);
   const uint64_t errors = sim::fault_count(sim::K_EIO_READ) + sim::fault_count(sim::K_EIO_WRITE) + sim::fault_count(sim::K_ENOSPC);
   std::ostringstream s;
   std::streambuf *old = std::cout.rdbuf(s.rdbuf());
   auto *t = sim::spawn(tool_node, who, [&]() {o.code = call(tool, args); o.finished = true;});
   if (!sim::join({t}, 3600 * SEC)) sim::fail("liveness", "%s does not finish", tool_names[tool]);
   std::cout.rdbuf(old);
   sim::Atomic a;
   const bool failed = sim::fault_count(sim::K_EIO_READ) + sim::fault_count(sim::K_EIO_WRITE) + sim::fault_count(sim::K_ENOSPC) > errors;
   if (has_file(tool)) {o.exists = sim::vfs_exists(result); if (o.exists) o.out = sim::vfs_content(result);}
   else o.out = without_name(s.str());
   const std::set<int64_t> c = candidates;
   sim::Node *n = tool_node;
   tool_node = nullptr;
   sim::nontrivial();
   sim::probe("tools_run");
   if (c.size() > 1) sim::probe("tools_with_commits_meanwhile");
   if (failed) sim::probe("tools_with_disk_errors");

   const std::string data = sim::vfs_content(path);
   bool complete = false, reported = false;
   Read_Result r;
   if (has_file(tool))
   {
    if (!o.exists) reported = true;
    else
    {
     r = read_bytes(o.out);
     if (!r.ok || r.checkpoint == 41) reported = true; // nothing is published
    }
   }
   // a file that cannot be read is reported, and left out of a merge
   const int variants = tool == merge && twice && failed ? 3 : 1;
   for (int variant = 0; variant < variants; variant++)
   for (int64_t x: c)
   {
    other_only = variant == 2;
    const Outcome q = quietly(tool, snapshot(data, x), twice && variant == 0);
    other_only = false;
    if (has_file(tool))
    {
     if (!q.exists) continue;
     const Read_Result e = read_bytes(q.out);
     if (q.code == 0 && o.exists && r.ok && e.ok && e.e == r.e && e.checkpoint == r.checkpoint && r.size == o.out.size() && (o.code != 0 || r.size == r.checkpoint)) complete = true;
    }
    else if (q.code == 0 && o.out == q.out) complete = true;
    if (q.code != 0 && o.code != 0 && o.out == q.out) return; // the tool refuses this content
   }
   if (!n->alive)
   {
    sim::probe(complete ? "killed_tools_with_complete_output" : "killed_tools_without_output");
    if (has_file(tool)) SIM_CHECK(complete || reported, "torn-output", "%s was killed, and its output publishes %ld bytes that are not the result for any committed state", tool_names[tool], r.checkpoint);
    return;
   }
   if (o.code != 0)
   {
    SIM_CHECK(failed, "tool-failed", "%s returned %d", tool_names[tool], o.code);
    if (has_file(tool)) SIM_CHECK(complete || reported, "torn-output", "%s returned an error, and its output publishes %ld bytes that are not the result for any committed state", tool_names[tool], r.checkpoint);
    sim::probe("tools_that_reported_an_error");
    return;
   }
   SIM_CHECK(complete, "wrong-output", "%s returned 0, but its output (%zu bytes) is not the result for any of the %zu states that were committed while it ran", tool_names[tool], o.out.size(), c.size());
   if (tool == convert)
   {
    const std::string x = log.explain(r.e, start);
    SIM_CHECK(x.empty(), "wrong-output", "joedb_convert: %s", x.c_str());
   }
   if (tool == pack)
   {
    // packing does not change the database
    joedb::Database db;
    sim::vfs_put("/sim/9/p", o.out);
    {
     joedb::File f("/sim/9/p", joedb::Open_Mode::read_existing);
     joedb::Readonly_Journal j(f);
     j.replay_log(db);
    }
    const Events got = dump_of(db);
    bool found = false;
    for (int64_t x: c)
    {
     joedb::Database d2;
     sim::vfs_put("/sim/9/p", snapshot(data, x));
     joedb::File f("/sim/9/p", joedb::Open_Mode::read_existing);
     joedb::Readonly_Journal j(f);
     j.replay_log(d2);
     if (dump_of(d2) == got) found = true;
    }
    SIM_CHECK(found, "wrong-output", "the packed file does not contain the database of any committed state");
   }
   sim::probe("tool_outputs_checked");
  }

  void running(const std::vector<sim::Thread *> &threads) override
  {
   auto &w = sim::wl();
   auto all_done = [&]() {for (auto *t: threads) if (!sim::finished(t)) return false; return true;};
   int n = 1 + int(w.below(4));
   while (n > 0)
   {
    sim::sleep_for(int64_t(1 + w.below(300)) * k.sleep_unit / 4);
    int tool = int(w.below(tool_count));
    if (!db_mode && tool != convert && tool != raw_dump) tool = w.chance(0.6) ? convert : raw_dump;
    use_tool(tool, w.chance(0.5), w.chance(tool_kill) ? 1 + w.below(80) : 0);
    n--;
    if (all_done() && w.chance(0.5)) break;
   }
  }

  void go()
  {
   quiet_destructors();
   auto &w = sim::wl();
   setup();
   // many of these tools report to the error stream
   std::ostringstream sink;
   std::cerr.rdbuf(sink.rdbuf());
   sim::vfs_on_write([this](const std::string &p)
   {
    if (p != path) return;
    check_immutable();
    SIM_CHECK(!tool_node || sim::self_node() != tool_node, "input-modified", "a tool modified the file that it reads");
    candidates.insert(published(sim::vfs_content(path)));
   });
   const int lives = 1 + int(w.below(uint64_t(k.max_lives)));
   for (int life = 0; life < lives; life++) one_life(life);
  }
 };

 void knobs(Tool_World &w)
 {
  w.k.sleep_unit = 20 * US;
  w.k.db = 0.75;
  w.k.max_writers = 2;
  w.k.max_readers = 0;
  w.k.short_io = sim::wl().chance(0.3) ? 0.1 : 0;
  w.k.abort = 0.1;
  w.k.kill = 0.15;
 }
}

SCENARIO(P19, tools_live, 10)
{
 Tool_World w;
 knobs(w);
 w.go();
}

SCENARIO(P19, tools_faults, 8)
{
 Tool_World w;
 knobs(w);
 auto &r = sim::wl();
 if (r.chance(0.5)) w.disk_errors = 0.02; else w.tool_kill = 0.7;
 w.go();
}

// inplace_pack: whatever happens, the data is in the file or in the file that it replaces
SCENARIO(P19, inplace_pack, 6)
{
 quiet_destructors();
 auto &w = sim::wl();
 World world;
 world.k.db = 1;
 world.k.max_lives = 1;
 world.k.max_readers = 0;
 world.k.max_writers = 1;
 world.k.big = 0.1;
 world.setup();
 world.one_life(0);
 const std::string path = world.path;
 if (!sim::vfs_exists(path) || sim::vfs_content(path).size() < 41) return;
 sim::vfs_on_write([](const std::string &) {});
 sim::vfs_sync_all();
 const std::string before = sim::vfs_content(path);
 Events expected;
 auto database = [](const std::string &data, Events &e) -> bool
 {
  sim::Atomic a;
  sim::vfs_put("/sim/9/p", data);
  try
  {
   joedb::Database db;
   joedb::File f("/sim/9/p", joedb::Open_Mode::read_existing);
   joedb::Readonly_Journal j(f);
   j.replay_log(db);
   e = dump_of(db);
   return true;
  }
  catch (const joedb::Exception &) {return false;}
 };
 if (!database(before, expected) || expected.empty()) return;
 bool blobs = false;
 for (auto &e: read_bytes(before).e) if (e.starts_with("blob ")) blobs = true;
 auto *node = sim::new_node("packer", 0);
 benign(node, 0.01);
 const bool power = w.chance(0.5), errors = w.chance(0.3);
 if (errors) node->rates[sim::K_EIO_READ] = node->rates[sim::K_EIO_WRITE] = node->rates[sim::K_ENOSPC] = node->rates[sim::K_EIO_SYNC] = 0.03;
 else if (w.chance(0.9)) (power ? node->power_at : node->crash_at) = 1 + w.below(60);
 bool done = false, thrown = false;
 std::string error;
 auto *t = sim::spawn(node, "packer", [&]()
 {
  try {joedb::inplace_pack(path); done = true;} catch (const joedb::Exception &x) {thrown = true; error = x.what();}
 });
 if (!sim::join({t}, 600 * SEC)) sim::fail("liveness", "inplace_pack does not finish");
 sim::Atomic a;
 const bool later = done && w.chance(0.5);
 if (later) sim::power_fail(0);
 const uint64_t faults = sim::fault_count(sim::K_EIO_READ) + sim::fault_count(sim::K_EIO_WRITE) + sim::fault_count(sim::K_ENOSPC) + sim::fault_count(sim::K_EIO_SYNC);
 if (thrown) SIM_CHECK(faults > 0 || (blobs && error == "can't pack blobs"), "pack-failed", "inplace_pack failed: %s", error.c_str());
 sim::nontrivial();
 sim::probe(done ? "packs_completed" : thrown ? "packs_failed" : "packs_interrupted");
 const std::string old = path + ".unpacked";
 bool found = false;
 for (const std::string &p: {path, old})
 {
  if (!sim::vfs_exists(p)) continue;
  const std::string d = sim::vfs_content(p);
  if (d == before) {found = true; continue;}
  SIM_CHECK(p == path, "unpacked-modified", "the file that was replaced is not what it was");
  Events e;
  SIM_CHECK(database(d, e), "packed-torn", "the packed file replaced the original, but cannot be read (%zu bytes)", d.size());
  SIM_CHECK(e == expected, "packed-wrong", "the packed file replaced the original: %s", diff_text(e, expected).c_str());
  sim::probe("packed_files_checked");
  found = true;
 }
 SIM_CHECK(found, "data-lost", "neither the file nor the one that it replaces has the data");
 if (done && !later) SIM_CHECK(sim::vfs_exists(path), "data-lost", "inplace_pack returned, and the file does not exist");
}
