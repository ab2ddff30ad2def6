// P03: a file left by a crash is refused by default, and recovery keeps
// everything that was committed.
// MAINS: joedb_push
#include "scenarios/world.h"
#include "scenarios/tools.h"
using namespace h;

int joedb_push_main(int, char **);

namespace
{
 struct Recovery_World: World
 {
  // the file is read until its very end, or truncated with joedb_push
  void between(int life) override
  {
   auto &w = sim::wl();
   if (!sim::vfs_exists(path)) return;
   std::string before;
   Read_Result r;
   {
    sim::Atomic a;
    before = sim::vfs_content(path);
    if (before.size() < 41) return;
    r = read_file(path);
    SIM_CHECK(r.ok, "unreadable", "the file cannot be read: %s", r.error.c_str());
    // until the very end: everything that is committed comes first
    Recorder rec;
    bool error = false;
    try
    {
     joedb::File f(path, joedb::Open_Mode::read_existing);
     joedb::Readonly_Journal j(joedb::Journal_Construction_Lock(f, joedb::Recovery::ignore_header));
     SIM_CHECK(j.get_checkpoint() == int64_t(before.size()), "ignore-header", "reading until %ld instead of the end of the file, %zu", j.get_checkpoint(), before.size());
     j.play_until_checkpoint(rec);
    }
    catch (const joedb::Exception &) {error = true;}
    SIM_CHECK(prefix_mismatch(r.e, rec.e) < 0, "ignore-header", "reading until the end of the file does not give what is committed: %s", diff_text(rec.e, r.e).c_str());
    const bool dirty = r.size > r.checkpoint;
    if (!dirty) SIM_CHECK(!error && rec.e.size() == r.e.size(), "ignore-header", "a clean file of %ld bytes cannot be read until its end", r.size);
    sim::probe("read_until_the_end");
   }
   if (!w.chance(0.6)) return;

   // joedb_push file.joedb file fixed.joedb
   const std::string fixed = "/sim/0/fixed.joedb";
   const bool kill = w.chance(0.3);
   auto *node = sim::new_node("push", 0);
   set_rates(node);
   if (kill) node->crash_at = 1 + w.below(w.chance(0.5) ? 40 : 150 + before.size() / 512);
   int exit_code = -1;
   auto *t = sim::spawn(node, "push", [&]() {exit_code = run_tool(joedb_push_main, {"joedb_push", path, "file", fixed});});
   if (!sim::join({t}, 3600 * SEC)) sim::fail("liveness", "joedb_push does not finish");
   sim::Atomic a;
   SIM_CHECK(sim::vfs_content(path) == before, "source-modified", "joedb_push modified the file that it reads");
   if (node->alive)
   {
    SIM_CHECK(exit_code == 0, "push-failed", "joedb_push returned %d", exit_code);
    const Read_Result f = read_file(fixed);
    SIM_CHECK(f.ok && f.checkpoint == r.checkpoint && f.size == f.checkpoint, "truncation", "after joedb_push: %s, checkpoint %ld, size %ld; the checkpoint of the source is %ld", f.error.c_str(), f.checkpoint, f.size, r.checkpoint);
    SIM_CHECK(f.e == r.e, "truncation", "%s", diff_text(f.e, r.e).c_str());
    sim::probe("truncations");
    // the fixed file replaces the original
    const std::string c = sim::vfs_content(fixed);
    sim::vfs_put(path, c);
    kills = 0;
    left_dirty = false;
    for (auto &x: log.t) x.node = nullptr;
   }
   else if (sim::vfs_exists(fixed) && sim::vfs_content(fixed).size() >= 41)
   {
    const Read_Result f = read_file(fixed);
    SIM_CHECK(f.ok, "truncation", "joedb_push was killed, and its output cannot be read: %s", f.error.c_str());
    sim::probe(f.e.empty() ? "killed_truncations_empty" : "killed_truncations_complete");
    if (before.size() > 65536) sim::probe("killed_truncations_of_big_files");
    SIM_CHECK(f.e.empty() || f.e == r.e, "truncation", "joedb_push was killed: %s", diff_text(f.e, r.e).c_str());
   }
   if (sim::vfs_exists(fixed)) sim::vfs_remove(fixed);
  }
 };
}

SCENARIO(P03, recover_shared, 10)
{
 Recovery_World w;
 w.k.kill = 0.6;
 w.k.abort = 0.15;
 w.k.max_lives = 4;
 w.k.max_readers = 1;
 w.k.no_recovery = 0.5;
 w.k.big = 0.15;
 w.run();
}

SCENARIO(P03, recover_exclusive, 6)
{
 Recovery_World w;
 w.k.kill = 0.8;
 w.k.abort = 0.15;
 w.k.exclusive = true;
 w.k.max_lives = 4;
 w.k.max_readers = 0;
 w.k.no_recovery = 0.5;
 w.k.big = 0.15;
 w.run();
}
