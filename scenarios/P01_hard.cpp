// P01: hard checkpoints survive power failures.
#include "scenarios/common.h"
#include "joedb/concurrency/Writable_Journal_Client.h"

using namespace h;

namespace
{
 // Everything committed so far, and how much of it was acknowledged as durable.
 struct Model
 {
  Events log;              // committed or being committed, in journal order
  std::vector<size_t> at;  // log sizes at which a checkpoint was attempted
  size_t durable = 0;      // acknowledged by a hard checkpoint
 };

 bool boundary(const Model &m, size_t n)
 {
  if (n == 0) return true;
  for (size_t x: m.at) if (x == n) return true;
  return false;
 }

 // What the disk may contain after losing power must honour the promise.
 void check_image(const Model &m, const Read_Result &r, const char *when)
 {
  if (!r.ok)
  {
   SIM_CHECK(m.durable == 0, "hard-lost", "%s: %zu events were acknowledged by a hard checkpoint but the file cannot be read: %s (size %ld, hard %ld)", when, m.durable, r.error.c_str(), r.size, r.hard);
   return;
  }
  SIM_CHECK(prefix_mismatch(r.e, m.log) < 0, "hard-corrupt", "%s: data before the recovered hard checkpoint %ld is wrong: %s", when, r.hard, diff_text(r.e, m.log).c_str());
  SIM_CHECK(r.e.size() >= m.durable, "hard-lost", "%s: recovered %zu events at hard checkpoint %ld, %zu were acknowledged", when, r.e.size(), r.hard, m.durable);
  SIM_CHECK(boundary(m, r.e.size()), "hard-torn", "%s: recovered hard checkpoint %ld (%zu events) is not at a checkpoint", when, r.hard, r.e.size());
 }

 void scenario(bool client, bool two)
 {
  quiet_destructors();
  auto &w = sim::wl();
  Model model;
  std::string path = "/sim/0/a.joedb";
  const int lives = 1 + int(w.below(sim::thorough() ? 5 : 3));
  int op = 0;
  bool dirty = false;
  for (int life = 0; life < lives; life++)
  {
   const int writers = two ? 2 : 1;
   const joedb::Recovery recovery = dirty || w.chance(0.5) ? joedb::Recovery::overwrite : joedb::Recovery::none;
   const bool shared = two || w.chance(0.4);
   std::vector<sim::Node *> nodes;
   std::vector<sim::Thread *> threads;
   const uint64_t power_at = w.chance(0.85) ? 5 + w.below(w.chance(0.5) ? 60 : 400) : 0;
   for (int k = 0; k < writers; k++)
   {
    auto *node = sim::new_node("w" + std::to_string(life) + "." + std::to_string(k), 0);
    benign(node);
    if (k == 0) node->power_at = power_at;
    const int txns = 1 + int(w.below(8));
    struct Plan {int op; uint64_t seed; int n; int how;};
    std::vector<Plan> plan;
    for (int i = 0; i < txns; i++)
    {
     Plan p{op++, w.next() >> 20, int(w.below(6)), int(w.below(6))};
     sim::declare_op(p.op, "writer " + node->name + " transaction of " + std::to_string(p.n) + " events, checkpoint " + (p.how <= 1 ? "soft" : p.how <= 3 ? "hard" : p.how == 4 ? "soft then hard" : "hard twice"));
     plan.push_back(p);
    }
    const bool auto_hard = w.chance(0.5);
    const bool valid = w.chance(0.3), stamp = w.chance(0.3);
    threads.push_back(sim::spawn(node, node->name, [=, &model]()
    {
     joedb::File file(path, shared ? joedb::Open_Mode::shared_write : joedb::Open_Mode::write_existing_or_create_new);
     if (client || two)
     {
      joedb::Writable_Journal_Client c(file, joedb::Connection::dummy, joedb::Content_Check::fast, recovery);
      c.set_hard_checkpoint(auto_hard);
      c.set_valid_data(valid);
      (void)stamp;
      for (auto &p: plan)
      {
       if (!sim::op_enabled(p.op)) continue;
       Events e = events_of(p.seed, p.n);
       size_t mine = 0;
       c.transaction([&](joedb::Writable_Journal &j)
       {
        apply(j, p.seed, p.n);
        sim::Atomic a;
        append(model.log, e);
        if (valid) model.log.push_back("valid_data");
        model.at.push_back(model.log.size());
        mine = model.log.size();
       });
       sim::Atomic a;
       if (auto_hard) {model.durable = std::max(model.durable, mine); sim::probe("hard_acks");}
      }
     }
     else
     {
      joedb::Writable_Journal j(joedb::Journal_Construction_Lock(file, recovery));
      j.lock_pull();
      j.skip_directly_to(j.get_checkpoint());
      for (auto &p: plan)
      {
       if (!sim::op_enabled(p.op)) continue;
       apply(j, p.seed, p.n);
       {
        sim::Atomic a;
        append(model.log, events_of(p.seed, p.n));
        model.at.push_back(model.log.size());
       }
       if (p.how <= 1) j.soft_checkpoint();
       else
       {
        if (p.how == 4) j.soft_checkpoint();
        j.hard_checkpoint();
        if (p.how == 5) j.hard_checkpoint();
        sim::Atomic a;
        model.durable = model.log.size();
        sim::probe("hard_acks");
       }
      }
      j.unlock();
     }
    }));
    nodes.push_back(node);
   }

   // the platters at arbitrary instants, while the writers run
   const int looks = int(w.below(4));
   for (int i = 0; i < looks; i++)
   {
    sim::sleep_for(int64_t(w.below(400)) * 1000);
    sim::Atomic a;
    if (sim::vfs_exists(path))
     check_image(model, read_bytes(sim::vfs_power_image(path, w.next()), joedb::Recovery::none, true), "image");
   }
   if (!sim::join(threads, 600 * SEC))
    sim::fail("liveness", "writers did not finish");
   bool powered = false;
   for (auto *n: nodes) if (!n->alive) powered = true;
   if (powered) {sim::nontrivial(); sim::probe("power_failures");}
   else if (w.chance(0.7))
   {
    sim::power_fail(0);
    sim::nontrivial();
    sim::probe("power_failures");
   }
   else
    continue;

   sim::Atomic a;
   dirty = false;
   if (!sim::vfs_exists(path))
   {
    SIM_CHECK(model.durable == 0, "hard-lost", "the file vanished after a power failure");
    model = Model();
    continue;
   }
   const Read_Result r = read_file(path, joedb::Recovery::none, true);
   check_image(model, r, "after power failure");
   if (!r.ok)
   {
    sim::vfs_remove(path);
    model = Model();
    continue;
   }
   model.log = r.e;
   model.durable = r.e.size();
   model.at.clear();
   model.at.push_back(r.e.size());
   // An uncheckpointed tail may be overwritten, or truncated like joedb_push
   // does; a soft checkpoint that survived cannot be trusted: truncate.
   if (r.checkpoint != r.hard || (r.size > r.hard && w.chance(0.5)))
   {
    // documented recovery: truncate at the hard checkpoint
    sim::probe("truncated_recoveries");
    const std::string next = path + "x";
    joedb::File from(path, joedb::Open_Mode::read_existing);
    joedb::File to(next, joedb::Open_Mode::create_new);
    joedb::Readonly_Journal rj(from);
    joedb::Writable_Journal wj(to);
    wj.pull_from(rj, rj.get_hard_checkpoint());
    wj.skip_directly_to(wj.get_checkpoint());
    wj.hard_checkpoint();
    path = next;
   }
   else dirty = r.size > r.hard || beyond_the_end(path);
  }
 }
}

SCENARIO(P01, hard_journal, 10) {scenario(false, false);}
SCENARIO(P01, hard_client, 10) {scenario(true, false);}
SCENARIO(P01, hard_two_writers, 8) {scenario(true, true);}
