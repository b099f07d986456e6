// C01/C02: the string table (index/StringTable) as clients see it.
#include "sim.hpp"
#include "index/StringTable.hpp"
#include <cerrno>
using namespace sim;
using utymap::index::StringTable;

namespace {
const char *Coll[] = {"k15599","k97211","k15511","k97299","k72972","k109233","k12076","k109466","k10976","k120466","k133853","k134492"};
std::string pool(long long i) {
  if (i < 12) return Coll[i];
  if (i == 12) return " ";
  if (i == 13) return std::string(5000, 'x');
  if (i == 14) return "\xd0\x9c\xd0\xbe\xd1\x81\xd0\xba\xd0\xb2\xd0\xb0";
  if (i == 15) return "k155990";
  if (i == 16) return "";
  std::string s = "s" + std::to_string(i);
  if (i % 7 == 0) s += std::string(150 + (i * 37) % 900, 'a' + i % 26);
  return s;
}

struct Model {           // what clients were told so far
  std::map<std::string, uint32_t> ids; std::map<uint32_t, std::string> strs;
  void learn(const std::string &s, uint32_t id) {
    auto a = ids.find(s);
    if (a != ids.end() && a->second != id) fail("unstable-id", "string '" + s.substr(0, 40) + "' had id " + std::to_string(a->second) + ", now " + std::to_string(id));
    auto b = strs.find(id);
    if (b != strs.end() && b->second != s) fail("shared-id", "id " + std::to_string(id) + " given to '" + b->second.substr(0, 40) + "' and '" + s.substr(0, 40) + "'");
    ids[s] = id; strs[id] = s;
  }
  void check(uint32_t id, const std::string &got) const {
    auto b = strs.find(id);
    if (b != strs.end() && b->second != got) fail("wrong-string", "id " + std::to_string(id) + " stands for '" + b->second.substr(0, 40) + "', table answers '" + got.substr(0, 40) + "'");
  }
};

StringTable *openTable() { return new StringTable("/sim/idx/"); }

// ---- C01: concurrent callers, sessions separated by clean reopen ------------------
void genStrings(Rng &r, Plan &p) {
  int sessions = (int)r.range(1, 3); p.par["sessions"] = sessions;
  p.par["strategy"] = r.chance(0.6) ? 1 : r.chance(0.8) ? 2 : 0; p.par["pct"] = r.range(5, 60);
  int universe = (int)r.range(3, 40);
  bool coll = r.chance(0.5);
  bool bulk = r.chance(0.15);
  for (int s = 0; s < sessions; ++s) {
    int tasks = (int)r.range(1, 4); p.par["tasks" + std::to_string(s)] = tasks;
    for (int t = 0; t < tasks; ++t) {
      int n = (int)r.range(1, 10);
      for (int i = 0; i < n; ++i) {
        int w = (int)r.below(10);
        if (w < 6) p.op(s * 10 + t, "id", {coll && r.chance(0.5) ? r.below(17) : r.below(universe)});
        else if (w < 9) p.op(s * 10 + t, "str", {r.below(1000)});
        else if (tasks == 1) p.op(s * 10 + t, "unk", {r.range(0, 3)});
      }
      if (bulk && t == 0) p.op(s * 10 + t, "bulk", {r.range(1010, 1100), r.below(2000)});
    }
  }
}
void execStrings(Plan &p) {
  fs::mkdirs("/sim/idx");
  setSchedule((int)p.p("strategy"), p.p("strategy") == 2 ? 200 : p.p("pct", 20) / 100.0);
  race::enable(true);
  Model m;
  for (int s = 0; s < p.p("sessions", 1); ++s) {
    StringTable *t = openTable();
    for (auto &x : m.strs) m.check(x.first, *t->getString(x.first));
    std::vector<std::function<void()>> bodies;
    for (int k = 0; k < p.p("tasks" + std::to_string(s), 1); ++k)
      bodies.push_back([&, k, s, t] {
        for (auto &o : p.ops) {
          if (o.task != s * 10 + k) continue;
          if (o.kind == "id") {
            std::string v; { Quiet q; v = pool(o.arg(0)); }
            uint32_t id = t->getId(v);
            trace("t%d id %lld -> %u", k, o.arg(0), id); count("op.getId");
            Quiet q; m.learn(v, id);
          } else if (o.kind == "str") {
            uint32_t id; { Quiet q; if (m.strs.empty()) continue; auto i = m.strs.begin(); std::advance(i, o.arg(0) % m.strs.size()); id = i->first; }
            auto got = t->getString(id);
            trace("t%d str %u -> %s", k, id, got->substr(0, 20).c_str()); count("op.getString");
            Quiet q; m.check(id, *got);
          } else if (o.kind == "unk") {
            uint32_t id; { Quiet q; id = m.strs.empty() ? 0 : m.strs.rbegin()->first + 1; } id += (uint32_t)o.arg(0);
            auto got = t->getString(id); count("op.unassigned");
            if (!got->empty()) fail("wrong-string", "an id nobody was given resolves to '" + *got + "'");
          } else if (o.kind == "bulk") {
            for (long long i = 0; i < o.arg(0); ++i) {
              std::string v; { Quiet q; v = "b" + std::to_string(i + o.arg(1)); }
              uint32_t id = t->getId(v); { Quiet q; m.learn(v, id); }
              if (i % 16 == 0) { auto g = t->getString(id); Quiet q; m.check(id, *g); }
            }
            count("op.bulk");
          }
        }
      });
    runTasks(bodies);
    for (auto &x : m.ids) { uint32_t id = t->getId(x.first); m.learn(x.first, id); }
    for (auto &x : m.strs) m.check(x.first, *t->getString(x.first));
    delete t;
    if (fs::openHandles() != 0) fail("handle-leak", "files stay open after the table is closed");
  }
  uint64_t h = 0; for (auto &x : m.strs) { h = hashBytes(x.second.data(), x.second.size(), h ^ x.first); }
  cover(h);
}
Registrar r1("strings", genStrings, execStrings);

// ---- C02: kill at an arbitrary I/O operation; disk errors -------------------------
void genCrash(Rng &r, Plan &p) {
  int lives = (int)r.range(2, 4); p.par["lives"] = lives;
  bool errs = r.chance(0.35);
  int universe = (int)r.range(3, 60);
  long long est = 0;
  for (int s = 0; s < lives; ++s) {
    int n = (int)r.range(1, 14);
    for (int i = 0; i < n; ++i) p.op(s, r.chance(0.8) ? "id" : "str", {r.chance(0.3) ? r.below(17) : r.below(universe)});
    est += n * 3 + 4;
  }
  int kills = errs && r.chance(0.5) ? 0 : (int)r.range(1, lives - 1 > 0 ? lives - 1 : 1);
  for (int i = 0; i < kills; ++i) p.faults.push_back({"crash", r.range(1, est), 1, r.chance(0.5) ? r.range(0, 1000) : 0});
  if (errs) {
    int k = (int)r.below(4);
    if (k == 0) p.faults.push_back({"write_err", r.range(1, est / 2 + 1), r.range(1, 6), ENOSPC});
    else if (k == 1) p.faults.push_back({"write_err", r.range(1, est / 2 + 1), r.range(1, 3), EIO});
    else if (k == 2) p.faults.push_back({"read_err", r.range(1, est / 4 + 1), r.range(1, 2), EIO});
    else p.faults.push_back({"open_err", r.range(1, 2 * lives), 1, r.chance(0.5) ? EMFILE : EACCES});
  }
  if (r.chance(0.3)) p.faults.push_back({"write_partial", r.range(1, est), r.range(1, 8), r.range(1, 999)});
  if (r.chance(0.2)) p.faults.push_back({"write_eintr", r.range(1, est), 1, 0});
  if (r.chance(0.2)) p.faults.push_back({"read_eintr", r.range(1, est / 2), 1, 0});
}
bool hasDiskErr(Plan &p) { for (auto &f : p.faults) if (f.kind.size() > 4 && f.kind.substr(f.kind.size() - 4) == "_err") return true; return false; }
void execCrash(Plan &p) {
  fs::mkdirs("/sim/idx");
  Model m;
  bool errs = hasDiskErr(p);
  bool orderly = true;
  auto session = [&](int s) {
    StringTable *t = nullptr;
    std::string inflight;
    bool alive = runTasks({[&] {
      try { t = openTable(); } catch (std::exception &e) { count("op.openRejected"); if (!errs) fail("refused", "a healthy table does not open"); return; }
      for (auto &o : p.ops) {
        if (o.task != s) continue;
        try {
          if (o.kind == "id") {
            { Quiet q; inflight = pool(o.arg(0)); }
            uint32_t id = t->getId(inflight);
            trace("id %lld -> %u", o.arg(0), id); count("op.getId");
            Quiet q; m.learn(inflight, id); inflight.clear();
          } else {
            uint32_t id; { Quiet q; if (m.strs.empty()) continue; auto i = m.strs.begin(); std::advance(i, o.arg(0) % m.strs.size()); id = i->first; }
            auto got = t->getString(id); count("op.getString");
            Quiet q; m.check(id, *got);
          }
        } catch (std::exception &e) { trace("error"); count("op.reportedError"); if (!errs) fail("refused", std::string("operation failed without a fault: ") + e.what()); }
      }
      delete t; t = nullptr;
    }});
    fs::dropHandles();
    if (!alive) { count("crash.recovered"); orderly = false; }
  };
  for (int s = 0; s < p.p("lives", 1); ++s) session(s);
  // faults are over: everything clients were told holds in the next life
  fs::g_faultsOn = false;
  StringTable *t = openTable();
  for (auto &x : m.strs) m.check(x.first, *t->getString(x.first));
  for (auto &x : m.ids) m.learn(x.first, t->getId(x.first));
  for (int i = 0; i < 5; ++i) { std::string v = "after" + std::to_string(i); m.learn(v, t->getId(v)); }
  delete t; t = openTable();
  for (auto &x : m.strs) m.check(x.first, *t->getString(x.first));
  for (auto &x : m.ids) m.learn(x.first, t->getId(x.first));
  delete t;
  uint64_t h = 0; for (auto &x : m.strs) h = hashBytes(x.second.data(), x.second.size(), h ^ x.first);
  cover(h ^ (orderly ? 0 : 0x1234567));
}
Registrar r2("strings_crash", genCrash, execCrash);
}
