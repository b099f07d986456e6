// Whole-engine sessions through the C API: what a request delivers is a function of what was imported,
// whatever else happened before or happens at the same time.
#include "world.hpp"
#include <cerrno>
using namespace sim;
using world::Imp; using world::Request;
namespace {
enum Profile { History, Cache, CacheFaults, Cancel, Errors, Threads, ThreadsCache, ThreadsImport, ThreadsCancel };
enum CancelMode { NoCancel, AtCallback, AtStep, Before, NoMemory };

std::vector<Imp> elements(int n) { // an import of a single element
  std::vector<Imp> v; auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(world::tile(n % 4)); Rng r(n * 77 + 5);
  auto P = [&] { return std::make_pair(b.minPoint.latitude + b.height() * (0.1 + 0.8 * r.unit()), b.minPoint.longitude + b.width() * (0.1 + 0.8 * r.unit())); };
  Imp i; i.element = 500000 + n; i.where = world::tile(n % 4); i.format = -1; i.data = 0; i.lod0 = 16; i.lod1 = 16;
  switch (n % 4) { case 0: i.pts = {P()}; i.tags = {{"amenity", "kiosk"}, {"name", "New place"}}; break; case 1: i.pts = {P(), P()}; i.tags = {{"highway", "service"}}; break;
    case 2: { auto a = P(); double h = b.height() * 0.05, w = b.width() * 0.05; i.pts = {a, {a.first, a.second + w}, {a.first + h, a.second + w}, {a.first + h, a.second}}; i.tags = {{"building", "yes"}, {"roof", "pyramidal"}}; break; }
    default: i.pts = {P()}; i.tags = {{"natural", "tree"}}; }
  v.push_back(i); return v;
}

struct Asked { Request *r; int tile, style, ele; std::vector<Imp> imports; bool faulty, cancelled, dirty, cacheOn; bool text; std::vector<Imp> maybe; std::string what; };

struct Session {
  Plan &p; int profile; bool pers, threads; bool cache = false;
  std::vector<Imp> log; std::map<int, std::vector<Imp>> done;      // tile -> imports
  std::map<int, std::vector<Imp>> pending;   // imports which run now
  std::map<int, Request *> running; std::set<int> dirty; std::vector<Asked> asked; size_t next = 0; bool up = false;
  explicit Session(Plan &p) : p(p), profile((int)p.p("profile")), pers(p.p("pers")), threads(profile >= Threads), cache(p.p("cache")) {}

  std::vector<int> tilesOf(const Imp &i) { std::vector<int> v; for (int t = 0; t < world::Tiles; ++t) { auto k = world::tile(t); if (i.lod1 ? k.levelOfDetail >= i.lod0 && k.levelOfDetail <= i.lod1 : k.levelOfDetail == i.where.levelOfDetail && k.tileX == i.where.tileX && k.tileY == i.where.tileY) v.push_back(t); } return v; }
  void boot() { world::g_extra = p.p("two"); world::start(cache); world::store(pers); up = true; }
  void import(const Imp &i, const std::string &label) {
    auto ts = tilesOf(i); { Quiet q; for (int t : ts) pending[t].push_back(i); }
    std::string e = world::run(i);
    Quiet q; trace("import %s -> %s", label.c_str(), e.empty() ? "done" : e.c_str()); count(e.empty() ? "op.import" : "op.importFailed");
    for (int t : ts) { auto &v = pending[t]; v.erase(std::find_if(v.begin(), v.end(), [&](const Imp &x) { return x.key() == i.key(); })); if (e.empty()) done[t].push_back(i); else dirty.insert(t); }
    if (e.empty()) log.push_back(i);
    if (!e.empty() && profile != Errors) fail("refused", "a healthy import fails: " + e);
  }
  void query(const Op &o, bool text) {
    Request *r; Asked a; { Quiet q; r = new Request; a = Asked{r, (int)o.arg(0), (int)o.arg(1), (int)o.arg(2), done[(int)o.arg(0)], false, false, dirty.count((int)o.arg(0)) > 0, cache, text, pending[(int)o.arg(0)], ""}; 
      if (text) { a.imports = log; a.dirty = !dirty.empty(); a.maybe.clear(); for (auto &x : pending) a.maybe.insert(a.maybe.end(), x.second.begin(), x.second.end()); }
      a.what = (text ? "search" : "request for tile " + std::to_string(a.tile)) + " style " + std::to_string(a.style) + " elevation " + std::to_string(a.ele); }
    { Quiet q; running[currentTask()] = r; }
    int mode = (int)o.arg(3); long long at = o.arg(4), step = 0; int me = currentTask(); bool inside = true;
    if (mode == AtCallback) r->cancelAt = at; else if (mode == Before) r->token.cancel();
    else if (mode == AtStep && !threads) g_onStep = [&, me, at](const char *) { if (inside && currentTask() == me && ++step == at) { r->token.cancel(); count("cancel.atStep"); } };
    long long f0 = fsErrors(), m0 = alloc::fired();
    if (mode == NoMemory && !threads) alloc::failAt(at);
    if (text) world::textFor(*r, a.style);
    else world::query(*r, a.style, world::tile(a.tile), a.ele);
    inside = false; if (!threads) { g_onStep = nullptr; alloc::failAt(0); }
    Quiet q; running.erase(currentTask()); a.faulty = fsErrors() != f0 || alloc::fired() != m0; a.cancelled = r->token.isCancelled();
    if (threads) { if (text) { for (auto &x : pending) a.maybe.insert(a.maybe.end(), x.second.begin(), x.second.end()); } else { auto &now = pending[a.tile]; for (auto &x : now) a.maybe.push_back(x); } for (auto &x : text ? log : done[a.tile]) { bool had = false; for (auto &y : a.imports) had = had || y.key() == x.key(); if (!had) a.maybe.push_back(x); } }
    trace("%s -> %zu results %s%s", a.what.c_str(), r->items.size(), r->errors.empty() ? "" : r->errors[0].c_str(), a.cancelled ? " (cancelled)" : ""); count(a.cancelled ? "op.cancelledRequest" : r->errors.empty() ? "op.request" : "op.requestFailed");
    asked.push_back(a);
  }
  long long fsErrors() { long long n = 0; for (auto &c : counters()) if (c.first.compare(0, 6, "fault.") == 0 && c.first.find("_err") != std::string::npos) n += c.second; return n; }
  static std::string name(const std::string &item) { return item.substr(0, item.find(' ', 5)); }
  // Elements and meshes of elements do not depend on the order of imports, the ground does.
  static std::vector<std::string> withoutGround(const std::vector<std::string> &v) { std::vector<std::string> r; for (auto &s : v) if (s.compare(0, 12, "mesh terrain") != 0 && s.compare(0, 11, "mesh ground") != 0) r.push_back(s); return r; }
  void judge() {
    for (auto &a : asked) {
      auto got = a.r->sorted(); bool failed = !a.r->errors.empty();
      if (failed && !a.faulty && !a.cancelled) fail("request-fails", "a " + a.what + " fails: " + a.r->errors[0]);
      if (failed && a.cancelled && !a.faulty) fail("cancel-fails", "a cancelled " + a.what + " reports an error: " + a.r->errors[0]);
      if (a.cancelled && a.r->after > 12) fail("cancel-ignored", "a cancelled " + a.what + " delivers " + std::to_string(a.r->after) + " more results");
      if (a.dirty) continue;
      if (!a.maybe.empty()) { // an import into the tile was running
        auto all = a.imports; for (auto &x : a.maybe) { bool had = false; for (auto &y : all) had = had || y.key() == x.key(); if (!had) all.push_back(x); }
        auto lo = withoutGround(world::reference(pers, a.imports, a.style, world::tile(a.tile), a.ele, a.text ? a.style : -1)), hi = withoutGround(world::reference(pers, all, a.style, world::tile(a.tile), a.ele, a.text ? a.style : -1)), g = withoutGround(got);
        auto d = world::difference(hi, g, true); if (!d.empty()) fail("wrong-result", "a " + a.what + " during an import delivers what was never imported: " + d);
        if (!a.cancelled && !failed) { d = world::difference(g, lo, true); if (!d.empty()) fail("wrong-result", "a " + a.what + " during an import misses what was there before: " + d); }
        count("op.duringImport"); continue;
      }
      auto want = world::reference(pers, a.imports, a.style, world::tile(a.tile), a.ele, a.text ? a.style : -1);
      if (profile == ThreadsImport && a.imports.size() > 1) { want = withoutGround(want); got = withoutGround(got); } // which of two concurrent imports is first is open
      auto d = world::difference(want, got, a.cancelled || failed);
      if (!d.empty()) fail(a.cancelled ? "cancel-wrong" : failed ? "error-wrong" : "wrong-result", "a " + std::string(a.cancelled ? "cancelled " : failed ? "failing " : "") + a.what + " (cache " + (a.cacheOn ? "on" : "off") + ") differs from a fresh engine: " + d);
      cover(world::hash(got));
    }
    asked.clear();
  }
  void one(const Op &o) {
    if (o.kind == "import") { Imp i{(int)o.arg(0), (int)o.arg(1), world::tile((int)o.arg(2)), (int)o.arg(3)}; i.extra = o.arg(4) && p.p("two"); import(i, "file"); }
    else if (o.kind == "range") { Imp i{(int)o.arg(0), (int)o.arg(1), world::tile(0), (int)o.arg(3)}; i.lod0 = 15; i.lod1 = 16; i.extra = o.arg(4) && p.p("two"); import(i, "area"); }
    else if (o.kind == "element") { Imp i; { Quiet q; i = elements((int)o.arg(0))[0]; i.style = (int)o.arg(3); i.extra = o.arg(4) && p.p("two"); } import(i, "element"); }
    else if (o.kind == "query") query(o, false);
    else if (o.kind == "text") query(o, true);
    else if (o.kind == "cache") { cache = o.arg(0); enableMeshCache(cache); }
    else if (o.kind == "ele") { auto k = world::tile((int)o.arg(0)); auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(k); getElevationByQuadKey(k.tileX, k.tileY, k.levelOfDetail, (int)o.arg(1), b.minPoint.latitude + b.height() * 0.3, b.minPoint.longitude + b.width() * 0.6); }
    else if (o.kind == "cancel") { for (int n = (int)o.arg(0); n > 0; --n) schedPoint("wait", nullptr); for (auto &x : running) { x.second->token.cancel(); count("cancel.fromOther"); } }
    else if (o.kind == "has") { auto k = world::tile((int)o.arg(0)); bool has = hasData(k.tileX, k.tileY, k.levelOfDetail); (void)has; }
    else if (o.kind == "restart") { disconnect(); up = false; count("op.restart"); { Quiet q; if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down"); forgetMemory(); } boot(); }
  }
  void forgetMemory() { auto drop = [&](std::vector<Imp> &v) { v.erase(std::remove_if(v.begin(), v.end(), [&](const Imp &i) { return i.extra || !pers; }), v.end()); }; for (auto &d : done) drop(d.second); drop(log); if (!pers) dirty.clear(); }
  // Sequential ops; a kill ends the process, the next one goes on with the next op.
  void sequential() {
    std::vector<Op> ops; for (auto &o : p.ops) if (o.task == 0) ops.push_back(o);
    next = 0; bool dead = false;
    for (;;) {
      bool alive = runTasks({[&] { if (!up) boot(); while (next < ops.size()) { const Op &o = ops[next++]; fs::g_faultsOn = profile == Errors || o.kind == "query"; one(o); fs::g_faultsOn = false; } }});
      if (alive) break;
      dead = true; up = false; alloc::failAt(0); fs::dropHandles(); world::forget(); fs::g_faultsOn = false; g_onStep = nullptr; count("crash.recovered"); forgetMemory();
    }
    (void)dead;
  }
  void all() {
    fs::g_faultsOn = false;
    sequential();
    if (threads) {
      int n = (int)p.p("tasks"); std::vector<std::function<void()>> bodies;
      for (int t = 1; t <= n; ++t) bodies.push_back([&, t] { for (auto &o : p.ops) if (o.task == t) one(o); });
      setSchedule((int)p.p("strategy", 1), p.p("strategy", 1) == 2 ? (double)p.p("switch", 20) : p.p("switch", 20) / 1000.0);
      race::enable(true); fs::g_faultsOn = true;
      runTasks(bodies);
      race::enable(false); fs::g_faultsOn = false; setSchedule(0, 0);
    }
    runTasks({[&] {
      judge();
      // afterwards every tile is what its imports make of it
      for (int t = 0; t < world::Tiles; ++t) if (done.count(t) || t < 2) { query(Op{0, "query", {t, (long long)(p.seed % 2), t % 3 == 2 ? 2 : 0}}, false); asked.back().maybe.clear(); }
      judge();
      disconnect(); if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down");
    }});
  }
};

void importsOf(Rng &r, Plan &p, int task, int n, int tiles) {
  for (int i = 0; i < n; ++i) { int k = (int)r.below(10);
    if (k == 0) p.op(task, "range", {r.below(world::Formats), r.below(2), 0, r.below(2), r.below(2)});
    else if (k < 3) p.op(task, "element", {r.below(12), 0, 0, r.below(2), r.below(2)});
    else p.op(task, "import", {r.below(world::Formats), r.below(2), r.below(tiles), r.below(2), r.below(2)}); }
}
void base(Rng &r, Plan &p, int profile) { p.par["profile"] = profile; p.par["pers"] = r.chance(0.6); p.par["two"] = r.chance(0.3); p.par["dataset"] = r.below(6); p.par["cache"] = 0; }
int ele(Rng &r) { return r.chance(0.7) ? 0 : 2; }

void genHistory(Rng &r, Plan &p) {
  base(r, p, History); p.par["pair"] = r.chance(0.5) ? 0 : r.range(1, world::pairs() - 1); int n = (int)r.range(3, 12), tiles = (int)r.range(1, 5);
  for (int i = 0; i < n; ++i) { int k = (int)r.below(12);
    if (k < 5) importsOf(r, p, 0, 1, tiles); else if (k < 9) p.op(0, "query", {r.below(tiles), r.below(2), ele(r), r.chance(0.15) ? (long long)AtCallback : 0, r.range(1, 8)});
    else if (k == 9) p.op(0, "text", {r.below(tiles), r.below(6), 0}); else if (k == 10) p.op(0, r.chance(0.5) ? "ele" : "has", {r.below(tiles), 2}); else p.op(0, "restart"); }
}
void genCache(Rng &r, Plan &p) {
  base(r, p, Cache); p.par["cache"] = 1; p.par["pair"] = r.chance(0.3) ? 0 : r.range(1, r.chance(0.8) ? world::groundPairs() : world::pairs() - 1); p.par["pers"] = r.chance(0.8); if (p.par["pers"]) p.par["two"] = 0; int tiles = (int)r.range(1, 4), n = (int)r.range(3, 12);
  importsOf(r, p, 0, (int)r.range(1, 3), tiles);
  for (int i = 0; i < n; ++i) { int k = (int)r.below(12);
    if (k < 9) p.op(0, "query", {r.below(tiles), r.below(2), ele(r), r.chance(0.25) ? r.range(1, 3) : 0, r.chance(0.5) ? r.range(1, 10) : r.range(1, 900)});
    else if (k == 9) p.op(0, "cache", {r.below(2)}); else if (p.par["pers"]) p.op(0, "restart"); }
  for (auto &o : p.ops) if (o.kind == "query" && o.arg(3) == AtCallback) o.a[4] = 1 + o.a[4] % 12;
}
void genCacheFaults(Rng &r, Plan &p) {
  genCache(r, p); p.par["profile"] = CacheFaults; p.par["pers"] = 1; p.par["two"] = 0;
  bool memory = r.chance(0.4); if (memory) for (auto &o : p.ops) if (o.kind == "query" && r.chance(0.4)) { o.a[3] = NoMemory; o.a[4] = r.chance(0.3) ? r.range(1, 500) : r.range(1, 12000); }
  int n = (int)r.range(memory ? 0 : 1, 3); for (int i = 0; i < n; ++i) { int k = (int)r.below(6);
    if (k < 2) p.faults.push_back({r.chance(0.8) ? "crash:/cache" : "crash:/data", r.range(1, r.chance(0.5) ? 12 : 60), 1, r.chance(0.5) ? r.range(0, 1000) : 0});
    else if (k == 2) p.faults.push_back({"write_err:/cache", r.range(1, 10), r.range(1, 3), r.chance(0.5) ? ENOSPC : EIO});
    else if (k == 3) p.faults.push_back({"read_err:/cache", r.range(1, 12), r.range(1, 2), EIO});
    else if (k == 4) p.faults.push_back({"open_err:/cache", r.range(1, 12), 1, r.chance(0.5) ? EMFILE : EACCES});
    else p.faults.push_back({"unlink_err:/cache", 1, r.range(1, 3), EACCES}); }
  if (r.chance(0.3)) p.faults.push_back({"write_partial:/cache", r.range(1, 20), r.range(1, 6), r.range(1, 999)});
}
void genCancel(Rng &r, Plan &p) {
  base(r, p, Cancel); if (r.chance(0.4)) p.par["dataset"] += 1000; int tiles = (int)r.range(1, 4), n = (int)r.range(2, 8); importsOf(r, p, 0, (int)r.range(1, 3), tiles);
  for (int i = 0; i < n; ++i) { int mode = (int)r.range(1, 3); bool t = r.chance(0.25); p.op(0, t ? "text" : "query", {r.below(tiles), r.below(t ? 6 : 2), t ? 0 : ele(r), mode, mode == AtCallback ? r.range(1, 20) : r.chance(0.5) ? r.range(1, 100) : r.range(1, 1500)}); }
}
void thr(Rng &r, Plan &p) { p.par["tasks"] = r.range(2, 3); p.par["strategy"] = r.range(1, 2); p.par["switch"] = p.par["strategy"] == 2 ? r.range(20, r.chance(0.5) ? 300 : 3000) : r.chance(0.5) ? r.range(5, 40) : r.range(40, 500); }
void genThreads(Rng &r, Plan &p) {
  base(r, p, Threads); thr(r, p); int tiles = (int)r.range(1, 4); importsOf(r, p, 0, (int)r.range(1, 2), tiles);
  for (int t = 1; t <= p.par["tasks"]; ++t) for (int i = (int)r.range(1, 2); i > 0; --i) { int k = (int)r.below(10); if (k < 8) p.op(t, "query", {r.below(tiles), r.below(2), ele(r), r.chance(0.15) ? (long long)AtCallback : 0, r.range(1, 8)}); else if (k == 8) p.op(t, "text", {r.below(tiles), r.below(6), 0}); else if (r.chance(0.5)) p.op(t, "cancel", {r.below(40)}); else p.op(t, r.chance(0.5) ? "ele" : "has", {r.below(tiles), 2}); }
}
void genThreadsCancel(Rng &r, Plan &p) { genThreads(r, p); p.par["profile"] = ThreadsCancel; if (r.chance(0.3)) p.par["dataset"] += 1000; int last = (int)p.par["tasks"]; for (int i = (int)r.range(1, 2); i > 0; --i) { Op o{last, "cancel", {r.chance(0.5) ? r.below(30) : r.below(400)}}; p.ops.push_back(o); }
  for (auto &o : p.ops) if (o.task == last && o.kind == "query" && r.chance(0.5)) { o.kind = "cancel"; o.a = {r.chance(0.5) ? r.below(30) : r.below(400)}; } }
void genThreadsCache(Rng &r, Plan &p) { genThreads(r, p); p.par["profile"] = ThreadsCache; p.par["cache"] = 1;
  for (auto &o : p.ops) if (o.kind == "query" && r.chance(0.6)) { o.a[0] = 0; o.a[1] = 0; }
  if (r.chance(0.3)) p.faults.push_back({r.chance(0.5) ? "write_err:/cache" : "open_err:/cache", r.range(1, 12), r.range(1, 3), r.chance(0.5) ? ENOSPC : EIO}); }
void genThreadsImport(Rng &r, Plan &p) { base(r, p, ThreadsImport); thr(r, p); int tiles = (int)r.range(1, 3); if (r.chance(0.6)) importsOf(r, p, 0, 1, tiles);
  for (int t = 1; t <= p.par["tasks"]; ++t) { if (t == 1 || r.chance(0.5)) importsOf(r, p, t, 1, tiles); if (t > 1 || r.chance(0.5)) p.op(t, r.chance(0.85) ? "query" : "text", {r.below(tiles), r.below(2), 0, r.chance(0.1) ? (long long)AtCallback : 0, r.range(1, 8)}); }
  int n = 0; for (auto &o : p.ops) if (o.kind == "import" || o.kind == "range") o.a[1] = n++; else if (o.kind == "element") o.a[0] = n++; // which of two equal ids is taken depends on the order
  p.par["datas"] = n; }

void exec(Plan &p) { world::g_datas = (int)p.p("datas", 2); world::install((int)p.p("dataset"), (int)p.p("pair")); Session s(p); s.all(); }
Registrar a("history", genHistory, exec), b("cache", genCache, exec), c("cache_faults", genCacheFaults, exec), d("cancel", genCancel, exec), t1("threads", genThreads, exec), t2("threads_cache", genThreadsCache, exec), t3("threads_import", genThreadsImport, exec), t4("threads_cancel", genThreadsCancel, exec);
}
