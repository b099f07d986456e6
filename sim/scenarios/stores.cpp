// C03-C06: element stores against a plain map from tile to elements.
#include "model.hpp"
#include "index/PersistentElementStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "CancellationToken.hpp"
#include "LodRange.hpp"
#include <cerrno>
using namespace sim; using namespace model;
using utymap::index::StringTable; using utymap::index::ElementStore; using utymap::CancellationToken;

namespace {
// 21 tiles: a 4x4 block, its parent 2x2 block and a far away tile; or, anywhere in the world on any level, tiles
// whose coordinates resemble each other
const int Tiles = 21;
std::vector<QuadKey> g_geo;
void geography(long long seed) {
  g_geo.clear(); if (!seed) return;
  Rng r((uint64_t)seed * 7919 + 3); auto ok = [](const QuadKey &q) { long long m = 1ll << q.levelOfDetail; return q.levelOfDetail >= 1 && q.levelOfDetail <= 19 && q.tileX >= 0 && q.tileY >= 0 && q.tileX < m && q.tileY < m; };
  while ((int)g_geo.size() < Tiles) {
    int l = r.chance(0.7) ? (int)r.range(16, 19) : (int)r.range(1, 19); QuadKey q(l, (int)r.below(1ll << l), (int)r.below(1ll << l));
    if (r.chance(0.1)) q.tileX = r.chance(0.5) ? 0 : (1 << l) - 1; if (r.chance(0.1)) q.tileY = r.chance(0.5) ? 0 : (1 << l) - 1;
    if (!g_geo.empty() && r.chance(0.85)) {
      q = g_geo[r.below(g_geo.size())]; int a = (int)r.range(1, 3), k = (int)r.range(1, 19), s = r.chance(0.5) ? 1 : -1;
      switch (r.below(8)) {
        case 0: case 1: case 2: if (r.chance(0.6)) k = 16; q.tileX += s * a; q.tileY -= s * a * (1 << k); break;   // x << k | y, x * 2^k + y
        case 3: if (r.chance(0.6)) k = 16; q.tileY += s * a; q.tileX -= s * a * (1 << k); break;
        case 4: std::swap(q.tileX, q.tileY); break;
        case 5: q.levelOfDetail += s; break;
        case 6: if (s > 0) q = QuadKey(q.levelOfDetail + 1, q.tileX * 2 + (a & 1), q.tileY * 2 + (k & 1)); else q = QuadKey(q.levelOfDetail - 1, q.tileX / 2, q.tileY / 2); break;
        case 7: q.tileX += s * (a - 1); q.tileY += (k & 1) ? s : -s; break;
      }
    }
    bool known = false; for (auto &x : g_geo) if (x == q) known = true;
    if (!known && ok(q)) g_geo.push_back(q);
  }
}
QuadKey tile(long long i) {
  if (!g_geo.empty()) return g_geo[i % Tiles];
  if (i < 16) return QuadKey(16, 35204 + i % 4, 21488 + i / 4);
  if (i < 20) return QuadKey(15, 17602 + i % 2, 10744 + (i - 16) / 2);
  return QuadKey(3, 1, 6);
}
const char *Vocab[] = {"building", "yes", "highway", "primary road", "name", "Main_Street", "addr:street", "Main", "street", "poi", "shop", "bakery shop", "x1", "k15599", "k97211", "\xd0\x90\xd0\xbb\xd0\xb5\xd1\x8f", "!!", "", "maxspeed", "50", "Road", "road"};
const int NVocab = sizeof(Vocab) / sizeof(*Vocab);
std::string vocab(long long i) { i = i < 0 ? -i : i; if (i % 40 < NVocab) return Vocab[i % 40]; return "w" + std::to_string(i % 7); }

// the n-th element ever generated; `v` decides shape and tags
Rec element(const QuadKey &q, long long n, long long v) {
  Rng r((uint64_t)v * 1000003 + 17); Rec e; e.id = (uint64_t)n + ((v % 5 == 0) ? 0xF000000000000000ull : 1);
  e.type = "nwar"[v % 4];
  BoundingBox b = utymap::utils::GeoUtils::quadKeyToBoundingBox(q);
  auto pt = [&] { return std::make_pair(b.minPoint.latitude + b.height() * (0.05 + 0.9 * r.unit()), b.minPoint.longitude + b.width() * (0.05 + 0.9 * r.unit())); };
  int nt = (int)r.below(5); for (int i = 0; i < nt; ++i) { std::string k = vocab(r.below(200)), w = vocab(r.below(200)); e.tags.push_back({k, w}); }
  int pts = e.type == 'n' ? 1 : (int)r.range(2, 6);
  if (v == 4001) pts = 65535; if (v == 4002 || v == 4005) pts = 65536 + 3;
  if (e.type != 'r') for (int i = 0; i < pts; ++i) e.coords.push_back(pt());
  else { int k = (int)r.below(4); for (int i = 0; i < k; ++i) { Rec c; c.type = r.chance(0.5) ? 'a' : 'n'; c.id = e.id * 10 + i; int m = c.type == 'n' ? 1 : (int)r.range(3, 5); for (int j = 0; j < m; ++j) c.coords.push_back(pt()); if (r.chance(0.5)) c.tags.push_back({vocab(r.below(200)), vocab(r.below(200))});
      if (r.chance(0.15)) { Rec d; d.type = 'r'; d.id = c.id + 500; d.kids.push_back(c); e.kids.push_back(d); } else e.kids.push_back(c); }
    if (e.kids.empty()) { Rec c; c.type = 'n'; c.id = e.id * 10; c.coords.push_back(pt()); e.kids.push_back(c); } }
  return e;
}
std::string terms(long long v) { if (v == 0) return ""; Rng r(v); int n = (int)r.range(1, 3); std::string s; for (int i = 0; i < n; ++i) { if (i) s += r.chance(0.5) ? " " : ","; s += vocab(r.below(200)); } return s; }
TextQuery query(long long v) {
  Rng r((uint64_t)v * 77 + 5); TextQuery q; int k = (int)r.below(8);
  q.no = r.chance(0.3) ? terms(r.range(1, 400)) : ""; q.all = k < 3 || k == 6 ? terms(r.range(1, 400)) : ""; q.any = k >= 3 && k < 7 ? terms(r.range(1, 400)) : ""; // 7: nothing wanted
  int ta = (int)r.below(16), tb = (int)r.below(16); if (!g_geo.empty()) tb = ta %= 5;
  BoundingBox a = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile(ta)), b = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile(tb));
  a.expand(b); double h = a.height(), w = a.width();
  q.box = BoundingBox(GeoCoordinate(a.minPoint.latitude + h * 0.2 * r.unit() + 1e-9, a.minPoint.longitude + w * 0.2 * r.unit() + 1e-9), GeoCoordinate(a.maxPoint.latitude - h * 0.2 * r.unit() - 1e-9, a.maxPoint.longitude - w * 0.2 * r.unit() - 1e-9));
  int z = (int)r.below(4); q.lod0 = z == 0 ? 15 : z == 1 ? 16 : z == 2 ? 14 : 15; q.lod1 = z == 0 ? 15 : 16; if (!g_geo.empty()) q.lod0 = q.lod1 = tile(ta).levelOfDetail;
  return q;
}

// sure: acknowledged. maybe: a store without a definite answer, may be there or not. groups: subject of an
// erase without a definite answer, all or nothing. unindexed: never acknowledged, seen in the tile; text
// search may or may not know it.
struct TileState { std::vector<Rec> sure, maybe, unindexed; std::vector<std::vector<Rec>> groups; bool touched = false;
  std::vector<Rec> all() const { std::vector<Rec> a = sure; a.insert(a.end(), maybe.begin(), maybe.end()); a.insert(a.end(), unindexed.begin(), unindexed.end()); for (auto &g : groups) a.insert(a.end(), g.begin(), g.end()); return a; } };
struct World {
  bool persistent; std::unique_ptr<StringTable> st; std::unique_ptr<ElementStore> store;
  std::map<int, TileState> tiles; long long n = 0; bool faulty = false;
  std::function<std::string(uint32_t)> str() { auto t = st.get(); return [t](uint32_t i) { return *t->getString(i); }; }
  std::function<uint32_t(const std::string &)> ids() { auto t = st.get(); return [t](const std::string &s) { return t->getId(s); }; }
  void open() {
    close(); st.reset(new StringTable("/sim/"));
    if (persistent) store.reset(new utymap::index::PersistentElementStore("/sim/data", *st)); else store.reset(new utymap::index::InMemoryElementStore(*st));
  }
  void close() { store.reset(); st.reset(); }
  void checkTile(int i, const std::vector<Rec> &got, bool prefixOnly = false) {
    Quiet q; TileState &t = tiles[i]; std::vector<Rec> all = t.all();
    if (auto m = missing(got, all)) fail("wrong-element", "tile " + std::to_string(i) + " delivers an element which was not stored there: " + m->text().substr(0, 300) + " (" + std::to_string(got.size()) + " delivered, " + std::to_string(t.sure.size()) + " stored)");
    if (prefixOnly) return;
    for (auto &g : t.groups) if (missing(g, got)) // an erase without a definite answer: all or nothing
      for (auto &r : g) if (!missing({r}, got)) fail("half-erased", "interrupted erase of tile " + std::to_string(i) + " left a part of its elements");
    if (auto m = missing(t.unindexed, got)) fail("lost-element", "tile " + std::to_string(i) + " does not deliver element it delivered before " + m->text().substr(0, 300));
    if (auto m = missing(t.sure, got)) fail("lost-element", "tile " + std::to_string(i) + " does not deliver stored element " + m->text().substr(0, 300) + " (" + std::to_string(got.size()) + " delivered, " + std::to_string(t.sure.size()) + " stored)");
  }
  // returns delivered
  std::vector<Rec> search(int i, long long cancelAt = -1) {
    CancellationToken tok; Collector c(str());
    if (cancelAt == 0) tok.cancel();
    c.on = [&](const Rec &) { if ((long long)c.out.size() == cancelAt) tok.cancel(); };
    store->search(tile(i), c, tok);
    if (cancelAt >= 0) { count("op.cancelledSearch"); if ((long long)c.out.size() > cancelAt) fail("late-cancel", "a tile search cancelled at element " + std::to_string(cancelAt) + " delivered " + std::to_string(c.out.size())); checkTile(i, c.out, true); }
    else { count("op.searchTile"); checkTile(i, c.out); Quiet q; if (!c.out.empty()) count("op.searchTileHits"); cover(hashRecs(c.out)); }
    return c.out;
  }
  void text(long long v, bool lenient = false) {
    TextQuery q; { Quiet z; q = query(v); }
    CancellationToken tok; Collector c(str());
    store->search(q.no, q.all, q.any, q.box, utymap::LodRange(q.lod0, q.lod1), c, tok);
    count("op.text"); if (!c.out.empty()) count("op.textHits");
    Quiet z; std::vector<Rec> must, may;
    for (auto &p : tiles) {
      QuadKey k = tile(p.first); if (k.levelOfDetail < q.lod0 || k.levelOfDetail > q.lod1) continue;
      if (!q.box.intersects(utymap::utils::GeoUtils::quadKeyToBoundingBox(k))) continue;
      std::vector<Rec> all = p.second.all(), a, b, u; match(q, p.second.sure, a, b); must.insert(must.end(), a.begin(), a.end());
      may.insert(may.end(), b.begin(), b.end());
      // what else could be there; "or" terms which are known only to doubtful elements may or may not count
      if (all.size() != p.second.sure.size()) { std::vector<Rec> c; match(q, all, u, c, true); for (auto &r : c) if (missing({r}, b)) may.push_back(r); }
    }
    auto ctx = [&] { return "search not='" + q.no + "' and='" + q.all + "' or='" + q.any + "' lod " + std::to_string(q.lod0) + "-" + std::to_string(q.lod1); };
    if (auto m = missing(c.out, may)) fail("text-extra", ctx() + " delivers " + m->text().substr(0, 300) + " which does not match or is not stored");
    if (!lenient) if (auto m = missing(must, c.out)) fail("text-missed", ctx() + " misses " + m->text().substr(0, 300));
    if (!c.out.empty()) cover(hashRecs(c.out));
  }
  void has(int i) {
    bool h = store->hasData(tile(i)); count("op.hasData"); Quiet q; TileState &t = tiles[i];
    if (h && t.all().empty() && !t.touched) fail("phantom-data", "tile " + std::to_string(i) + " reports data although nothing is stored there");
    if (!h && !t.sure.empty()) fail("missing-data", "tile " + std::to_string(i) + " reports no data although " + std::to_string(t.sure.size()) + " elements are stored there");
  }
  void save(int i, long long v) {
    Rec r; { Quiet q; r = element(tile(i), ++n, v); tiles[i].maybe.push_back(r); tiles[i].touched = true; }
    auto e = make(r, ids()); store->save(*e, tile(i));
    Quiet q; auto &t = tiles[i]; t.maybe.pop_back(); t.sure.push_back(r); count("op.save");
    if (r.coords.size() >= 65535) count("op.saveHuge");
  }
  void erase(int i) {
    auto &t = tiles[i]; { Quiet q; auto g = t.sure; g.insert(g.end(), t.unindexed.begin(), t.unindexed.end()); if (!g.empty()) t.groups.push_back(g); t.sure.clear(); t.unindexed.clear(); }
    store->erase(tile(i)); count("op.erase");
    Quiet q; t = TileState();
  }
  void bulk(int i, long long k, long long v) { for (long long j = 0; j < k; ++j) save(i, (v + j * 7) % 4000); count("op.bulk"); }
  // after a definite look at the tile: forget doubts
  void settle(int i) {
    std::vector<Rec> got = search(i); Quiet q; auto &t = tiles[i];
    if (t.maybe.empty() && t.groups.empty()) return;
    std::vector<Rec> sure = t.sure; std::sort(sure.begin(), sure.end()); t.unindexed.clear();
    for (auto &g : t.groups) if (!g.empty() && !missing(g, got)) { sure.insert(sure.end(), g.begin(), g.end()); std::sort(sure.begin(), sure.end()); }
    for (auto &r : got) { auto x = std::lower_bound(sure.begin(), sure.end(), r); if (x != sure.end() && *x == r) sure.erase(x); else t.unindexed.push_back(r); }
    for (auto &g : t.groups) if (!missing(g, got)) t.sure.insert(t.sure.end(), g.begin(), g.end());
    t.maybe.clear(); t.groups.clear();
  }
  void run(const Op &o) {
    if (o.kind == "save") save((int)o.arg(0), o.arg(1));
    else if (o.kind == "search") search((int)o.arg(0));
    else if (o.kind == "csearch") search((int)o.arg(0), o.arg(1));
    else if (o.kind == "text") text(o.arg(0));
    else if (o.kind == "has") has((int)o.arg(0));
    else if (o.kind == "erase") erase((int)o.arg(0));
    else if (o.kind == "bulk") bulk((int)o.arg(0), o.arg(1), o.arg(2));
    else if (o.kind == "flush") { if (persistent) static_cast<utymap::index::PersistentElementStore *>(store.get())->flush(); count("op.flush"); }
  }
};
void dirs() { for (int l = 1; l < 20; ++l) fs::mkdirs("/sim/data/" + std::to_string(l)); }

Op randomOp(Rng &r, int task, int universe, bool wide) {
  int w = (int)r.below(100); int t = wide ? (int)r.below(Tiles) : (int)r.below(universe);
  if (w < 50) return {task, "save", {t, r.chance(0.004) ? 4001 + r.below(6) : r.below(4000)}};
  if (w < 65) return {task, "search", {t}};
  if (w < 69) return {task, "csearch", {t, r.below(4)}};
  if (w < 85) return {task, "text", {r.below(100000)}};
  if (w < 91) return {task, "has", {t}};
  if (w < 97) return {task, "erase", {t}};
  return {task, "flush", {}};
}

// ---- C03, C04: fault-free histories --------------------------------------------
void genStores(Rng &r, Plan &p) {
  p.par["persistent"] = r.chance(0.75); int sessions = p.par["persistent"] ? (int)r.range(1, 4) : 1; p.par["sessions"] = sessions;
  int universe = (int)r.range(1, 5); bool wide = r.chance(0.4); bool text = p.par["text"];
  p.par["geo"] = r.chance(0.3) ? r.range(1, 100000) : 0;
  for (int s = 0; s < sessions; ++s) {
    int n = (int)r.range(1, 25);
    for (int i = 0; i < n; ++i) { Op o = randomOp(r, s, universe, wide); // each of the two scenarios looks its own way
      if (!text && o.kind == "text") o = {s, "search", {r.below(universe)}}; else if (text && (o.kind == "search" || o.kind == "csearch" || o.kind == "has")) o = {s, "text", {r.below(100000)}};
      p.ops.push_back(o); }
    if (r.chance(0.12)) p.op(s, "bulk", {r.below(universe), r.chance(0.3) ? r.range(300, 400) : r.range(40, 150), r.below(4000)});
  }
  // what a kernel may do to any caller and nobody should notice
  long long est = (long long)p.ops.size() * 3;
  if (r.chance(0.7)) p.faults.push_back({"read_partial", r.range(1, est), r.range(1, 40), r.range(1, 999)});
  if (r.chance(0.5)) p.faults.push_back({"write_partial", r.range(1, est), r.range(1, 40), 1000 + r.range(1, 999)});
  if (r.chance(0.3)) p.faults.push_back({"read_eintr", r.range(1, est), 1, 0});
  if (r.chance(0.3)) p.faults.push_back({"write_eintr", r.range(1, est), 1, 0});
}
void execStores(Plan &p) {
  geography(p.p("geo")); dirs(); World w; w.persistent = p.p("persistent", 1);
  runTasks({[&] {
    for (int s = 0; s < p.p("sessions", 1); ++s) {
      w.open();
      for (auto &o : p.ops) if (o.task == s) w.run(o);
      if (s + 1 == p.p("sessions", 1)) { if (!p.p("text")) for (int i = 0; i < Tiles; ++i) { w.has(i); w.search(i); } else for (int i = 0; i < 6; ++i) w.text(p.seed % 1000 + i); }
      w.close();
      if (fs::openHandles()) fail("handle-leak", "files stay open after the store is closed");
    }
  }});
  if (fs::maxOpenHandles() > 40) fail("too-many-handles", std::to_string(fs::maxOpenHandles()) + " files open at once");
}
void genText(Rng &r, Plan &p) { p.par["text"] = 1; genStores(r, p); }
Registrar r1("stores", genStores, execStores);
Registrar r1t("stores_text", genText, execStores);

// ---- C05: process killed at any I/O operation ----------------------------------
void genCrash(Rng &r, Plan &p) {
  p.par["persistent"] = 1; int lives = (int)r.range(2, 4); p.par["lives"] = lives; int universe = (int)r.range(1, 3); bool wide = r.chance(0.15);
  bool big = r.chance(0.08);
  long long est = 10;
  for (int s = 0; s < lives; ++s) {
    int n = (int)r.range(1, 12);
    for (int i = 0; i < n; ++i) { Op o = randomOp(r, s, universe, wide); if (o.arg(1) > 4000) o.a[1] = 7; p.ops.push_back(o); est += o.kind == "save" ? 9 : 4; }
    if (big && s == 0) { p.op(s, "bulk", {0, r.range(330, 350), r.below(4000)}); est += 340 * 9; }
  }
  int kills = (int)r.range(1, lives - 1);
  for (int i = 0; i < kills; ++i) p.faults.push_back({"crash", r.range(1, est), 1, r.chance(0.5) ? r.range(0, 1000) : 0});
  if (r.chance(0.2)) p.faults.push_back({"write_partial", r.range(1, est), r.range(1, 8), r.range(1, 999)});
}
void life(Plan &p, World &w, int s, bool errs) {
  bool alive = runTasks({[&] {
    bool opened = false;
    for (int k = 0; k < 3 && !opened; ++k) try { w.open(); opened = true; } catch (std::exception &e) { count("op.openRejected"); if (!errs) fail("refused", std::string("a healthy store does not open: ") + e.what()); }
    if (!opened) { w.close(); return; }
    for (auto &o : p.ops) if (o.task == s) {
      try { w.run(o); } catch (std::exception &e) { trace("error %s", e.what()); count("op.reportedError"); if (!errs) fail("refused", std::string("operation ") + o.kind + " failed without a fault: " + e.what()); }
    }
    w.close();
  }});
  if (!alive) { count("crash.recovered"); fs::dropHandles(); new (&w.st) std::unique_ptr<StringTable>(); new (&w.store) std::unique_ptr<ElementStore>(); }
  else fs::dropHandles();
}
void finalLife(Plan &p, World &w) {
  fs::g_faultsOn = false;
  runTasks({[&] {
    w.open();
    for (int i = 0; i < Tiles; ++i) { w.has(i); w.search(i); }
    for (int i = 0; i < 3; ++i) w.text(p.seed % 1000 + i);
    for (int i = 0; i < Tiles; ++i) if (w.tiles.count(i) && (!w.tiles[i].all().empty() || w.tiles[i].touched)) { w.settle(i); w.save(i, (p.seed + i) % 4000); w.save(i, (p.seed + 7 * i) % 4000); }
    w.close(); w.open();
    for (int i = 0; i < Tiles; ++i) { w.has(i); w.search(i); }
    for (int i = 0; i < 3; ++i) w.text(p.seed % 1000 + i, false);
    for (int i = 0; i < 2; ++i) { w.erase(i); w.has(i); w.search(i); w.save(i, i + 5); w.search(i); }
    w.close();
  }});
}
void execCrash(Plan &p) {
  geography(0); dirs(); World w; w.persistent = true; w.faulty = true;
  for (int s = 0; s < p.p("lives", 1); ++s) life(p, w, s, false);
  finalLife(p, w);
}
Registrar r2("stores_crash", genCrash, execCrash);

// ---- C06: disk errors ------------------------------------------------------------
void genErr(Rng &r, Plan &p) {
  genCrash(r, p); if (!r.chance(0.2)) p.faults.clear();
  long long est = 10; for (auto &o : p.ops) est += o.kind == "save" ? 4 : 1;
  int k = (int)r.range(1, 2);
  for (int i = 0; i < k; ++i) switch (r.below(6)) {
    case 0: p.faults.push_back({"write_err", r.range(1, est), r.range(1, 10), ENOSPC}); break;
    case 1: p.faults.push_back({"write_err", r.range(1, est), r.range(1, 3), EIO}); break;
    case 2: p.faults.push_back({"read_err", r.range(1, est / 2 + 1), r.range(1, 3), EIO}); break;
    case 3: p.faults.push_back({"open_err", r.range(1, est / 2 + 5), r.range(1, 3), r.chance(0.5) ? EMFILE : EACCES}); break;
    case 4: p.faults.push_back({"unlink_err", r.range(1, 6), r.range(1, 2), EACCES}); break;
    case 5: p.faults.push_back({"rename_err", r.range(1, est / 4 + 1), r.range(1, 2), r.chance(0.5) ? EACCES : ENOSPC}); break;
  }
}
void execErr(Plan &p) {
  geography(0); dirs(); World w; w.persistent = true; w.faulty = true;
  for (int s = 0; s < p.p("lives", 1); ++s) life(p, w, s, true);
  finalLife(p, w);
}
Registrar r3("stores_err", genErr, execErr);
}
