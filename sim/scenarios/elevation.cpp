// C14: the height at a place is interpolated from the elevation file of the place, whatever was asked before, by
// whichever thread, and whichever files were missing, cut or unreadable then.
#include "world.hpp"
#include <cerrno>
#include <tuple>
using namespace sim;
namespace {
enum { Flat = 0, Srtm = 1, Grid = 2 };
const int Corner = 6, South = 7;          // a tile over the corner of four cells; one in the other hemisphere
// three cells anywhere, whose coordinates resemble each other
std::vector<std::pair<int, int>> g_cells;
const int Anywhere = 8;
void geography(long long seed) {
  g_cells.clear(); if (!seed) return; Rng r((uint64_t)seed * 104729 + 1);
  auto ok = [&](int la, int lo) { if (la < -80 || la > 79 || lo < -179 || lo > 178) return false; for (auto &c : g_cells) if (c == std::make_pair(la, lo)) return false; return true; };
  while (g_cells.size() < 3) { int la = (int)r.range(-80, 79), lo = (int)r.range(-179, 178);
    if (!g_cells.empty()) { std::tie(la, lo) = g_cells[r.below(g_cells.size())]; int s = r.chance(0.5) ? 1 : -1; const int w[] = {10, 90, 100, 128, 180, 180, 180, 256, 360};
      switch (r.below(5)) { case 0: case 1: la += s; lo -= s * w[r.below(9)]; break; case 2: r.chance(0.5) ? la = -la : lo = -lo; break; case 3: std::swap(la, lo); break; default: r.chance(0.5) ? la = -la - 1 : lo = -lo - 1; } if (!ok(la, lo)) la = (int)r.range(-80, 79); }
    if (ok(la, lo)) g_cells.push_back({la, lo}); }
}
utymap::QuadKey where(int t) { if (t >= Anywhere) return utymap::utils::GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(g_cells[t - Anywhere].first + 0.3 + 0.1 * t / 3, g_cells[t - Anywhere].second + 0.5), 13);
  return t == Corner ? utymap::utils::GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(53.00001, 12.99999), 12) : t == South ? utymap::utils::GeoUtils::GeoCoordinateToQuadKey(utymap::GeoCoordinate(-33.4, -70.6), 16) : world::tile(t); }

struct Cell { int lat, lon; int seed; int px; };
int pixel(const Cell &c, int x, int y) { uint64_t h = (uint64_t)(c.lat * 1000 + c.lon) * 1000003 + c.seed * 7919 + (uint64_t)(x / 8) * 31 + (uint64_t)(y / 8) * 17; h ^= h >> 7; h *= 0x9E3779B97F4A7C15ull; return (int)((h >> 40) % 3600) - 450 + (x % 8) * 3 - (y % 8) * 5; }
std::string hgt(const Cell &c) { // rows from north to south
  std::string s((size_t)c.px * c.px * 2, 0); char *o = &s[0]; for (int r = 0; r < c.px; ++r) for (int x = 0; x < c.px; ++x) { int h = pixel(c, x, c.px - 1 - r); *o++ = (char)(h >> 8); *o++ = (char)h; } return s; }
struct EleGrid { int n; std::vector<int> h; std::string text() const { std::string s; for (size_t i = 0; i < h.size(); ++i) s += (i ? " " : "") + std::to_string(h[i]); return s; } };

struct Run {
  Plan &p; std::map<int, EleGrid> grids; std::map<std::pair<int, int>, Cell> cells; std::map<std::string, int> bad; // path -> how it is damaged
  std::set<std::string> touched; bool ended = false;
  explicit Run(Plan &p) : p(p) {}
  static std::string gridPath(int t) { auto k = where(t); return "/sim/app/data/" + std::to_string(k.levelOfDetail) + "/" + utymap::utils::GeoUtils::quadKeyToString(k) + ".ele"; }
  static std::string cellPath(int lat, int lon) { char b[64]; snprintf(b, sizeof b, "/sim/app/data/%c%02d%c%03d.hgt", lat < 0 ? 'S' : 'N', std::abs(lat), lon < 0 ? 'W' : 'E', std::abs(lon)); return b; }
  std::string good(const std::string &path) { for (auto &g : grids) if (gridPath(g.first) == path) return g.second.text(); for (auto &c : cells) if (cellPath(c.first.first, c.first.second) == path) return hgt(c.second); return ""; }
  void put(const std::string &path, int how) { // 0 good, 1 missing, 2 empty, 3 cut, 4 longer
    Quiet q; bad[path] = how; bool grid = path.size() > 4 && path.compare(path.size() - 4, 4, ".ele") == 0;
    if (how == 1) { if (fs::exists(path)) fs::remove(path); return; } if (how == 2) { fs::write(path, ""); return; }
    std::string s = good(path); if (how == 3) { if (grid) s = s.substr(0, s.rfind(' ')); else s.resize(s.size() - 1); } if (how == 4) s += grid ? " 5" : "x"; fs::write(path, s);
  }
  void content(int variant) {
    Quiet q; Rng r(p.p("content") * 31 + variant); grids.clear(); cells.clear();
    for (int t = 0; t < 5; ++t) { EleGrid g; g.n = (int)r.range(2, 9); for (int i = 0; i < g.n * g.n; ++i) g.h.push_back((int)r.range(-400, 3000)); grids[t] = g; put(gridPath(t), 0); }
    if (p.p("srtm")) { auto add = [&](int lat, int lon) { cells[{lat, lon}] = Cell{lat, lon, (int)r.below(1000), 1201}; put(cellPath(lat, lon), 0); }; int m = (int)p.p("srtm"); if (m & 3) add(52, 13); if (m & 2) { add(52, 12); add(53, 12); add(53, 13); } if (m & 4) add(57, -16); if (m & 8) add(-34, -71); for (auto &c : g_cells) add(c.first, c.second); }
  }
  double gridModel(int t, double lat, double lon) { auto &g = grids[t]; auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(where(t)); int m = g.n - 1; double x = (lon - b.minPoint.longitude) / b.width() * m, y = (lat - b.minPoint.latitude) / b.height() * m; int x0 = std::min(m - 1, std::max(0, (int)x)), y0 = std::min(m - 1, std::max(0, (int)y)); double dx = x - x0, dy = y - y0; auto H = [&](int x, int y) { return (double)g.h[x + y * g.n]; };
    return H(x0, y0) * (1 - dx) * (1 - dy) + H(x0 + 1, y0) * dx * (1 - dy) + H(x0, y0 + 1) * (1 - dx) * dy + H(x0 + 1, y0 + 1) * dx * dy; }
  double cellModel(const Cell &c, double lat, double lon) { double s = (c.px - 1), x = (lon - c.lon) * s, y = (lat - c.lat) * s; int x0 = (int)x, y0 = (int)y; double dx = x - x0, dy = y - y0; return pixel(c, x0, y0) * (1 - dx) * (1 - dy) + pixel(c, x0 + 1, y0) * dx * (1 - dy) + pixel(c, x0, y0 + 1) * (1 - dx) * dy + pixel(c, x0 + 1, y0 + 1) * dx * dy; }
  static long long faults() { long long k = 0; for (auto &c : counters()) if (c.first.compare(0, 6, "fault.") == 0 && c.first.find("_err") != std::string::npos) k += c.second; return k; }
  void get(const Op &o, bool last = false) {
    int t = (int)o.arg(0), type = (int)o.arg(1); auto k = where(t); auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(k);
    int m = (int)p.p("srtm"); if (type == Srtm && t < Anywhere && !(t == Corner ? m & 2 : t == South ? m & 8 : t == 5 ? m & 4 : m & 3)) return; if (type == Grid && t > 4) return;
    double lat = b.minPoint.latitude + b.height() * (o.arg(2) + 0.5) / 1000, lon = b.minPoint.longitude + b.width() * (o.arg(3) + 0.5) / 1000;
    std::string own; double want = 0, tol = 1e-9; bool mayFail = false, mustFail = false;
    { Quiet q; if (type == Grid) { own = gridPath(t); want = gridModel(t, lat, lon); tol = 34; mustFail = bad[own] != 0; touched.insert(own); }
      else if (type == Srtm) { int y = (int)std::floor(lat), x = (int)std::floor(lon); own = cellPath(y, x); want = cellModel(cells[{y, x}], lat, lon); tol = 1; mustFail = bad[own] != 0; for (auto &c : cells) if (t == Corner && bad[cellPath(c.first.first, c.first.second)]) mayFail = true; touched.insert(own); if (t == Corner) for (auto &c : cells) touched.insert(cellPath(c.first.first, c.first.second)); } }
    long long f0 = faults(); double got = getElevationByQuadKey(k.tileX, k.tileY, k.levelOfDetail, type, lat, lon);
    Quiet q; trace("tile %d type %d: %.3f", t, type, got); count(type == Srtm ? "op.srtm" : type == Grid ? "op.grid" : "op.flat");
    if (faults() != f0) mayFail = true;
    if (mustFail && !last) { if (bad[own]) { if (got != 0) fail("wrong-height", "the height " + std::to_string(got) + " is told from a file which is " + how(bad[own])); count("op.unknown"); return; } mayFail = true; } // repaired meanwhile
    if (std::fabs(got - want) <= tol) { if (type != Flat) count("op.known"); cover(hashBytes(&got, sizeof got)); return; }
    if (mayFail && !last && got == 0) { count("op.unknown"); return; }
    fail("wrong-height", std::string(type == Srtm ? "srtm" : type == Grid ? "grid" : "flat") + " height in tile " + std::to_string(t) + " at " + std::to_string(lat) + " " + std::to_string(lon) + " is " + std::to_string(got) + " instead of " + std::to_string(want) + (last ? " after all files became readable" : ""));
  }
  static const char *how(int h) { const char *n[] = {"good", "missing", "empty", "cut", "too long"}; return n[h]; }
  std::string path(const Op &o) { std::vector<std::string> v; for (auto &g : grids) v.push_back(gridPath(g.first)); if (o.arg(2)) { v.clear(); for (auto &c : cells) v.push_back(cellPath(c.first.first, c.first.second)); } return v.empty() ? gridPath(0) : v[o.arg(0) % v.size()]; }
  void one(const Op &o) {
    if (o.kind == "get") get(o);
    else if (o.kind == "damage") { Quiet q; auto f = path(o); if (!touched.count(f) || bad[f]) put(f, (int)o.arg(1)); }   // a file which may be in use stays
    else if (o.kind == "repair") { Quiet q; auto f = path(o); if (bad[f]) put(f, 0); }
    else if (o.kind == "restart") { disconnect(); { Quiet q; if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down"); touched.clear(); bad.clear(); content(++variant); } world::start(false); }
  }
  int variant = 0;
  void all() {
    fs::g_faultsOn = false; content(0);
    size_t n0; { Quiet q; n0 = fs::list("/sim/app/data").size(); }
    std::vector<std::vector<Op>> by(8); for (auto &o : p.ops) by[o.task].push_back(o);
    runTasks({[&] { world::start(false); fs::g_faultsOn = true; for (auto &o : by[0]) one(o); fs::g_faultsOn = false; }});
    std::vector<std::function<void()>> bodies; for (int t = 1; t < 8; ++t) if (!by[t].empty()) { auto *ops = &by[t]; bodies.push_back([&, ops] { for (auto &o : *ops) one(o); }); }
    if (!bodies.empty()) { race::enable(true); fs::g_faultsOn = true; runTasks(bodies); fs::g_faultsOn = false; race::enable(false); setSchedule(0, 0); }
    runTasks({[&] { Rng r(p.seed); { Quiet q; for (auto &b : std::map<std::string, int>(bad)) if (b.second) put(b.first, 0); }
      for (int t = 0; t < Anywhere + (int)g_cells.size(); ++t) for (int type = 0; type < 3; ++type) { Op o{0, "get", {t, type, r.below(1000), r.below(1000)}}; get(o, true); }
      { Quiet q; if (fs::list("/sim/app/data").size() != n0) fail("file-created", "asking for a height creates or removes elevation files"); }
      disconnect(); Quiet q; if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down"); }});
  }
};
void gen(Rng &r, Plan &p, bool threads) {
  p.par["content"] = r.below(1000); { const int m[] = {1, 1, 2, 2, 5, 4, 8, 12}; p.par["srtm"] = r.chance(threads ? 0.05 : 0.12) ? m[r.below(8)] : 0; } if (p.p("srtm") && r.chance(0.5)) { p.par["geo"] = r.range(1, 100000); p.par["srtm"] = 16; } bool s = p.p("srtm");
  auto get = [&](int task) { int type = s && r.chance(0.6) ? Srtm : r.chance(0.05) ? Flat : Grid; p.op(task, "get", {type == Srtm ? p.p("geo") && r.chance(0.8) ? Anywhere + r.below(3) : (r.chance(0.7) ? (p.p("srtm") & 2 ? Corner : p.p("srtm") == 12 ? 5 + 2 * r.below(2) : p.p("srtm") & 8 ? South : p.p("srtm") & 4 ? 5 : r.below(5)) : r.below(5)) : r.below(5), type, r.below(1000), r.below(1000)}); };
  auto some = [&](int task, int n, bool damage) { for (; n > 0; --n) { double c = r.unit(); if (damage && c < 0.2) p.op(task, "damage", {r.below(64), r.range(1, 4), s && r.chance(0.5)}); else if (c < (damage ? 0.35 : 0.12)) p.op(task, "repair", {r.below(64), 0, s && r.chance(0.5)}); else if (damage && c < 0.38) p.op(task, "restart"); else get(task); } };
  if (threads) { for (int i = (int)r.range(0, 4); i > 0; --i) p.op(0, "damage", {r.below(64), r.range(1, 4), s && r.chance(0.5)}); for (int t = 1, n = (int)r.range(2, 3); t <= n; ++t) some(t, (int)r.range(1, 6), false); }
  else some(0, (int)r.range(3, 24), true);
  if (r.chance(0.4)) for (int i = (int)r.range(1, 3); i > 0; --i) { const char *k[] = {"read_err:.ele", "open_err:.ele", "read_err:.hgt", "open_err:.hgt", "read_partial", "read_eintr"}; p.faults.push_back({k[s ? r.below(6) : r.below(2) + 4 * r.chance(0.2)], r.range(1, 8), 1, r.chance(0.7) ? EIO : EMFILE}); }
  if (threads) { p.par["strategy"] = r.below(3); p.par["prob"] = r.range(1, 60); }
}
void gen1(Rng &r, Plan &p) { gen(r, p, false); }
void gen2(Rng &r, Plan &p) { gen(r, p, true); }
void exec(Plan &p) { geography(p.p("geo")); world::install(0); if (p.par.count("strategy")) setSchedule((int)p.p("strategy"), p.p("strategy") == 2 ? 150 : p.p("prob") / 100.0); Run r{p}; r.all(); }
Registrar a("elevation", gen1, exec), b("elevation_threads", gen2, exec);
}
