// C22: the ground of a tile - every place is covered by exactly one triangle which looks as the topmost element
// of the place says and which lies at the height of the place.
#include "world.hpp"
using namespace sim; using utymap::CancellationToken; using utymap::QuadKey; using utymap::BoundingBox;
using world::Map; using world::TagList; using world::Member;
namespace {
typedef std::pair<double, double> Pt; // latitude, longitude
typedef std::vector<Pt> Ring;
const int Tiles = 9;
QuadKey tileAt(int i) { return QuadKey(16, 35203 + i % 3, 21487 + i / 3); }
BoundingBox boxOf(int i) { return utymap::utils::GeoUtils::quadKeyToBoundingBox(tileAt(i)); }
std::string nameOf(int i) { auto k = tileAt(i); return "tile " + std::to_string(k.levelOfDetail) + "/" + std::to_string(k.tileX) + "/" + std::to_string(k.tileY); }
double round7(double v) { return std::round(v * 1e7) / 1e7; }

// ---- elements and style ----------------------------------------------------------
struct Thing { char type; uint64_t id; std::string uid; std::vector<Ring> rings; double width = 0; int layer = -1; int color = 0; double offset = 0; bool named = false; int order = 0; }; // type a, w, m(ultipolygon)
struct Layer { const char *name; int order; int color; double offset; };
struct Ground { Map map; std::vector<Thing> things; Layer layers[3]; int canvas; double area; std::string style; bool canvasOffset = false; };
int rgb(int i) { return (0x10 + i * 7) << 16 | (0x80 ^ i * 37) << 8 | (i * 11 + 5); }
std::string hex(int c) { char b[16]; snprintf(b, sizeof b, "#%06x", c & 0xffffff); return b; }
int shown(int c) { return (int)((unsigned)c << 8 | 0xff); }
double seg(Pt p, Pt a, Pt b) { double dx = b.second - a.second, dy = b.first - a.first, l = dx * dx + dy * dy, t = l > 0 ? ((p.second - a.second) * dx + (p.first - a.first) * dy) / l : 0; t = std::max(0., std::min(1., t)); return std::hypot(p.second - a.second - t * dx, p.first - a.first - t * dy); }
bool within(Pt p, const Ring &r) { bool in = false; for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) if ((r[i].first > p.first) != (r[j].first > p.first) && p.second < (r[j].second - r[i].second) * (p.first - r[i].first) / (r[j].first - r[i].first) + r[i].second) in = !in; return in; }
// 1: covers the place, 0: does not, -1: the border is near
int covers(const Thing &t, Pt p) {
  if (t.type == 'w') { double d = 1e9; for (size_t i = 0; i + 1 < t.rings[0].size(); ++i) d = std::min(d, seg(p, t.rings[0][i], t.rings[0][i + 1])); return d < t.width * 0.87 - 1e-6 ? 1 : d > t.width + 1e-6 ? 0 : -1; }
  bool in = false; for (auto &r : t.rings) { for (size_t i = 0, j = r.size() - 1; i < r.size(); j = i++) if (seg(p, r[i], r[j]) < 1e-6) return -1; if (within(p, r)) in = !in; } return in;
}
Ground makeGround(uint64_t seed) {
  Rng r(seed * 30011 + 17); Ground g; uint64_t id = 1 + r.below(1000000); BoundingBox b = boxOf(4); double h = b.height(), w = b.width(); int color = (int)r.below(4);
  g.layers[0] = {"water", 2, 0, 0}; g.layers[1] = {"road", 1, 0, 0}; g.layers[2] = {"sand", -1, 0, 0}; g.canvas = rgb(color++); g.area = r.chance(0.5) ? 5 : r.range(1, 30);
  for (auto &l : g.layers) { l.color = rgb(color++); if (r.chance(0.3)) l.order = (int)r.range(-3, 3); if (r.chance(0.2)) l.offset = r.chance(0.5) ? -1 : 2; }
  auto P = [&](Pt p) { g.map.nodes.push_back({++id, p.first, p.second, {}}); return id; };
  auto at = [&](double y, double x) { return Pt{round7(b.minPoint.latitude + h * y), round7(b.minPoint.longitude + w * x)}; };
  auto star = [&](double cy, double cx, double s) { Ring c; int n = (int)r.range(3, 9); double a0 = r.unit() * 6.28; for (int i = 0; i < n; ++i) { double a = a0 + 6.2831853 * i / n, k = s * (n < 5 ? 1 : 0.5 + 0.5 * r.unit()); c.push_back(at(cy + k * std::sin(a), cx + k * std::cos(a))); } if (r.chance(0.5)) std::reverse(c.begin(), c.end()); return c; };
  auto box = [&](double cy, double cx, double s) { Ring c{at(cy - s, cx - s), at(cy - s, cx + s), at(cy + s, cx + s), at(cy + s, cx - s)}; if (r.chance(0.5)) std::reverse(c.begin(), c.end()); return c; };
  auto way = [&](const Ring &c, bool closed, const TagList &t) { std::vector<uint64_t> v; for (auto &q : c) v.push_back(P(q)); if (closed) v.push_back(v[0]); g.map.ways.push_back({++id, v, t}); return id; };
  std::ostringstream s; bool plain = r.chance(0.5);
  for (int n = (int)r.range(1, 6), i = 0; i < n; ++i) {
    Thing t; t.uid = "u" + std::to_string(i); int k = (int)r.below(10); t.type = k < 5 ? 'a' : k < 8 ? 'w' : 'm'; t.color = rgb(color++); if (r.chance(t.type == 'w' ? 0.7 : 0.4)) t.layer = (int)r.below(3); TagList tags{{"uid", t.uid}};
    if (t.type == 'a') { bool wide = r.chance(0.4); double sz = wide ? 0.3 + 0.9 * r.unit() : 0.03 + 0.2 * r.unit(); double cy = wide ? r.unit() : sz + 0.02 + (0.96 - 2 * sz) * r.unit(), cx = wide ? r.unit() : sz + 0.02 + (0.96 - 2 * sz) * r.unit(); t.rings.push_back(r.chance(0.3) ? box(cy, cx, sz * 0.7) : star(cy, cx, sz)); t.id = way(t.rings[0], true, tags); }
    else if (t.type == 'w') { Ring c; for (int q = (int)r.range(2, 5); q > 0; --q) c.push_back(at(0.1 + 0.8 * r.unit(), 0.1 + 0.8 * r.unit())); t.rings.push_back(c); t.id = way(c, false, tags); }
    else { double sz = 0.1 + 0.25 * r.unit(), cy = sz + 0.02 + (0.96 - 2 * sz) * r.unit(), cx = sz + 0.02 + (0.96 - 2 * sz) * r.unit(); std::vector<Member> m; t.rings.push_back(box(cy, cx, sz * 0.7)); m.push_back({way(t.rings[0], true, {}), "outer"}); t.rings.push_back(star(cy + (r.unit() - 0.5) * 0.2 * sz, cx + (r.unit() - 0.5) * 0.2 * sz, sz * 0.3)); m.push_back({way(t.rings[1], true, {}), "inner"}); tags.push_back({"type", "multipolygon"}); g.map.rels.push_back({++id, m, tags}); t.id = id; }
    int pct = (int)r.range(1, 4); t.width = t.type == 'w' ? h * pct * 0.01 : 0; t.named = t.layer < 0 && r.chance(0.3); t.order = t.layer < 0 ? 0 : g.layers[t.layer].order; t.offset = t.layer < 0 ? (!plain && r.chance(0.1) ? -0.5 : 0) : g.layers[t.layer].offset; if (t.layer >= 0) t.color = g.layers[t.layer].color;
    const char *type = t.type == 'a' ? "area" : t.type == 'w' ? "way" : "area,relation"; // members of a relation need a style too
    s << type << "|z16[uid=" << t.uid << "] { clip: true; builder: terrain; ";
    if (t.layer >= 0) s << "terrain-layer: " << g.layers[t.layer].name << "; "; else { s << "max-area: " << (r.chance(0.2) ? 0 : g.area) << "%; ele-noise-freq: 0; color-noise-freq: 0; color: gradient(" << hex(t.color) << "); texture-index: 0; texture-type: background; texture-scale: 100; "; if (t.offset) s << "height-offset: " << t.offset << "m; "; if (t.named) s << "mesh-name: part" << i << "; "; }
    if (t.type == 'w') s << "width: " << pct << "%; "; s << "}\n"; g.things.push_back(t);
  }
  std::ostringstream c; c << "canvas|z16 { grid-cell-size: " << (r.chance(0.5) ? 25 : r.range(5, 100)) << "%; max-area: " << g.area << "%; ele-noise-freq: 0; color-noise-freq: 0; color: gradient(" << hex(g.canvas) << "); texture-index: 0; texture-type: background; texture-scale: 10;\n";
  for (auto &l : g.layers) { c << l.name << "-sort-order: " << l.order << "; " << l.name << "-color: gradient(" << hex(l.color) << "); " << l.name << "-max-area: " << (r.chance(0.5) ? 0 : g.area) << "%; " << l.name << "-ele-noise-freq: 0; " << l.name << "-color-noise-freq: 0; "; if (l.offset) c << l.name << "-height-offset: " << l.offset << "m; "; c << "\n"; }
  c << "}\nrelation|z16[type=multipolygon] { multipolygon: true; }\n" << s.str() << "@texture url(\"atlas.txt\");\n"; g.style = c.str(); return g;
}

// ---- the engine's answers --------------------------------------------------------
struct M { std::string name; std::vector<double> v; std::vector<int> t, c; };
struct Ask { std::vector<M> meshes; };
std::vector<Ask> *g_asks; std::string *g_error;
void onError(const char *m) { Quiet q; *g_error = m && *m ? m : "(no message)"; }
void onElement(int, std::uint64_t id, const char **, int, const double *, int, const char **, int) { Quiet q; fail("extra-element", "element " + std::to_string(id) + " is delivered which no style asks for"); }
void onMesh(int tag, const char *name, const double *v, int vn, const int *t, int tn, const int *c, int cn, const double *, int un, const int *, int) {
  { Quiet q; if (tag < 0 || tag >= (int)g_asks->size()) fail("wrong-tag", "a callback carries request tag " + std::to_string(tag));
    if (vn % 3 || tn % 3 || cn != vn / 3 || un != vn / 3 * 2) fail("broken-mesh", std::string("mesh ") + name + " has " + std::to_string(vn) + " coordinates, " + std::to_string(tn) + " indices, " + std::to_string(cn) + " colors, " + std::to_string(un) + " texture coordinates");
    for (int k = 0; k < tn; ++k) if (t[k] < 0 || t[k] >= vn / 3) fail("broken-mesh", std::string("mesh ") + name + " refers to a vertex it does not have");
    (*g_asks)[tag].meshes.push_back({name, {v, v + vn}, {t, t + tn}, {c, c + cn}}); count("op.mesh"); }
  schedPoint("callback", nullptr);
}
void newDir(const char *p) { Quiet q; fs::mkdirs(p); }

struct Run {
  Plan &p; Ground g; bool pers, held = false; explicit Run(Plan &p) : p(p), g(makeGround((uint64_t)p.p("data"))), pers(p.p("pers")) {}
  void files() {
    Quiet q; fs::mkdirs("/sim/in"); for (int l = 16; l <= 16; ++l) fs::mkdirs("/sim/app/data/" + std::to_string(l)); fs::mkdirs("/sim/app/cache");
    fs::write("/sim/app/s.mapcss", g.style); fs::write("/sim/app/atlas.txt", "0,512,512\nbackground,0,0,512,512\n"); if (p.p("show")) { fprintf(stderr, "%s\n", g.style.c_str()); for (auto &t : g.things) { fprintf(stderr, "%s %c layer %d order %d color %s width %g offset %g:", t.uid.c_str(), t.type, t.layer, t.order, hex(t.color).c_str(), t.width, t.offset); for (auto &q : t.rings) { fprintf(stderr, " ["); for (auto &x : q) fprintf(stderr, " %.7f,%.7f", x.first, x.second); fprintf(stderr, " ]"); } fprintf(stderr, "\n"); } }
    fs::write("/sim/in/0.osm.xml", world::osmXml(g.map)); std::string pbf; for (auto &b : world::osmPbf(g.map)) pbf += b; fs::write("/sim/in/1.osm.pbf", pbf);
    for (int i = 0; i < Tiles; ++i) fs::write("/sim/app/data/16/" + utymap::utils::GeoUtils::quadKeyToString(tileAt(i)) + ".ele", world::grid(i, (int)p.p("data") % 2));
  }
  void check(const char *what) { Quiet q; if (!g_error->empty()) fail("refused", std::string(what) + " fails: " + *g_error); }
  void open() {
    { Quiet q; g_error->clear(); } connect("/sim/app/", onError); check("connect"); registerStylesheet("/sim/app/s.mapcss", newDir);
    if (pers) registerPersistentStore("a", "/sim/app/data", newDir); else registerInMemoryStore("a");
    enableMeshCache((int)p.p("cache"));
  }
  void import(const Op &o) {
    if (held) return; CancellationToken tok; std::string path; { Quiet q; path = o.arg(0) ? "/sim/in/1.osm.pbf" : "/sim/in/0.osm.xml"; g_error->clear(); }
    addDataInRange("a", "/sim/app/s.mapcss", path.c_str(), 16, 16, onError, &tok); check("an import"); held = true; count("op.import");
  }
  void request(const Op &o) {
    int i = (int)o.arg(0), ele = (int)o.arg(1) ? 2 : 0, tag; { Quiet q; g_asks->emplace_back(); tag = (int)g_asks->size() - 1; } auto k = tileAt(i); CancellationToken tok;
    getDataByQuadKey(tag, "/sim/app/s.mapcss", k.tileX, k.tileY, k.levelOfDetail, ele, onMesh, onElement, onError, &tok); check("a request"); count("op.request");
    judge(i, ele, (*g_asks)[tag].meshes);
  }
  void judge(int i, int ele, const std::vector<M> &ms) {
    std::string where = nameOf(i) + " of ground " + std::to_string(p.p("data")); auto b = boxOf(i); auto k = tileAt(i); Quiet q; auto text = [](double v) { char s[40]; snprintf(s, sizeof s, "%.12g", v); return std::string(s); };
    if (ms.empty()) { if (i == 4 && held) fail("no-ground", where + " has no ground"); return; }
    double area = 0, want = b.width() * b.height(); std::set<double> offs{0}; for (auto &l : g.layers) offs.insert(l.offset); for (auto &t : g.things) offs.insert(t.offset); int up = 0, down = 0;
    struct Tri { double x[3], y[3], z[3]; int c[3]; }; std::vector<Tri> tris;
    for (auto &m : ms) {
      for (size_t v = 0; v + 2 < m.v.size(); v += 3) {
        if (m.v[v] < b.minPoint.longitude - 2e-7 || m.v[v] > b.maxPoint.longitude + 2e-7 || m.v[v + 1] < b.minPoint.latitude - 2e-7 || m.v[v + 1] > b.maxPoint.latitude + 2e-7) fail("outside", where + " has ground outside of the tile: " + text(m.v[v + 1]) + "," + text(m.v[v]));
      }
      for (size_t t = 0; t + 2 < m.t.size(); t += 3) { Tri x; for (int j = 0; j < 3; ++j) { x.x[j] = m.v[m.t[t + j] * 3]; x.y[j] = m.v[m.t[t + j] * 3 + 1]; x.z[j] = m.v[m.t[t + j] * 3 + 2]; x.c[j] = m.c[m.t[t + j]]; } double a = ((x.x[1] - x.x[0]) * (x.y[2] - x.y[0]) - (x.x[2] - x.x[0]) * (x.y[1] - x.y[0])) / 2; area += std::fabs(a); if (a > 1e-13) ++up; if (a < -1e-13) ++down; if (std::fabs(a) > 1e-15) tris.push_back(x); }
    }
    if (up && down) fail("wrong-side", where + " has " + std::to_string(std::min(up, down)) + " of " + std::to_string(up + down) + " triangles which show the other side");
    if (p.p("show")) { std::map<std::string, double> by; for (auto &m : ms) for (size_t t = 0; t + 2 < m.t.size(); t += 3) { double x[3], y[3]; for (int j = 0; j < 3; ++j) { x[j] = m.v[m.t[t + j] * 3]; y[j] = m.v[m.t[t + j] * 3 + 1]; } by[m.name + hex((unsigned)m.c[m.t[t]] >> 8)] += std::fabs((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0])) / 2; } for (auto &q : by) fprintf(stderr, "  %s %.6f%%\n", q.first.c_str(), q.second / want * 100); }
    if (p.p("show")) fprintf(stderr, "%s area %.6f tris %zu meshes %zu\n", where.c_str(), area / want, tris.size(), ms.size());
    if (std::fabs(area / want - 1) > 0.001) fail(area < want ? "hole" : "overlap", where + ": the area of its ground is " + text(area / want) + " of the area of the tile");
    Rng r((uint64_t)p.p("data") * 100 + i); // the same places at each request
    for (int n = 0; n < 60; ++n) {
      Pt pt{b.minPoint.latitude + b.height() * (0.002 + 0.996 * r.unit()), b.minPoint.longitude + b.width() * (0.002 + 0.996 * r.unit())}; bool near = false; int top = -1000; std::vector<const Thing *> on;
      for (auto &t : g.things) { int c = covers(t, pt); if (c < 0) near = true; if (c > 0) { on.push_back(&t); top = std::max(top, t.order); } } if (near) continue;
      int hit = 0, color = 0; const Tri *tri = nullptr; for (auto &t : tris) { double d[3]; for (int j = 0; j < 3; ++j) { int e = (j + 1) % 3; d[j] = (t.x[e] - t.x[j]) * (pt.first - t.y[j]) - (t.y[e] - t.y[j]) * (pt.second - t.x[j]); } if ((d[0] > 0 && d[1] > 0 && d[2] > 0) || (d[0] < 0 && d[1] < 0 && d[2] < 0)) { ++hit; tri = &t; color = t.c[0]; if (t.c[1] != color || t.c[2] != color) fail("wrong-color", where + " has a triangle of several colors"); } }
      std::string here = where + " at " + text(pt.first) + "," + text(pt.second);
      if (hit != 1) { if (hit == 0) { bool edge = false; for (auto &t : tris) for (int j = 0; j < 3; ++j) { int e = (j + 1) % 3; edge = edge || seg(pt, {t.y[j], t.x[j]}, {t.y[e], t.x[e]}) < 1e-10; } if (edge) continue; } fail(hit ? "overlap" : "hole", here + ": " + std::to_string(hit) + " triangles cover the place"); }
      bool ok = on.empty() && color == shown(g.canvas); std::string want; for (auto *t : on) { if (t->order != top) continue; ok = ok || color == shown(t->color); want += " " + hex(t->color); }
      if (!ok) fail("wrong-color", here + ": the color is " + hex((unsigned)color >> 8) + " instead of" + (on.empty() ? " " + hex(g.canvas) : want)); 
      std::set<double> lifts; if (on.empty()) lifts.insert(0); for (auto *t : on) if (t->order == top && color == shown(t->color)) lifts.insert(t->offset);
      for (int j = 0; tri && j < 3; ++j) { double h = ele ? getElevationByQuadKey(k.tileX, k.tileY, k.levelOfDetail, ele, tri->y[j], tri->x[j]) : 0; bool fits = false; for (double l : lifts) fits = fits || std::fabs(h + l - tri->z[j]) < 1e-6; if (!fits) fail("wrong-offset", here + ": the ground lies " + text(tri->z[j] - h) + " above the height of the place, the style says " + text(*lifts.begin())); }
      count(on.empty() ? "check.canvas" : on.size() > 1 ? "check.stacked" : "check.thing");
    }
    for (auto &m : ms) for (size_t v = 0, n = 0; v + 2 < m.v.size(); v += 3, ++n) {
      double h = ele ? getElevationByQuadKey(k.tileX, k.tileY, k.levelOfDetail, ele, m.v[v + 1], m.v[v]) : 0; bool ok = false; for (double o : offs) ok = ok || std::fabs(h + o - m.v[v + 2]) < 1e-6; if (!ok && p.p("show")) { fprintf(stderr, "mesh %s vertex %zu of %zu: %.12f %.12f height %.9f not %.9f\n", m.name.c_str(), n, m.v.size() / 3, m.v[v + 1], m.v[v], m.v[v + 2], h); continue; } if (!ok) fail("wrong-height", where + " has ground of height " + text(m.v[v + 2]) + " at " + text(m.v[v + 1]) + "," + text(m.v[v]) + " where the height is " + text(h)); count("check.height");
    }
  }
  void one(const Op &o) {
    if (o.kind == "import") import(o); else if (o.kind == "request") request(o);
    else if (o.kind == "restart") { disconnect(); { Quiet q; if (!pers) held = false; } open(); if (!pers) import({0, "import", {0}}); count("op.restart"); }
  }
  void all() {
    files(); int phases = (int)p.p("phases"); runTasks({[&] { open(); }});
    for (int f = 0; f < phases; ++f) {
      runTasks({[&] { for (auto &o : p.ops) if (o.task == f * 10) one(o); }});
      std::vector<std::function<void()>> bodies; for (int t = 1; t <= 3; ++t) { bool any = false; for (auto &o : p.ops) any = any || o.task == f * 10 + t; if (any) bodies.push_back([&, f, t] { for (auto &o : p.ops) if (o.task == f * 10 + t) one(o); }); }
      setSchedule((int)p.p("strategy", 1), p.p("strategy", 1) == 2 ? (double)p.p("switch", 20) : p.p("switch", 20) / 1000.0); race::enable(true); runTasks(bodies); race::enable(false); setSchedule(0, 0);
    }
    runTasks({[&] { one({0, "request", {4, 1}}); disconnect(); if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down"); }});
  }
};
void gen(Rng &r, Plan &p) {
  p.par["pers"] = r.chance(0.6); p.par["data"] = r.below(100000000); int phases = (int)r.range(1, 2); p.par["phases"] = phases; p.par["strategy"] = r.range(1, 2); p.par["switch"] = p.par["strategy"] == 2 ? r.range(20, 600) : r.range(5, 200);
  p.op(0, "import", {(int)r.below(2)});
  for (int f = 0; f < phases; ++f) { if (f && r.chance(0.5)) p.op(f * 10, "restart"); for (int t = 1, n = (int)r.range(1, 3); t <= n; ++t) for (int i = (int)r.range(1, 2); i > 0; --i) p.op(f * 10 + t, "request", {r.chance(0.6) ? 4 : (int)r.below(Tiles), (int)r.below(2)}); }
  if (r.chance(0.4)) p.faults.push_back({"read_partial:/sim", r.range(1, 30), r.range(1, 50), r.range(1, 999)});
}
void exec(Plan &p) { g_asks = new std::vector<Ask>; g_asks->reserve(4096); g_error = new std::string; Run r(p); r.all(); }
Registrar a("ground", gen, exec);
}
