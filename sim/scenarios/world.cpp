#include "world.hpp"
#include <fileformat.pb.h>
#include <osmformat.pb.h>
#include <zlib.h>
using namespace sim;
namespace world {
std::string g_dir = "/sim/app/"; bool g_extra = false; int g_datas = 2;
namespace {
std::vector<Request *> *g_requests;      // by tag
std::map<int, Request *> *g_current;     // by task: errors carry no tag
std::string *g_sink;                     // errors of calls which are no requests, by task
std::map<int, std::string> *g_errors;

void mkdir(const char *p) { Quiet q; fs::mkdirs(p); }
void onError(const char *m) {
  Quiet q; std::string s = m ? m : ""; if (s.empty()) s = "(no message)";
  auto c = g_current->find(currentTask());
  if (c != g_current->end() && c->second) c->second->errors.push_back(s); else { auto &e = (*g_errors)[currentTask()]; if (e.empty()) e = s; }
}
template<class T> uint64_t hv(const T *p, int n, uint64_t h) { return hashBytes(p, sizeof(T) * (size_t)n, h ^ (uint64_t)n * 1099511628211ull); }
uint64_t hf(const double *p, int n, uint64_t h) { for (int i = 0; i < n; ++i) { float f = (float)p[i]; if (f == 0) f = 0; h = hashBytes(&f, sizeof f, h); } return h ^ (uint64_t)n * 31; }
Request &request(int tag) { if (tag < 0 || tag >= (int)g_requests->size()) fail("wrong-tag", "a callback carries request tag " + std::to_string(tag)); return *(*g_requests)[tag]; }
void deliver(int tag, Item &&i) {
  Request *r; { Quiet q; r = &request(tag); auto c = g_current->find(currentTask());
    if (c == g_current->end() || c->second != r) fail("wrong-tag", "a result is delivered to another request: " + i.text);
    if (r->token.isCancelled()) ++r->after;
    r->items.push_back(std::move(i)); count(r->items.back().mesh ? "op.mesh" : "op.element"); }
  schedPoint("callback", nullptr);
  if (r->cancelAt == (long long)r->items.size()) { r->token.cancel(); count("cancel.inside"); }
  if (r->on) r->on();
}
void onMesh(int tag, const char *name, const double *v, int vn, const int *t, int tn, const int *c, int cn, const double *u, int un, const int *m, int mn) {
  Item i; { Quiet q; i.mesh = true;
    bool finite = true; for (int k = 0; k < vn; ++k) if (!std::isfinite(v[k])) finite = false;
    for (int k = 0; k < tn; ++k) if (t[k] < 0 || t[k] * 3 + 2 >= vn) fail("broken-mesh", std::string("mesh ") + name + " refers to a vertex it does not have");
    if (vn % 3 || tn % 3 || cn != vn / 3 || un != vn / 3 * 2) fail("broken-mesh", std::string("mesh ") + name + " has " + std::to_string(vn) + " coordinates, " + std::to_string(tn) + " indices, " + std::to_string(cn) + " colors, " + std::to_string(un) + " texture coordinates");
    char b[64]; snprintf(b, sizeof b, "%016llx", (unsigned long long)hv(m, mn, hf(u, un, hv(c, cn, hv(t, tn, hf(v, vn, 7))))));
    i.text = std::string("mesh ") + name + " v" + std::to_string(vn) + " t" + std::to_string(tn) + " c" + std::to_string(cn) + " u" + std::to_string(un) + " m" + std::to_string(mn) + " " + b + (finite ? "" : " notfinite"); }
  deliver(tag, std::move(i));
}
void onElement(int tag, std::uint64_t id, const char **tags, int tn, const double *v, int vn, const char **st, int sn) {
  Item i; { Quiet q; i.mesh = false; i.id = id; std::ostringstream s; s << "element " << id << " ";
    std::vector<std::string> a; for (int k = 0; k + 1 < tn; k += 2) a.push_back(std::string(tags[k]) + "=" + tags[k + 1]); std::sort(a.begin(), a.end()); for (auto &x : a) s << x << ",";
    s << " v" << vn << " " << hf(v, vn, 3) << " "; a.clear(); for (int k = 0; k + 1 < sn; k += 2) a.push_back(std::string(st[k]) + ":" + st[k + 1]); std::sort(a.begin(), a.end()); for (auto &x : a) s << x << ";";
    i.text = s.str(); }
  deliver(tag, std::move(i));
}
struct Call { // a call which is no request: collects the error
  Call() { Quiet q; (*g_current)[currentTask()] = nullptr; (*g_errors)[currentTask()].clear(); }
  std::string error() { Quiet q; return (*g_errors)[currentTask()]; }
};
void initGlobals() { if (!g_requests) { g_requests = new std::vector<Request *>; g_current = new std::map<int, Request *>; g_errors = new std::map<int, std::string>; } }
void begin(Request &r) { Quiet q; initGlobals(); r.tag = (int)g_requests->size(); g_requests->push_back(&r); (*g_current)[currentTask()] = &r; }
void end(Request &) { Quiet q; (*g_current)[currentTask()] = nullptr; }

const char *Style = R"CSS(
canvas|z15-16 { grid-cell-size: 25%; max-area: 5%; ele-noise-freq: 0.05; color-noise-freq: 0.1; color: @C1; texture-index: 0; texture-type: background; texture-scale: 10;
  water-sort-order: 2; water-color: gradient(blue); water-max-area: 5%; water-ele-noise-freq: 0; water-color-noise-freq: 0; water-height-offset: -1m;
  road-sort-order: 1; road-color: gradient(gray); road-max-area: 0; road-ele-noise-freq: 0; road-color-noise-freq: 0; }
relation|z15-16[type=multipolygon] { multipolygon: true; }
area|z15-16[landuse] { clip: true; builder: terrain; mesh-name: terrain_common; max-area: 5%; ele-noise-freq: 0; color-noise-freq: 0; color: gradient(green); texture-index: 0; texture-type: background; texture-scale: 100; }
area|z15-16[landuse=commercial] { terrain-layer: water; }
relation|z15-16[landuse] { clip: true; builder: terrain; mesh-name: terrain_common; max-area: 5%; ele-noise-freq: 0; color-noise-freq: 0; color: gradient(brown); texture-index: 0; texture-type: background; texture-scale: 100; }
way|z15-16[highway] { clip: true; builder: terrain; terrain-layer: road; width: 4m; }
area,relation|z16[building] { builder: building; building: true; height: @H1m; min-height: 0m; facade-color: gradient(#c0c0c0); facade-type: flat; facade-texture-index: 0; facade-texture-type: background; facade-texture-scale: 200;
  roof-color: gradient(#bca9a9); roof-type: flat; roof-height: 0m; roof-texture-index: 0; roof-texture-type: background; roof-texture-scale: 200; }
area|z16[roof=dome] { roof-type: dome; roof-height: 5m; }
area|z16[roof=pyramidal] { roof-type: pyramidal; roof-height: 3m; roof-color: gradient(@C1 0%, red 50%, yellow); }
node|z16[natural=tree], way|z16[natural=tree_row] { builder: tree; tree-step: 20m; lsys: tree; lsys-size: 1m; lsys-colors: brown,green; lsys-texture-indices: 0,0; lsys-texture-types: background,background; lsys-texture-scales: 200,50; }
node|z16[highway=street_lamp] { builder: lamp; lamp-step: 30m; width: 3m; lsys: lamp; lsys-size: 1m; lsys-colors: gray,white; lsys-texture-indices: 0,0; lsys-texture-types: background,background; lsys-texture-scales: 200,50; }
way|z16[barrier] { builder: barrier; clip: true; mesh-name: eval("'barrier_' + tag('barrier')"); color: gradient(#444444); texture-index: 0; texture-type: background; texture-scale: 50; height: 1.8m; width: 0.3m; length: 30m; gap: 0.05m; type: wall; }
node|z15-16[amenity], node|z16[shop] { builder: place; min-height: 16; title: eval("tag('amenity')"); }
way|z16[route] { builder: place; clip: false; color: @C1; }
node|z16[level>3] { builder: high; mark: yes; }
@lsystem url("tree.lsys");
@lsystem url("lamp.lsys");
@texture url("atlas.txt");
)CSS";
std::string replaced(std::string s, const std::string &a, const std::string &b) { size_t p = 0; while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); } return s; }

Map build(int dataset) {
  Rng r(dataset * 7919 + 3); Map m; uint64_t id = 1000 + dataset * 1000000ull;
  BoundingBox b = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile(4)); // covers tiles 0-3
  auto P = [&](double y, double x) { m.nodes.push_back({++id, b.minPoint.latitude + b.height() * y, b.minPoint.longitude + b.width() * x, {}}); return m.nodes.back().id; };
  auto ring = [&](double y, double x, double h, double w) { std::vector<uint64_t> v{P(y, x), P(y, x + w), P(y + h, x + w), P(y + h, x)}; v.push_back(v[0]); return v; };
  auto at = [&] { return 0.03 + 0.85 * r.unit(); };
  const char *amen[] = {"cafe", "bank", "pub", "school"}; const char *land[] = {"grass", "commercial", "forest"}; const char *roofs[] = {"flat", "dome", "pyramidal"};
  for (int i = 0; i < 3 + dataset % 3; ++i) { uint64_t n = P(at(), at()); m.nodes.back().tags = {{"amenity", r.pick(std::vector<std::string>(amen, amen + 4))}, {"name", "Place " + std::to_string(n % 97)}}; }
  for (int i = 0; i < 2; ++i) { P(at(), at()); m.nodes.back().tags = {{"natural", "tree"}}; P(at(), at()); m.nodes.back().tags = {{"highway", "street_lamp"}}; }
  P(at(), at()); m.nodes.back().tags = {{"shop", "bakery"}, {"level", std::to_string(r.below(8))}};
  if (dataset >= 1000) for (int i = 0; i < 60; ++i) { P(at(), at()); m.nodes.back().tags = i % 3 ? std::vector<std::pair<std::string, std::string>>{{"amenity", "bench"}, {"n", std::to_string(i)}} : std::vector<std::pair<std::string, std::string>>{{"natural", "tree"}}; } // a crowded place
  for (int i = 0; i < 3; ++i) m.ways.push_back({++id, ring(at(), at(), 0.05, 0.06), {{"building", "yes"}, {"roof", roofs[r.below(3)]}, {"name", "House " + std::to_string(i)}}});
  for (int i = 0; i < 2 + dataset % 2; ++i) m.ways.push_back({++id, ring(at() * 0.5, at() * 0.5, 0.2 + 0.3 * r.unit(), 0.2 + 0.3 * r.unit()), {{"landuse", land[r.below(3)]}}});
  { double y = at(), x = at(); m.ways.push_back({++id, {P(y, 0.02), P(y + 0.04, 0.4), P(y, 0.97)}, {{"highway", "primary"}, {"name", "Main Street"}}}); m.ways.push_back({++id, {P(at(), x), P(at(), x + 0.05)}, {{"barrier", "fence"}}}); }
  m.ways.push_back({++id, {P(at(), at()), P(at(), at())}, {{"natural", "tree_row"}}});
  m.ways.push_back({++id, {P(at(), at()), P(at(), at()), P(at(), at())}, {{"route", "bus"}, {"ref", "M" + std::to_string(dataset)}}});
  { double y = at() * 0.5, x = at() * 0.5; m.ways.push_back({++id, ring(y, x, 0.3, 0.3), {}}); uint64_t o = m.ways.back().id; m.ways.push_back({++id, ring(y + 0.1, x + 0.1, 0.1, 0.1), {}}); uint64_t i = m.ways.back().id;
    m.rels.push_back({++id, {{o, "outer"}, {i, "inner"}}, {{"type", "multipolygon"}, {"landuse", "grass"}}}); }
  if (dataset % 2) { // an outer ring made of two ways, and a building with a yard
    double y = at() * 0.6, x = at() * 0.6; auto a = ring(y, x, 0.2, 0.25); m.ways.push_back({++id, {a[0], a[1], a[2]}, {}}); uint64_t o1 = id; m.ways.push_back({++id, {a[2], a[3], a[0]}, {}}); uint64_t o2 = id;
    m.rels.push_back({++id, {{o1, "outer"}, {o2, "outer"}}, {{"type", "multipolygon"}, {"landuse", "forest"}}});
    y = at(); x = at(); m.ways.push_back({++id, ring(y, x, 0.08, 0.08), {}}); uint64_t o = m.ways.back().id; m.ways.push_back({++id, ring(y + 0.02, x + 0.02, 0.03, 0.03), {}}); uint64_t i = m.ways.back().id;
    m.rels.push_back({++id, {{o, "outer"}, {i, "inner"}}, {{"type", "multipolygon"}, {"building", "yes"}}}); }
  return m;
}
}

std::string styleFile(int s) { return "/sim/app/style" + std::to_string(s) + ".mapcss"; }
QuadKey tile(int i) {
  if (i < 4) return QuadKey(16, 35204 + i % 2, 21488 + i / 2);
  if (i == 4) return QuadKey(15, 17602, 10744);
  return QuadKey(16, 30000, 20000);
}
std::vector<std::vector<uint64_t>> ringsOf(const Map &m, const MapRel &r) {
  std::vector<std::vector<uint64_t>> v; bool multi = false; for (auto &t : r.tags) multi = multi || t.second == "multipolygon"; if (!multi) return {};
  for (auto &x : r.members) { const MapWay *w = nullptr; for (auto &y : m.ways) if (y.id == x.first) w = &y; if (x.type != 'w' || !w || w->refs.size() < 4 || w->refs[0] != w->refs.back()) return {}; v.push_back(w->refs); } return v; }
std::string osmXml(const Map &m) {
  std::ostringstream s; s.precision(10); auto tags = [&](const std::vector<std::pair<std::string, std::string>> &t) { for (auto &x : t) s << "  <tag k=\"" << x.first << "\" v=\"" << x.second << "\"/>\n"; };
  s << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\" generator=\"sim\">\n <bounds minlat=\"52.5\" minlon=\"13.3\" maxlat=\"52.6\" maxlon=\"13.5\"/>\n";
  for (auto &n : m.nodes) { s << " <node id=\"" << n.id << "\" version=\"1\" lat=\"" << n.lat << "\" lon=\"" << n.lon << "\""; if (n.tags.empty()) s << "/>\n"; else { s << ">\n"; tags(n.tags); s << " </node>\n"; } }
  for (auto &w : m.ways) { s << " <way id=\"" << w.id << "\" version=\"1\">\n"; for (auto x : w.refs) s << "  <nd ref=\"" << x << "\"/>\n"; tags(w.tags); s << " </way>\n"; }
  for (auto &w : m.rels) { s << " <relation id=\"" << w.id << "\" version=\"1\">\n"; for (auto &x : w.members) s << "  <member type=\"" << (x.type == 'n' ? "node" : x.type == 'r' ? "relation" : "way") << "\" ref=\"" << x.first << "\" role=\"" << x.second << "\"/>\n"; tags(w.tags); s << " </relation>\n"; }
  s << "</osm>\n"; return s.str();
}
std::string osmJson(const Map &m) {
  std::ostringstream s; s.precision(10); std::map<uint64_t, MapNode> n; for (auto &x : m.nodes) n[x.id] = x;
  auto props = [&](uint64_t id, const std::vector<std::pair<std::string, std::string>> &t) { s << "\"properties\":{\"id\":" << id; for (auto &x : t) s << ",\"" << x.first << "\":\"" << x.second << "\""; s << "},\"type\":\"Feature\"}"; };
  s << "{\"things\":{\"type\":\"FeatureCollection\",\"features\":["; bool first = true; auto sep = [&] { if (!first) s << ","; first = false; };
  for (auto &x : m.nodes) if (!x.tags.empty()) { sep(); s << "{\"geometry\":{\"type\":\"Point\",\"coordinates\":[" << x.lon << "," << x.lat << "]},"; props(x.id, x.tags); }
  s << "]},\"lines\":{\"type\":\"FeatureCollection\",\"features\":["; first = true;
  for (auto &w : m.ways) if (!w.tags.empty()) { bool area = w.refs.size() > 3 && w.refs[0] == w.refs.back(); sep(); s << "{\"geometry\":{\"type\":\"" << (area ? "Polygon" : "LineString") << "\",\"coordinates\":" << (area ? "[[" : "["); bool f = true; for (auto x : w.refs) { if (!f) s << ","; f = false; s << "[" << n[x].lon << "," << n[x].lat << "]"; } s << (area ? "]]}," : "]},"); props(w.id, w.tags); }
  s << "]},\"polygons\":{\"type\":\"FeatureCollection\",\"features\":["; first = true;
  for (auto &r : m.rels) { auto rings = ringsOf(m, r); if (rings.size() < 2 || r.tags.empty()) continue; sep(); s << "{\"geometry\":{\"type\":\"Polygon\",\"coordinates\":["; bool g = true; for (auto &refs : rings) { s << (g ? "[" : ",["); g = false; bool f = true; for (auto x : refs) { if (!f) s << ","; f = false; s << "[" << n[x].lon << "," << n[x].lat << "]"; } s << "]"; } s << "]},"; props(r.id, r.tags); }
  s << "]}}"; return s.str();
}
namespace {
std::string blob(const char *type, const std::string &payload, bool pack) {
  OSMPBF::Blob b; b.set_raw_size(payload.size());
  if (pack) { uLongf n = compressBound(payload.size()); std::string z(n, 0); compress((Bytef *)&z[0], &n, (const Bytef *)payload.data(), payload.size()); z.resize(n); b.set_zlib_data(z); } else b.set_raw(payload);
  std::string body = b.SerializeAsString(); OSMPBF::BlobHeader h; h.set_type(type); h.set_datasize(body.size()); std::string head = h.SerializeAsString();
  uint32_t n = head.size(); std::string r; for (int i = 3; i >= 0; --i) r += (char)(n >> (8 * i)); return r + head + body;
}
}
std::vector<std::string> osmPbf(const Map &m) {
  std::vector<std::string> out; bool pack = true; // NOTE raw blobs are not used by any writer
  { OSMPBF::HeaderBlock h; h.add_required_features("OsmSchema-V0.6"); out.push_back(blob("OSMHeader", h.SerializeAsString(), pack)); }
  auto block = [&](std::function<void(OSMPBF::PrimitiveGroup &, std::function<int(const std::string &)>)> f) {
    OSMPBF::PrimitiveBlock b; b.mutable_stringtable()->add_s(""); std::map<std::string, int> ids;
    f(*b.add_primitivegroup(), [&](const std::string &x) { auto i = ids.find(x); if (i != ids.end()) return i->second; b.mutable_stringtable()->add_s(x); return ids[x] = b.stringtable().s_size() - 1; });
    out.push_back(blob("OSMData", b.SerializeAsString(), pack)); };
  for (size_t from = 0; from < m.nodes.size(); from += 30) block([&](OSMPBF::PrimitiveGroup &g, std::function<int(const std::string &)> id) {
    bool dense = from == 0; int64_t last = 0, la = 0, lo = 0;
    for (size_t i = from; i < std::min(m.nodes.size(), from + 30); ++i) { auto &n = m.nodes[i]; int64_t y = llround(n.lat * 1e7), x = llround(n.lon * 1e7);
      if (dense) { auto d = g.mutable_dense(); d->add_id(n.id - last); d->add_lat(y - la); d->add_lon(x - lo); last = n.id; la = y; lo = x; for (auto &t : n.tags) { d->add_keys_vals(id(t.first)); d->add_keys_vals(id(t.second)); } d->add_keys_vals(0); }
      else { auto d = g.add_nodes(); d->set_id(n.id); d->set_lat(y); d->set_lon(x); for (auto &t : n.tags) { d->add_keys(id(t.first)); d->add_vals(id(t.second)); } } } });
  for (size_t from = 0; from < m.ways.size(); from += 6) block([&](OSMPBF::PrimitiveGroup &g, std::function<int(const std::string &)> id) {
    for (size_t i = from; i < std::min(m.ways.size(), from + 6); ++i) { auto &w = m.ways[i]; auto d = g.add_ways(); d->set_id(w.id); int64_t last = 0; for (auto r : w.refs) { d->add_refs((int64_t)r - last); last = r; } for (auto &t : w.tags) { d->add_keys(id(t.first)); d->add_vals(id(t.second)); } } });
  block([&](OSMPBF::PrimitiveGroup &g, std::function<int(const std::string &)> id) {
    for (auto &w : m.rels) { auto d = g.add_relations(); d->set_id(w.id); int64_t last = 0; for (auto &x : w.members) { d->add_memids((int64_t)x.first - last); last = x.first; d->add_types(x.type == 'n' ? OSMPBF::Relation::NODE : x.type == 'r' ? OSMPBF::Relation::RELATION : OSMPBF::Relation::WAY); d->add_roles_sid(id(x.second)); } for (auto &t : w.tags) { d->add_keys(id(t.first)); d->add_vals(id(t.second)); } } });
  return out;
}
std::map<std::string, std::string> shape(const Map &m, int kind) {
  std::map<uint64_t, MapNode> nodes; for (auto &x : m.nodes) nodes[x.id] = x;
  struct Rec { std::vector<std::pair<double, double>> pts; std::vector<int> parts{0}; std::map<std::string, std::string> tags; }; std::vector<Rec> recs;
  auto add = [&](std::vector<uint64_t> refs, const std::vector<std::pair<std::string, std::string>> &t) { Rec r; for (auto x : refs) r.pts.push_back({nodes[x].lat, nodes[x].lon}); for (auto &x : t) r.tags[x.first] = x.second; recs.push_back(r); };
  if (kind == 0) { for (auto &n : m.nodes) if (!n.tags.empty()) add({n.id}, n.tags); }
  else for (auto &w : m.ways) { bool area = w.refs.front() == w.refs.back(); if (area == (kind == 2) && !w.tags.empty()) { auto refs = w.refs; if (area) std::reverse(refs.begin(), refs.end()); add(refs, w.tags); } }
  if (kind == 2) for (auto &r : m.rels) { auto rings = ringsOf(m, r); if (rings.size() < 2 || r.tags.empty()) continue; add(rings[0], r.tags); for (size_t i = 1; i < rings.size(); ++i) { recs.back().parts.push_back(recs.back().pts.size()); for (auto x : rings[i]) recs.back().pts.push_back({nodes[x].lat, nodes[x].lon}); } }
  auto be = [](uint32_t v) { std::string s; for (int i = 3; i >= 0; --i) s += (char)(v >> (8 * i)); return s; }; auto le = [](uint32_t v) { std::string s; for (int i = 0; i < 4; ++i) s += (char)(v >> (8 * i)); return s; };
  auto dbl = [](double d) { return std::string((const char *)&d, 8); };
  int type = kind == 0 ? 1 : kind == 1 ? 3 : 5; double b[4] = {1e9, 1e9, -1e9, -1e9}; std::string body, idx; int no = 0;
  auto ext = [](double *b, double y, double x) { b[0] = std::min(b[0], x); b[1] = std::min(b[1], y); b[2] = std::max(b[2], x); b[3] = std::max(b[3], y); };
  for (auto &r : recs) { std::string c = le(type); double rb[4] = {1e9, 1e9, -1e9, -1e9}; for (auto &q : r.pts) { ext(b, q.first, q.second); ext(rb, q.first, q.second); }
    if (kind == 0) c += dbl(r.pts[0].second) + dbl(r.pts[0].first); else { for (double v : rb) c += dbl(v); c += le(r.parts.size()) + le(r.pts.size()); for (int x : r.parts) c += le(x); for (auto &q : r.pts) c += dbl(q.second) + dbl(q.first); }
    idx += be((100 + body.size()) / 2) + be(c.size() / 2); body += be(++no) + be(c.size() / 2) + c; }
  auto head = [&](size_t n) { std::string h = be(9994); for (int i = 0; i < 5; ++i) h += be(0); h += be((100 + n) / 2) + le(1000) + le(type); for (double v : b) h += dbl(v); for (int i = 0; i < 4; ++i) h += dbl(0); return h; };
  std::set<std::string> keys; for (auto &r : recs) for (auto &t : r.tags) keys.insert(t.first); if (keys.empty()) keys.insert("none");
  int rl = 1 + 20 * keys.size(), hl = 32 + 32 * keys.size() + 1; std::string d; d += (char)3; d += "\x10\x01\x01"; d += le(recs.size()); d += (char)hl; d += (char)(hl >> 8); d += (char)rl; d += (char)(rl >> 8); d += std::string(20, 0);
  for (auto &k : keys) { std::string f = k.substr(0, 10); f.resize(11); f += 'C'; f += std::string(4, 0); f += (char)20; f += std::string(15, 0); d += f; } d += "\r";
  for (auto &r : recs) { d += ' '; for (auto &k : keys) { auto t = r.tags.find(k); std::string v = t == r.tags.end() ? "" : t->second.substr(0, 20); v.resize(20, ' '); d += v; } }
  return {{".shp", head(body.size()) + body}, {".shx", head(idx.size()) + idx}, {".dbf", d}};
}
std::string osmXml(int d) { return osmXml(build(d)); }
std::string osmJson(int d) { return osmJson(build(d)); }
std::vector<std::string> osmPbf(int d) { return osmPbf(build(d)); }
std::map<std::string, std::string> shape(int d, int kind) { return shape(build(d), kind); }
std::string inputFile(int f, int d) { const char *ext[] = {".osm.xml", ".osm.json", ".osm.pbf"}, *shp[] = {"points", "lines", "areas"}; return f < 3 ? "/sim/in/" + std::to_string(d) + ext[f] : std::string("/sim/in/") + shp[f - 3] + std::to_string(d); }
std::string grid(int t, int variant) { Rng r(t * 31 + variant); std::string s; int n = variant % 2 ? 5 : 3; for (int i = 0; i < n * n; ++i) s += (i ? " " : "") + std::to_string(r.range(-20, 200)); return s; }

namespace {
// The second style differs from the first one in several things (0), or in exactly one.
const char *Pairs[][2] = {{"", ""},
  // these show on the ground, which is what the mesh cache keeps
  {"grid-cell-size: 25%", "grid-cell-size: 20%"}, {"width: 4m", "width: 6m"}, {"area|z15-16[landuse=commercial]", "area|z15-16[landuse=forest]"}, {"area|z15-16[landuse=commercial]", "area|z15-16[landuse!=commercial]"}, {"area|z15-16[landuse=commercial]", "area|z16[landuse=commercial]"}, {"color: gradient(brown)", "color: gradient(red)"}, {"water-color: gradient(blue)", "water-color: gradient(navy)"},
  {"terrain-layer: road", "terrain-layer: water"}, {"way|z15-16[highway]", "way|z15-16[barrier]"}, {"relation|z15-16[landuse]", "relation|z15-16[landuse=grass]"}, {"relation|z15-16[landuse]", "area|z15-16[name]"}, {"water-sort-order: 2", "water-sort-order: 0"}, {"@lsystem url(\"tree", "element|z15-16[id=@M] { clip: true; builder: terrain; mesh-name: terrain_special; max-area: 5%; ele-noise-freq: 0; color-noise-freq: 0; color: gradient(yellow); texture-index: 0; texture-type: background; texture-scale: 100; }\n@lsystem url(\"tree"},
  {"url(\"atlas", "url(\"b/atlas"}, {"area|z15-16[landuse] {", "area|z15-16[landuse>5] {"},
  // these on elements and other meshes
  {"[level>3]", "[level<3]"}, {"node|z16[level>3]", "node|z15-16[level>3]"}, {"[roof=dome] { roof-type: dome", "[roof=dome] { roof-type: pyramidal"}, {"[roof=dome]", "[roof=flat]"}, {"[roof=dome]", "[roof!=dome]"}, {"[roof=dome]", "[roof]"},
  {"node|z15-16[amenity]", "node|z16[amenity]"}, {"tree-step: 20m", "tree-step: 30m"}, {"'barrier_'", "'fence_'"}, {"area,relation|z16[building]", "area|z16[building]"}, {"tag('amenity')", "tag('name')"}, {"node|z16[shop]", "node|z16[name]"}, {"way|z16[route]", "way|z15-16[route]"}, {"builder: place; min-height: 16; ", "min-height: 16; builder: none; "},
  {"mark: yes", "mark: no"}, {"min-height: 16", "min-height: 1; scale: 6"}, {"@lsystem url(\"tree", "element|z15-16[id=@N] { builder: place; mark: special; }\n@lsystem url(\"tree"}, {"@lsystem url(\"tree", "node|z16[name] { mark: named; }\n@lsystem url(\"tree"},
  {"url(\"tree", "url(\"b/tree"}, {"url(\"lamp", "url(\"b/lamp"}};
}
static uint64_t idOf(int dataset, const std::string &key) { Map m = build(dataset); for (auto &n : m.nodes) for (auto &t : n.tags) if (t.first == key) return n.id; for (auto &w : m.ways) for (auto &t : w.tags) if (t.first == key) return w.id; return 1; }
int pairs() { return (int)(sizeof Pairs / sizeof *Pairs); }
int groundPairs() { return 15; }
void install(int dataset, int pair) {
  Quiet q; initGlobals();
  fs::mkdirs("/sim/app/data"); fs::mkdirs("/sim/app/cache"); fs::mkdirs("/sim/in");
  for (int s = 0; s < 2; ++s) fs::write(styleFile(s), replaced(replaced(Style, "@C1", s ? "gradient(#123456)" : "gradient(#f1eee8)"), "@H1", s ? "20" : "12"));
  if (pair) { std::string a = replaced(replaced(Style, "@C1", "gradient(#f1eee8)"), "@H1", "12"), b = replaced(replaced(replaced(a, Pairs[pair][0], Pairs[pair][1]), "@N", std::to_string(idOf(dataset, "natural"))), "@M", std::to_string(idOf(dataset, "landuse"))); if (a == b) fail("harness", "styles do not differ"); fs::write(styleFile(0), a); fs::write(styleFile(1), b); 
    fs::mkdirs("/sim/app/b"); fs::write("/sim/app/b/tree.lsys", "generations: 1\nangle: 0\nscale: 2\naxiom: root\nroot -> ! > cylinder < $ sphere\n"); fs::write("/sim/app/b/lamp.lsys", "generations: 1\nangle: 0\nscale: 4\naxiom: root\nroot -> ! > > cylinder\n"); fs::write("/sim/app/b/atlas.txt", "0,512,512\nbackground,128,0,256,512\n"); }
  fs::write("/sim/app/atlas.txt", "0,512,512\nbackground,0,0,512,512\n");
  fs::write("/sim/app/tree.lsys", "generations: 1\nangle: 0\nscale: 3\naxiom: root\nroot -> ! ! > > cylinder < < < $ sphere\n");
  fs::write("/sim/app/lamp.lsys", "generations: 1\nangle: 0\nscale: 3\naxiom: root\nroot -> ! > cylinder\n");
  for (int d = 0; d < g_datas; ++d) {
    fs::write(inputFile(0, d), osmXml(dataset + d)); fs::write(inputFile(1, d), osmJson(dataset + d));
    std::string pbf; for (auto &b : osmPbf(dataset + d)) pbf += b; fs::write(inputFile(2, d), pbf);
    for (int k = 0; k < 3; ++k) for (auto &f : shape(dataset + d, k)) fs::write(inputFile(3 + k, d) + f.first, f.second);
  }
  for (const char *dir : {"/sim/app/", "/sim/ref/"}) for (int l = 1; l <= 16; ++l) fs::mkdirs(std::string(dir) + "data/" + std::to_string(l));
  for (const char *dir : {"/sim/app/", "/sim/ref/"}) for (int i = 0; i < Tiles; ++i) fs::write(std::string(dir) + "data/" + std::to_string(tile(i).levelOfDetail) + "/" + utymap::utils::GeoUtils::quadKeyToString(tile(i)) + ".ele", grid(i, dataset));
}

std::string startError() {
  initGlobals(); Call c; connect(g_dir.c_str(), onError); return c.error();
}
void start(bool cache) {
  std::string e = startError(); if (!e.empty()) fail("refused", "the engine does not start: " + e);
  enableMeshCache(cache);
  for (int s = 0; s < 2; ++s) registerStylesheet(styleFile(s).c_str(), mkdir);
}
static std::string quietStyle(int s) { Quiet q; return styleFile(s); }
void forget() { sim_forget_application(); }
void store(bool persistent, const char *key) { Call c; if (g_extra) registerInMemoryStore("extra"); if (persistent) registerPersistentStore(key, (g_dir + "data").c_str(), mkdir); else registerInMemoryStore(key); }
std::string import(int style, const std::string &path, QuadKey k, CancellationToken *t, const char *key) { CancellationToken mine; Call c; std::string f = quietStyle(style); addDataInQuadKey(key, f.c_str(), path.c_str(), k.tileX, k.tileY, k.levelOfDetail, onError, t ? t : &mine); return c.error(); }
std::string importRange(int style, const std::string &path, int a, int b, CancellationToken *t, const char *key) { CancellationToken mine; Call c; std::string f = quietStyle(style); addDataInRange(key, f.c_str(), path.c_str(), a, b, onError, t ? t : &mine); return c.error(); }
std::string importBox(int style, const std::string &path, BoundingBox x, int a, int b, CancellationToken *t, const char *key) { CancellationToken mine; Call c; std::string f = quietStyle(style); addDataInBoundingBox(key, f.c_str(), path.c_str(), x.minPoint.latitude, x.minPoint.longitude, x.maxPoint.latitude, x.maxPoint.longitude, a, b, onError, t ? t : &mine); return c.error(); }
std::string importElement(int style, uint64_t id, const std::vector<std::pair<double, double>> &pts, const std::vector<std::pair<std::string, std::string>> &tags, int a, int b, const char *key) {
  CancellationToken t; Call c; std::vector<double> v; for (auto &p : pts) { v.push_back(p.first); v.push_back(p.second); } std::vector<const char *> g; for (auto &x : tags) { g.push_back(x.first.c_str()); g.push_back(x.second.c_str()); }
  addDataInElement(key, styleFile(style).c_str(), id, v.data(), (int)v.size(), g.data(), (int)g.size(), a, b, onError, &t); return c.error();
}
void query(Request &r, int style, QuadKey k, int ele) { begin(r); std::string f; { Quiet q; f = styleFile(style); } getDataByQuadKey(r.tag, f.c_str(), k.tileX, k.tileY, k.levelOfDetail, ele, onMesh, onElement, onError, &r.token); end(r); }
void text(Request &r, const std::string &no, const std::string &all, const std::string &any, BoundingBox b, int a, int z) { begin(r); getDataByText(r.tag, no.c_str(), all.c_str(), any.c_str(), b.minPoint.latitude, b.minPoint.longitude, b.maxPoint.latitude, b.maxPoint.longitude, a, z, onElement, onError, &r.token); end(r); }
void registerStyle(const std::string &path) { Call c; registerStylesheet(path.c_str(), mkdir); }
void queryStyle(Request &r, const std::string &style, QuadKey k, int ele) { begin(r); getDataByQuadKey(r.tag, style.c_str(), k.tileX, k.tileY, k.levelOfDetail, ele, onMesh, onElement, onError, &r.token); end(r); }
std::string importStyle(const std::string &style, const Imp &i, const char *key) { CancellationToken t; Call c; std::string path; { Quiet q; path = inputFile(i.format, i.data); } addDataInQuadKey(key, style.c_str(), path.c_str(), i.where.tileX, i.where.tileY, i.where.levelOfDetail, onError, &t); return c.error(); }
void textFor(Request &r, int words) {
  static const char *w[][3] = {{"", "", "name"}, {"", "", "yes cafe main"}, {"", "tree", ""}, {"dome", "building", ""}, {"bank", "", "amenity highway landuse"}, {"", "name", "house street"}};
  auto b = utymap::utils::GeoUtils::quadKeyToBoundingBox(tile(4)); auto &x = w[words % 6]; text(r, x[0], x[1], x[2], b, words % 2 ? 16 : 15, 16);
}
std::string Imp::key() const { std::ostringstream s; s << format << "/" << data << "/" << path << "/" << where.levelOfDetail << "/" << where.tileX << "/" << where.tileY << "/" << style << "/" << lod0 << "-" << lod1 << "/" << element << extra; for (auto &t : tags) s << t.first << "=" << t.second << ","; for (auto &q : pts) s << q.first << " " << q.second << ","; return s.str(); }
std::string run(const Imp &i, CancellationToken *t) {
  const char *key = i.extra ? "extra" : "store";
  if (i.element) return importElement(i.style, i.element, i.pts, i.tags, i.lod0, i.lod1, key);
  std::string path; { Quiet q; path = i.path.empty() ? inputFile(i.format, i.data) : i.path; }
  return i.lod1 ? importRange(i.style, path, i.lod0, i.lod1, t, key) : import(i.style, path, i.where, t, key);
}
std::vector<std::string> reference(bool persistent, const std::vector<Imp> &imports, int style, QuadKey k, int ele, int words) {
  Quiet q; static auto *memo = new std::map<std::string, std::vector<std::string>>;
  std::ostringstream id; id << persistent << g_extra << style << "/" << k.levelOfDetail << "/" << k.tileX << "/" << k.tileY << "/" << ele << "/" << words; for (auto &i : imports) id << ";" << i.key();
  auto m = memo->find(id.str()); if (m != memo->end()) return m->second;
  void *app = sim_swap_application(nullptr); std::string dir = g_dir; g_dir = "/sim/ref/"; auto current = *g_current; auto errors = *g_errors;
  for (auto &f : fs::list("/sim/ref/")) if (f.find(".ele") == std::string::npos) fs::remove(f);
  std::string e = startError(); if (!e.empty()) fail("refused", "the engine does not start: " + e);
  enableMeshCache(0); registerStylesheet(styleFile(style).c_str(), mkdir); store(persistent);
  for (auto &i : imports) { e = run(i); if (!e.empty()) fail("refused", "import " + i.key() + " is refused: " + e); }
  auto *r = new Request; if (words >= 0) textFor(*r, words); else query(*r, style, k, ele); if (!r->errors.empty()) fail("refused", "a request is refused: " + r->errors[0]);
  disconnect();
  g_dir = dir; sim_swap_application(app); *g_current = current; *g_errors = errors;
  return (*memo)[id.str()] = r->sorted();
}
std::string difference(const std::vector<std::string> &want, const std::vector<std::string> &got, bool subset) {
  std::vector<std::string> a, b; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
  if (!b.empty()) return "unexpected: " + b[0].substr(0, 240) + (a.empty() ? "" : " instead of: " + a[0].substr(0, 240)) + " (" + std::to_string(got.size()) + " delivered, " + std::to_string(want.size()) + " expected)";
  if (!a.empty() && !subset) return "missing: " + a[0].substr(0, 240) + " (" + std::to_string(got.size()) + " delivered, " + std::to_string(want.size()) + " expected)";
  return "";
}
uint64_t hash(const std::vector<std::string> &v) { uint64_t h = 5; for (auto &s : v) h = hashBytes(s.data(), s.size(), h); return h; }
}
