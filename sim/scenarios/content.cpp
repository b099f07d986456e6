// C07, C17: what an import leaves in the tiles is what its file says, told by a model of the map data
// which knows nothing of the code: members, rings, clipping by plain geometry.
#include "world.hpp"
#include "model.hpp"
#include "index/GeoStore.hpp"
#include "index/InMemoryElementStore.hpp"
#include "index/PersistentElementStore.hpp"
#include "mapcss/MapCssParser.hpp"
#include "mapcss/StyleProvider.hpp"
#include <cmath>
#include <map>
using namespace sim; using namespace model; using utymap::CancellationToken;
using world::Map; using world::MapNode; using world::MapWay; using world::MapRel; using world::TagList; using world::Member;
namespace {
typedef std::pair<double, double> Pt; typedef std::vector<Pt> Pts;
const double Tol = 2e-8, Cut = 3e-7;   // coordinates as written; coordinates which went through clipping
const int Tiles = 29;
// 16 tiles of detail 16 around a block, 9 tiles of detail 15, 4 of detail 14
QuadKey tileAt(int i) { if (i < 16) return QuadKey(16, 35203 + i % 4, 21487 + i / 4); i -= 16; if (i < 9) return QuadKey(15, 17601 + i % 3, 10743 + i / 3); i -= 9; return QuadKey(14, 8800 + i % 2, 5371 + i / 2); }
BoundingBox boxOf(int i) { return utymap::utils::GeoUtils::quadKeyToBoundingBox(tileAt(i)); }
const char *Probe = R"CSS(
node|z14-16[cls=whole] { a: 1; } way|z14-16[cls=whole] { a: 1; } area|z14-16[cls=whole] { a: 1; } relation|z14-16[cls=whole] { a: 1; }
node|z14-16[cls=cut] { clip: true; } way|z14-16[cls=cut] { clip: true; } area|z14-16[cls=cut] { clip: true; } relation|z14-16[cls=cut] { clip: true; }
node|z14-16[cls=skip] { skip: true; } way|z14-16[cls=skip] { skip: true; } area|z14-16[cls=skip] { skip: true; } relation|z14-16[cls=skip] { skip: true; }
node|z16[cls=deep] { a: 1; } way|z16[cls=deep] { a: 1; } area|z16[cls=deep] { a: 1; } relation|z16[cls=deep] { a: 1; }
node|z14[cls=gap] { a: 1; } way|z14[cls=gap] { a: 1; } area|z14[cls=gap] { a: 1; } relation|z14[cls=gap] { a: 1; }
node|z16[cls=gap] { a: 1; } way|z16[cls=gap] { a: 1; } area|z16[cls=gap] { a: 1; } relation|z16[cls=gap] { a: 1; }
node|z14-16[cls=mix] { a: 1; } way|z14-16[cls=mix] { a: 1; } area|z14-16[cls=mix] { a: 1; } relation|z14-16[cls=mix] { a: 1; }
node|z15[cls=mix] { clip: true; } way|z15[cls=mix] { clip: true; } area|z15[cls=mix] { clip: true; } relation|z15[cls=mix] { clip: true; }
node|z14-16[cls=shy] { a: 1; } way|z14-16[cls=shy] { a: 1; } area|z14-16[cls=shy] { a: 1; } relation|z14-16[cls=shy] { a: 1; }
node|z15[cls=shy] { skip: true; } way|z15[cls=shy] { skip: true; } area|z15[cls=shy] { skip: true; } relation|z15[cls=shy] { skip: true; }
)CSS";
double round7(double v) { return std::round(v * 1e7) / 1e7; }

// ---- map data --------------------------------------------------------------------
Map makeMap(uint64_t seed) {
  Rng r(seed * 31337 + 11); Map m; uint64_t id = 1 + r.below(1000000), base = id; int uid = 0;
  BoundingBox b = utymap::utils::GeoUtils::quadKeyToBoundingBox(QuadKey(15, 17602, 10744));
  static const char *cls[] = {"whole", "cut", "cut", "deep", "skip", "none", "cut", "gap", "mix", "shy"};
  auto tags = [&]() { TagList t{{"cls", cls[r.below(10)]}, {"uid", std::to_string(seed) + "_" + std::to_string(++uid)}}; if (r.chance(0.5)) t.push_back({"name", "N" + std::to_string(r.below(5))}); if (r.chance(0.2)) t.push_back({"kind", r.chance(0.5) ? "Big one" : "small"}); return t; };
  auto P = [&](double y, double x) { m.nodes.push_back({++id, round7(b.minPoint.latitude + b.height() * y), round7(b.minPoint.longitude + b.width() * x), {}}); return m.nodes.back().id; };
  auto at = [&] { return -0.35 + 1.7 * r.unit(); };
  auto star = [&](double y, double x, double s, int n, bool wild, bool back) { std::vector<uint64_t> v; for (int i = 0; i < n; ++i) { double a = 6.2831853 * (i + 0.6 * r.unit() * (wild ? 1 : 0)) / n, q = s * (wild ? 0.4 + 0.6 * r.unit() : 1); v.push_back(P(y + q * std::sin(a), x + q * std::cos(a))); } if (back) std::reverse(v.begin(), v.end()); v.push_back(v[0]); return v; };
  auto size = [&] { return r.chance(0.5) ? 0.03 + 0.1 * r.unit() : 0.1 + 0.5 * r.unit(); };
  int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) { P(at(), at()); m.nodes.back().tags = tags(); }
  n = (int)r.range(0, 3); for (int i = 0; i < n; ++i) { std::vector<uint64_t> v; int k = (int)r.range(2, 6); double y = at(), x = at(), s = size(); bool grid = r.chance(0.3); double py = y, px = x; for (int j = 0; j < k; ++j) { double qy = y + s * (r.unit() - 0.5) * 2, qx = x + s * (r.unit() - 0.5) * 2; if (grid) { if (r.chance(0.5)) qy = py; else qx = px; } v.push_back(P(py = qy, px = qx)); } m.ways.push_back({++id, v, tags()}); }
  n = (int)r.range(0, 3); for (int i = 0; i < n; ++i) { std::vector<uint64_t> ring; if (r.chance(0.3)) { double y = at(), x = at(), h = size(), w = size(); ring = {P(y, x), P(y, x + w), P(y + h, x + w), P(y + h, x)}; if (r.chance(0.5)) std::reverse(ring.begin(), ring.end()); ring.push_back(ring[0]); } else ring = star(at(), at(), size(), (int)r.range(3, 8), true, r.chance(0.5)); m.ways.push_back({++id, ring, tags()}); }
  n = (int)r.range(0, 2); for (int i = 0; i < n; ++i) { // areas with holes, outer ring in one or two ways
    double y = at(), x = at(), s = size(); auto o = star(y, x, s, (int)r.range(5, 9), false, r.chance(0.5)); std::vector<Member> mem; bool own = r.chance(0.2);
    if (own || r.chance(0.6)) { m.ways.push_back({++id, o, own ? tags() : TagList()}); mem.push_back({id, "outer"}); }
    else { size_t h = o.size() / 2; std::vector<uint64_t> a(o.begin(), o.begin() + h + 1), c(o.begin() + h, o.end()); if (r.chance(0.5)) std::reverse(c.begin(), c.end()); m.ways.push_back({++id, a, {}}); mem.push_back({id, "outer"}); m.ways.push_back({++id, c, {}}); mem.push_back({id, "outer"}); }
    int holes = (int)r.range(0, 2); for (int k = 0; k < holes; ++k) { auto w = star(y + (k ? 0.35 : -0.35) * s, x, s * 0.2, (int)r.range(3, 6), false, r.chance(0.5)); m.ways.push_back({++id, w, {}}); mem.push_back({id, "inner"}); }
    TagList t{{"type", "multipolygon"}}; if (!own) { auto u = tags(); t.insert(t.end(), u.begin(), u.end()); } m.rels.push_back({++id, mem, t}); }
  if (r.chance(0.4)) { std::vector<Member> mem; int k = (int)r.range(1, 3); double y = at(), x = at(); for (int i = 0; i < k; ++i) { auto ring = star(y, x + 0.07 * i, 0.03, 4, false, r.chance(0.5)); m.ways.push_back({++id, ring, tags()}); mem.push_back({id, i ? "part" : r.chance(0.5) ? "outline" : "part"}); } TagList t{{"type", "building"}}; auto u = tags(); t.insert(t.end(), u.begin(), u.end()); m.rels.push_back({++id, mem, t}); }
  if (r.chance(0.5)) { std::vector<Member> mem; for (auto &x : m.nodes) if (!x.tags.empty() && r.chance(0.4)) mem.push_back({x.id, "", 'n'}); for (auto &x : m.ways) if (r.chance(0.3)) mem.push_back({x.id, "", 'w'}); TagList t{{"type", "site"}}; auto u = tags(); t.insert(t.end(), u.begin(), u.end()); m.rels.push_back({++id, mem, t});
    if (r.chance(0.5)) { uint64_t inner = id; TagList t2{{"type", "super"}}; u = tags(); t2.insert(t2.end(), u.begin(), u.end()); m.rels.push_back({++id, {{inner, "", 'r'}}, t2}); if (r.chance(0.3)) std::swap(m.rels[m.rels.size() - 1], m.rels[m.rels.size() - 2]); } }
  (void)base; return m;
}

// ---- model -----------------------------------------------------------------------
double signedArea(const Pts &p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) { auto &u = p[i], &v = p[(i + 1) % p.size()]; a += (u.second - p[0].second) * (v.first - p[0].first) - (v.second - p[0].second) * (u.first - p[0].first); } return a / 2; }
double perimeter(const Pts &p, bool closed) { double l = 0; for (size_t i = 0; i + (closed ? 0 : 1) < p.size(); ++i) { auto &u = p[i], &v = p[(i + 1) % p.size()]; l += std::hypot(u.first - v.first, u.second - v.second); } return l; }
double areaInside(Pts p, const BoundingBox &b) { // Sutherland-Hodgman: cuts may be degenerate, the area is right
  auto cut = [&](std::function<double(const Pt &)> d) { Pts o; for (size_t i = 0; i < p.size(); ++i) { Pt u = p[i], v = p[(i + 1) % p.size()]; double x = d(u), y = d(v); if (x >= 0) o.push_back(u); if ((x >= 0) != (y >= 0)) { double t = x / (x - y); o.push_back({u.first + t * (v.first - u.first), u.second + t * (v.second - u.second)}); } } p = o; };
  cut([&](const Pt &q) { return q.first - b.minPoint.latitude; }); cut([&](const Pt &q) { return b.maxPoint.latitude - q.first; }); cut([&](const Pt &q) { return q.second - b.minPoint.longitude; }); cut([&](const Pt &q) { return b.maxPoint.longitude - q.second; });
  return p.size() < 3 ? 0 : std::fabs(signedArea(p));
}
double lengthInside(const Pts &p, const BoundingBox &b) {
  double l = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { double t0 = 0, t1 = 1, dy = p[i + 1].first - p[i].first, dx = p[i + 1].second - p[i].second; bool in = true;
    auto clip = [&](double d, double q) { if (d == 0) { if (q < 0) in = false; } else { double t = q / d; if (d < 0) t0 = std::max(t0, t); else t1 = std::min(t1, t); } };
    clip(-dy, p[i].first - b.minPoint.latitude); clip(dy, b.maxPoint.latitude - p[i].first); clip(-dx, p[i].second - b.minPoint.longitude); clip(dx, b.maxPoint.longitude - p[i].second);
    if (in && t1 > t0) l += (t1 - t0) * std::hypot(dy, dx); }
  return l;
}
bool inside(const Pt &p, const BoundingBox &b, double tol) { return p.first >= b.minPoint.latitude - tol && p.first <= b.maxPoint.latitude + tol && p.second >= b.minPoint.longitude - tol && p.second <= b.maxPoint.longitude + tol; }
int overlap(const Rec &r, const BoundingBox &t) { // -1 apart, 0 touching, 1 overlapping
  BoundingBox b; r.box(b); if (!b.isValid()) return -1; auto gap = [](double a0, double a1, double b0, double b1) { return std::min(a1, b1) - std::max(a0, b0); };
  double y = gap(b.minPoint.latitude, b.maxPoint.latitude, t.minPoint.latitude, t.maxPoint.latitude), x = gap(b.minPoint.longitude, b.maxPoint.longitude, t.minPoint.longitude, t.maxPoint.longitude); double g = std::min(x, y);
  bool point = b.minPoint.latitude == b.maxPoint.latitude && b.minPoint.longitude == b.maxPoint.longitude; if (point && g == 0) return inside({b.minPoint.latitude, b.minPoint.longitude}, t, -Cut) ? 1 : inside({b.minPoint.latitude, b.minPoint.longitude}, t, Cut) ? 0 : -1;
  return g > Cut ? 1 : g > -Cut ? 0 : -1;
}
std::string tagOf(const Rec &r, const char *k) { for (auto &t : r.tags) if (t.first == k) return t.second; return ""; }
std::string uidOf(const Rec &r) { std::string u = tagOf(r, "uid"); if (u.empty() && r.type == 'r' && !r.kids.empty()) u = tagOf(r.kids[0], "uid"); return u + "/" + std::to_string(r.id); }
void leaves(const Rec &r, std::vector<const Rec *> &o) { if (r.type == 'r') for (auto &k : r.kids) leaves(k, o); else o.push_back(&r); }

struct Model {
  const Map &m; int fmt; std::map<uint64_t, Pt> at;
  Model(const Map &m, int fmt) : m(m), fmt(fmt) { for (auto &n : m.nodes) at[n.id] = {n.lat, n.lon}; }
  static Tags norm(TagList t) { std::sort(t.begin(), t.end()); return t; }
  Rec node(const MapNode &n) { Rec r; r.type = 'n'; r.id = n.id; r.tags = norm(n.tags); r.coords = {{n.lat, n.lon}}; return r; }
  Rec way(const MapWay &w) { Rec r; r.id = w.id; r.tags = norm(w.tags); bool closed = w.refs.size() > 3 && w.refs[0] == w.refs.back(); r.type = closed ? 'a' : 'w'; for (size_t i = 0; i + (closed ? 1 : 0) < w.refs.size(); ++i) r.coords.push_back(at[w.refs[i]]); if (closed && signedArea(r.coords) < 0) std::reverse(r.coords.begin(), r.coords.end()); return r; }
  const MapWay *find(uint64_t id) { for (auto &w : m.ways) if (w.id == id) return &w; return nullptr; }
  Rec ring(Pts p, bool outer) { Rec k; k.type = 'a'; if ((signedArea(p) > 0) != outer) std::reverse(p.begin(), p.end()); k.coords = p; k.id = 0; return k; }
  bool rel(const MapRel &x, Rec &r) {
    r = Rec(); r.type = 'r'; r.id = x.id; std::string type; for (auto &t : x.tags) if (t.first == "type") type = t.second; TagList tags = x.tags;
    if (type == "multipolygon") { // every ring is cut out of the closed or joined ways, roles tell outer from inner
      std::vector<uint64_t> open; for (auto &k : x.members) { auto w = find(k.first); if (w->refs[0] == w->refs.back()) { Rec a = way(*w); r.kids.push_back(ring(a.coords, k.second == "outer")); if (k.second == "outer" && x.tags.size() == 1) for (auto &t : w->tags) tags.push_back(t); }
        else { if (open.empty()) open = w->refs; else { auto v = w->refs; if (v[0] != open.back()) std::reverse(v.begin(), v.end()); open.insert(open.end(), v.begin() + 1, v.end() - 1); Pts p; for (auto n : open) p.push_back(at[n]); r.kids.push_back(ring(p, true)); } } } }
    else for (auto &k : x.members) { if (type == "building" && k.second == "outline") continue;
      if (k.type == 'n') { for (auto &n : m.nodes) if (n.id == k.first) r.kids.push_back(node(n)); } else if (k.type == 'w') r.kids.push_back(way(*find(k.first)));
      else for (auto &y : m.rels) if (y.id == k.first) { Rec c; if (rel(y, c)) r.kids.push_back(c); } }
    r.tags = norm(tags); return true;
  }
  std::vector<Rec> all() { // what the file of this format describes
    std::vector<Rec> v;
    if (fmt < 3) { for (auto &n : m.nodes) if (!n.tags.empty()) v.push_back(node(n)); for (auto &w : m.ways) if (!w.tags.empty()) v.push_back(way(w));
      for (auto &x : m.rels) { Rec r; if (fmt == 1) { auto rings = world::ringsOf(m, x); if (rings.size() < 2) continue; rel(x, r); r.tags = norm(x.tags); } else rel(x, r); v.push_back(r); }
      if (fmt == 1) for (auto &r : v) { r.tags.push_back({"feature", r.type == 'n' ? "things" : r.type == 'r' ? "polygons" : "lines"}); std::sort(r.tags.begin(), r.tags.end()); } }
    else { // shapes: no ids, keys of ten and values of twenty characters, polygons are relations of their rings
      if (fmt == 3) for (auto &n : m.nodes) if (!n.tags.empty()) v.push_back(node(n));
      for (auto &w : m.ways) if (!w.tags.empty()) { Rec r = way(w); if ((r.type == 'a') != (fmt == 5) || fmt == 3) continue; if (r.type == 'a') { Rec k = r; k.id = 0; k.tags.clear(); r.kids = {k}; r.coords.clear(); r.type = 'r'; } v.push_back(r); }
      if (fmt == 5) for (auto &x : m.rels) { if (world::ringsOf(m, x).size() < 2) continue; Rec r; rel(x, r); r.tags = norm(x.tags); v.push_back(r); }
      for (auto &r : v) { r.id = 0; for (auto &t : r.tags) { t.first = t.first.substr(0, 10); t.second = t.second.substr(0, 20); } } }
    return v;
  }
};

// ---- comparison ------------------------------------------------------------------
bool samePts(const Pts &a, const Pts &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (std::fabs(a[i].first - b[i].first) > Tol || std::fabs(a[i].second - b[i].second) > Tol) return false; return true; }
bool sameRing(Pts a, Pts b, bool anyWay) { // cyclic; the last point may repeat the first
  auto open = [](Pts &p) { if (p.size() > 1 && samePts({p[0]}, {p.back()})) p.pop_back(); }; open(a); open(b); if (a.size() != b.size()) return false;
  for (int d = 0; d < (anyWay ? 2 : 1); ++d) { for (size_t k = 0; k < a.size(); ++k) { if (samePts(a, b)) return true; std::rotate(a.begin(), a.begin() + 1, a.end()); } std::reverse(a.begin(), a.end()); } return false;
}
Tags clean(Tags t) { t.erase(std::remove_if(t.begin(), t.end(), [](const std::pair<std::string, std::string> &x) { return x.first == "?"; }), t.end()); std::sort(t.begin(), t.end()); return t; }
std::string whole(const Rec &want, const Rec &got, bool anyWay, bool top = true) {
  if (want.type != got.type) return std::string("it is of type ") + got.type;
  if (want.id != got.id && (top || want.id)) return "it has id " + std::to_string(got.id);
  if (want.tags != clean(got.tags)) return "its tags are " + got.text();
  if (want.type == 'a' ? !sameRing(want.coords, got.coords, anyWay) : want.type == 'w' ? !samePts(want.coords, got.coords) && !(anyWay && samePts(Pts(want.coords.rbegin(), want.coords.rend()), got.coords)) : want.type == 'n' && !samePts(want.coords, got.coords)) return "its geometry is different: " + got.text();
  if (want.kids.size() != got.kids.size()) return "it has " + std::to_string(got.kids.size()) + " members instead of " + std::to_string(want.kids.size());
  std::vector<bool> used(got.kids.size()); for (auto &k : want.kids) { bool hit = false; for (size_t i = 0; i < used.size() && !hit; ++i) if (!used[i] && whole(k, got.kids[i], anyWay, false).empty()) hit = used[i] = true; if (!hit) return "it has no member " + k.text(); }
  return "";
}
struct Measure { double area = 0, length = 0, least = 0, most = 0, tolA = 0, tolL = 0; int nodes = 0; }; // least, most: the border moved by Cut (a line may meet it at a small angle)
BoundingBox moved(const BoundingBox &b, double by) { return BoundingBox(GeoCoordinate(b.minPoint.latitude - by, b.minPoint.longitude - by), GeoCoordinate(b.maxPoint.latitude + by, b.maxPoint.longitude + by)); }
Measure expected(const Rec &r, const BoundingBox &b) { Measure m; std::vector<const Rec *> l; leaves(r, l); for (auto k : l) { if (k->type == 'a') { double a = areaInside(k->coords, b); m.area += a; m.tolA += Cut * perimeter(k->coords, true) * 2 + 1e-12; } else if (k->type == 'w') { m.length += lengthInside(k->coords, b); m.least += lengthInside(k->coords, moved(b, -Cut)); m.most += lengthInside(k->coords, moved(b, Cut)); m.tolL += Cut * 4 * (k->coords.size() + 1); } else if (inside(k->coords[0], b, 0)) ++m.nodes; } return m; }
Measure delivered(const Rec &r) { Measure m; std::vector<const Rec *> l; leaves(r, l); for (auto k : l) if (k->type == 'a') m.area += std::fabs(signedArea(k->coords)); else if (k->type == 'w') m.length += perimeter(k->coords, false); else ++m.nodes; return m; }
std::string cut(const Rec &want, const Rec &got, const BoundingBox &b, bool anyWay) {
  if (want.type == 'n') return whole(want, got, anyWay);
  if (got.id != want.id) return "it has id " + std::to_string(got.id);
  std::vector<const Rec *> l; leaves(got, l);
  for (auto k : l) for (auto &p : k->coords) if (!inside(p, b, Cut)) { char t[90]; snprintf(t, sizeof t, "it has a point outside of the tile: %.7f %.7f", p.first, p.second); return t; }
  if (want.type == 'r' ? clean(got.tags) != want.tags : got.type == 'r' ? !got.tags.empty() : clean(got.tags) != want.tags) return "its tags are " + got.text();
  if (want.type != 'r') { if (got.type != 'r' && got.type != want.type) return std::string("it is of type ") + got.type; if (got.type == 'r') for (auto k : l) if (k->type != want.type || clean(k->tags) != want.tags) return "a piece of it is " + k->text(); }
  Measure e = expected(want, b), d = delivered(got); char t[160];
  if (std::fabs(e.area - d.area) > e.tolA + 1e-13) { snprintf(t, sizeof t, "its area in the tile is %.9g instead of %.9g", d.area, e.area); return t; }
  if (d.length < e.least - e.tolL || d.length > e.most + e.tolL) { snprintf(t, sizeof t, "its length in the tile is %.9g instead of %.9g", d.length, e.length); return t; }
  if (e.nodes != d.nodes) return "it has " + std::to_string(d.nodes) + " nodes in the tile instead of " + std::to_string(e.nodes);
  return "";
}

struct Import { Rec rec; int fmt; };
struct Run {
  Plan &p;
  typedef utymap::index::StringTable ST; std::unique_ptr<ST> st; std::unique_ptr<utymap::index::GeoStore> geo; std::unique_ptr<utymap::mapcss::StyleProvider> style;
  struct Want { const Rec *rec; int fmt; bool cut, sure; };
  std::map<int, std::vector<Want>> want[2]; std::vector<std::unique_ptr<std::vector<Rec>>> kept; bool pers;
  explicit Run(Plan &p) : p(p), pers(p.p("pers")) {}
  void open() {
    st.reset(new ST("/sim/app/")); geo.reset(new utymap::index::GeoStore(*st));
    for (int i = 0; i < 2; ++i) { std::unique_ptr<utymap::index::ElementStore> s; if (i == 0 && pers) s.reset(new utymap::index::PersistentElementStore("/sim/app/data", *st)); else s.reset(new utymap::index::InMemoryElementStore(*st)); geo->registerStore(i ? "b" : "a", std::move(s)); }
    utymap::mapcss::MapCssParser parser("/sim/app/"); style.reset(new utymap::mapcss::StyleProvider(parser.parse(std::string(Probe)), *st));
  }
  void close() { style.reset(); geo.reset(); st.reset(); }
  void expect(int store, const std::vector<Rec> *recs, int fmt, int mode, int t, const BoundingBox &area, int lod0, int lod1) {
    for (auto &r : *recs) { std::string c = tagOf(r, "cls"); if (c.empty() || c == "skip" || c == "none") continue;
      int whereArea = mode == 2 ? overlap(r, area) : 1; if (whereArea < 0) continue;
      for (int i = 0; i < Tiles; ++i) { int z = tileAt(i).levelOfDetail; if (c == "deep" && z != 16) continue; if ((c == "gap" || c == "shy") && z == 15) continue; bool clip = c == "cut" || (c == "mix" && z == 15); if (mode == 0 ? i != t : z < lod0 || z > lod1) continue;
        auto b = boxOf(i); int o = std::min(whereArea, overlap(r, b)); if (o < 0) continue; bool sure = o > 0;
        if (clip) { Measure m = expected(r, b); if (m.area <= m.tolA && m.least <= m.tolL && m.nodes == 0) { if (m.area == 0 && m.length == 0) { std::vector<const Rec *> l; leaves(r, l); bool near = false; BoundingBox g(GeoCoordinate(b.minPoint.latitude - Cut, b.minPoint.longitude - Cut), GeoCoordinate(b.maxPoint.latitude + Cut, b.maxPoint.longitude + Cut)); Measure n = expected(r, g); near = n.area > 0 || n.length > 0 || n.nodes > 0; if (!near) continue; } sure = false; } }
        want[store][i].push_back({&r, fmt, clip, sure}); } }
  }
  void look(int i) {
    CancellationToken tok; Collector c([&](uint32_t id) { return id == 0xFFFFFFFFu ? std::string("?") : *st->getString(id); });
    geo->search(tileAt(i), *style, c, tok);
    Quiet q; auto b = boxOf(i); std::string where = "tile " + std::to_string(tileAt(i).levelOfDetail) + "/" + std::to_string(tileAt(i).tileX) + "/" + std::to_string(tileAt(i).tileY);
    std::map<std::string, std::vector<const Rec *>> got; for (auto &r : c.out) got[uidOf(r)].push_back(&r);
    std::map<std::string, std::vector<Want>> all; for (auto &s : want) for (auto &w : s[i]) all[uidOf(*w.rec)].push_back(w);
    static const char *formats[] = {"xml", "json", "pbf", "shape points", "shape lines", "shape areas"};
    for (auto &g : got) if (!all.count(g.first)) fail("extra-element", where + " holds an element it should not: " + g.second[0]->text());
    for (auto &a : all) {
      auto &gs = got[a.first]; size_t must = 0; for (auto &w : a.second) must += w.sure; 
      if (gs.size() < must || gs.size() > a.second.size()) fail(gs.size() < must ? "missing-element" : "extra-element", where + " holds " + std::to_string(gs.size()) + " of " + std::to_string(must) + " times the element " + a.second[0].rec->text() + (a.second[0].cut ? " (clipped, " : " (") + formats[a.second[0].fmt] + ")");
      for (auto g : gs) { std::string why; bool ok = false; for (auto &w : a.second) { bool any = w.fmt == 1 || w.fmt > 2; why = w.cut ? cut(*w.rec, *g, b, any) : whole(*w.rec, *g, any); if (why.empty()) { ok = true; break; } }
        if (!ok && p.p("show")) { std::vector<const Rec *> l; printf("want"); leaves(*a.second[0].rec, l); size_t k = 0, n = l.size(); leaves(*g, l); for (; k < l.size(); ++k) { if (k == n) printf("\ngot"); printf("\n %c", l[k]->type); for (auto &x : l[k]->coords) printf(" (%.7f %.7f)", x.first, x.second); } printf("\ntile (%.8f %.8f) (%.8f %.8f)\n", b.minPoint.latitude, b.minPoint.longitude, b.maxPoint.latitude, b.maxPoint.longitude); fflush(stdout); }
        if (!ok) fail("wrong-element", where + " holds an element which differs from the " + formats[a.second[0].fmt] + " file: " + why + ", instead of " + a.second[0].rec->text()); count(a.second[0].cut ? "op.clippedElement" : "op.wholeElement"); }
    }
    cover(hashRecs(c.out));
  }
  void importFile(const Op &o, int no) {
    uint64_t seed = (uint64_t)o.arg(0); int fmt = (int)o.arg(1), mode = (int)o.arg(2), t = (int)o.arg(3), store = (int)o.arg(6); int l0 = (int)o.arg(4), l1 = (int)o.arg(5);
    std::string path = "/sim/in/c" + std::to_string(no) + (fmt == 0 ? ".osm.xml" : fmt == 1 ? ".osm.json" : fmt == 2 ? ".osm.pbf" : ""); Map m = makeMap(seed); BoundingBox area = boxOf(t);
    { Quiet q; fs::mkdirs("/sim/in"); if (fmt == 0) fs::write(path, world::osmXml(m)); else if (fmt == 1) fs::write(path, world::osmJson(m)); else if (fmt == 2) { std::string s; for (auto &b : world::osmPbf(m)) s += b; fs::write(path, s); } else for (auto &f : world::shape(m, fmt - 3)) fs::write(path + f.first, f.second);
      kept.emplace_back(new std::vector<Rec>(Model(m, fmt).all())); expect(store, kept.back().get(), fmt, mode, t, area, l0, l1);
      if (p.p("show")) for (auto &r : *kept.back()) printf("  %s\n", r.text().c_str()); }
    CancellationToken tok; std::string key = store ? "b" : "a";
    try { if (mode == 0) geo->add(key, path, tileAt(t), *style, tok); else if (mode == 1) geo->add(key, path, utymap::LodRange(l0, l1), *style, tok); else geo->add(key, path, area, utymap::LodRange(l0, l1), *style, tok); }
    catch (const std::exception &e) { fail("refused", std::string("a healthy import fails: ") + e.what()); }
    count("op.import"); trace("import %s mode %d tile %d", path.c_str(), mode, t);
  }
  void all() {
    { Quiet q; for (int l = 1; l <= 16; ++l) fs::mkdirs("/sim/app/data/" + std::to_string(l)); }
    open(); int no = 0;
    for (auto &o : p.ops) { ++no; if (o.kind == "import") importFile(o, no); else if (o.kind == "look") look((int)o.arg(0)); else if (o.kind == "restart") { close(); want[1].clear(); if (!pers) want[0].clear(); open(); count("op.restart"); } }
    for (int i = 0; i < Tiles; ++i) look(i);
    close();
  }
};
void gen(Rng &r, Plan &p) {
  p.par["pers"] = r.chance(0.6); int n = (int)r.range(1, 4), base = (int)r.below(100000);
  for (int i = 0; i < n; ++i) { int l0 = (int)r.range(14, 16), l1 = r.chance(0.7) ? 16 : (int)r.range(l0, 16); p.op(0, "import", {base + (long long)r.below(3), r.below(6), r.below(3), r.below(Tiles), l0, l1, r.chance(0.25)}); if (r.chance(0.3)) p.op(0, "look", {r.below(Tiles)}); if (r.chance(0.15)) p.op(0, "restart"); }
  if (r.chance(0.5)) p.faults.push_back({"read_partial:/sim", r.range(1, 30), r.range(1, 50), r.range(1, 999)});
}
void exec(Plan &p) { Run r(p); runTasks({[&] { r.all(); }}); }
Registrar a("content", gen, exec);
}
