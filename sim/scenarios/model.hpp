// Shared reference model of map elements and tiles.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "sim.hpp"
#include "QuadKey.hpp"
#include "BoundingBox.hpp"
#include "entities/Node.hpp"
#include "entities/Way.hpp"
#include "entities/Area.hpp"
#include "entities/Relation.hpp"
#include "entities/ElementVisitor.hpp"
#include "index/StringTable.hpp"
#include "utils/GeoUtils.hpp"
#include <cstring>
#include <set>
#include <sstream>

namespace model {
using utymap::QuadKey; using utymap::BoundingBox; using utymap::GeoCoordinate;
using utymap::entities::Element; using utymap::entities::Node; using utymap::entities::Way; using utymap::entities::Area; using utymap::entities::Relation; using utymap::entities::Tag;

typedef std::vector<std::pair<std::string, std::string>> Tags;
// A stored element as clients see it: everything resolved to plain values.
struct Rec {
  char type; uint64_t id; Tags tags; std::vector<std::pair<double, double>> coords; std::vector<Rec> kids;
  bool operator<(const Rec &o) const { return std::tie(id, type, tags, coords, kids) < std::tie(o.id, o.type, o.tags, o.coords, o.kids); }
  bool operator==(const Rec &o) const { return std::tie(id, type, tags, coords, kids) == std::tie(o.id, o.type, o.tags, o.coords, o.kids); }
  std::string text() const {
    std::ostringstream s; s << type << id << "{"; for (auto &t : tags) s << t.first.substr(0, 30) << "=" << t.second.substr(0, 30) << ","; s << "}(" << coords.size() << " points";
    if (!coords.empty()) s << " from " << coords[0].first << "," << coords[0].second; s << ")"; if (!kids.empty()) { s << "["; for (auto &k : kids) s << k.text() << " "; s << "]"; } return s.str(); }
  void box(BoundingBox &b) const { for (auto &c : coords) b.expand(GeoCoordinate(c.first, c.second)); for (auto &k : kids) k.box(b); }
};

// Builds the engine's object for a record.
inline std::shared_ptr<Element> make(const Rec &r, const std::function<uint32_t(const std::string &)> &id) {
  std::shared_ptr<Element> e;
  auto cs = [&](std::vector<GeoCoordinate> &v) { for (auto &c : r.coords) v.push_back(GeoCoordinate(c.first, c.second)); };
  if (r.type == 'n') { auto n = std::make_shared<Node>(); n->coordinate = GeoCoordinate(r.coords[0].first, r.coords[0].second); e = n; }
  else if (r.type == 'w') { auto n = std::make_shared<Way>(); cs(n->coordinates); e = n; }
  else if (r.type == 'a') { auto n = std::make_shared<Area>(); cs(n->coordinates); e = n; }
  else { auto n = std::make_shared<Relation>(); for (auto &k : r.kids) n->elements.push_back(make(k, id)); e = n; }
  e->id = r.id;
  for (auto &t : r.tags) { uint32_t k = id(t.first), v = id(t.second); e->tags.push_back(Tag(k, v)); }
  return e;
}

// Turns delivered elements into records.
struct Collector : utymap::entities::ElementVisitor {
  std::function<std::string(uint32_t)> str; std::vector<Rec> out; std::function<void(const Rec &)> on;
  explicit Collector(std::function<std::string(uint32_t)> s) : str(std::move(s)) {}
  void common(Rec &r, const Element &e) { r.id = e.id; for (auto &t : e.tags) r.tags.push_back({str(t.key), str(t.value)}); }
  void done(Rec &&r) { out.push_back(std::move(r)); if (on) on(out.back()); }
  Rec conv(const Element &e) { Collector c(str); e.accept(c); return c.out.at(0); }
  void visitNode(const Node &n) override { Rec r; r.type = 'n'; common(r, n); r.coords.push_back({n.coordinate.latitude, n.coordinate.longitude}); done(std::move(r)); }
  void visitWay(const Way &n) override { Rec r; r.type = 'w'; common(r, n); for (auto &c : n.coordinates) r.coords.push_back({c.latitude, c.longitude}); done(std::move(r)); }
  void visitArea(const Area &n) override { Rec r; r.type = 'a'; common(r, n); for (auto &c : n.coordinates) r.coords.push_back({c.latitude, c.longitude}); done(std::move(r)); }
  void visitRelation(const Relation &n) override { Rec r; r.type = 'r'; common(r, n); for (auto &k : n.elements) r.kids.push_back(conv(*k)); done(std::move(r)); }
};

// Text search semantics: terms are the words of tag keys and values.
inline std::set<std::string> words(const std::string &s) {
  std::set<std::string> r; std::string cur; const char *sep = " _:;!@#$%^&*(){}[],.?`\\/\"\'";
  for (char c : s) if (c && strchr(sep, c)) { if (!cur.empty()) r.insert(cur); cur.clear(); } else cur += c;
  if (!cur.empty()) r.insert(cur);
  return r;
}
inline std::set<std::string> words(const Rec &r) { std::set<std::string> o; for (auto &t : r.tags) { auto a = words(t.first), b = words(t.second); o.insert(a.begin(), a.end()); o.insert(b.begin(), b.end()); } return o; }
struct TextQuery { std::string no, all, any; BoundingBox box; int lod0, lod1; };
// may: could legally be in the result; must: has to be. They differ only where "or" terms given next
// to "and" terms match nothing in the tile ("result might include any of these terms").
inline void match(const TextQuery &q, const std::vector<Rec> &tile, std::vector<Rec> &must, std::vector<Rec> &may, bool doubtful = false) {
  auto n = words(q.no), a = words(q.all), o = words(q.any);
  bool anyOr = false; std::vector<std::set<std::string>> w; for (auto &r : tile) w.push_back(words(r));
  for (auto &x : w) for (auto &t : o) if (x.count(t)) anyOr = true;
  for (size_t i = 0; i < tile.size(); ++i) {
    BoundingBox b; tile[i].box(b); if (!q.box.intersects(b)) continue;
    bool bad = false; for (auto &t : n) if (w[i].count(t)) bad = true;
    for (auto &t : a) if (!w[i].count(t)) bad = true;
    if (bad || (a.empty() && o.empty())) continue;
    bool hasOr = false; for (auto &t : o) if (w[i].count(t)) hasOr = true;
    if (o.empty() || hasOr) { must.push_back(tile[i]); may.push_back(tile[i]); }
    else if (!a.empty() && (!anyOr || doubtful)) may.push_back(tile[i]);
  }
}
// multiset inclusion: every record of a is in b (counting)
inline const Rec *missing(std::vector<Rec> a, std::vector<Rec> b) {
  static Rec r; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); size_t j = 0;
  for (auto &x : a) { while (j < b.size() && b[j] < x) ++j; if (j == b.size() || !(b[j] == x)) { r = x; return &r; } ++j; }
  return nullptr;
}
inline uint64_t hashRecs(std::vector<Rec> v) { std::sort(v.begin(), v.end()); uint64_t h = 7; for (auto &r : v) { std::string s = r.text(); h = sim::hashBytes(s.data(), s.size(), h); } return h; }
}
#endif
