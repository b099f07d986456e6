// C21: what requests and searches deliver is what the stylesheet says about the stored elements, told by a
// model of stylesheets and map data which knows nothing of the code.
#include "world.hpp"
#include "model.hpp"
using namespace sim; using namespace model; using utymap::CancellationToken;
using world::Map; using world::TagList; using world::Member;
namespace {
const double Tol = 2e-8, Edge = 3e-7;
const int Tiles = 13;   // 3x3 tiles of detail 16, four of detail 15 over them
QuadKey tileAt(int i) { return i < 9 ? QuadKey(16, 35203 + i % 3, 21487 + i / 3) : QuadKey(15, 17601 + (i - 9) % 2, 10743 + (i - 9) / 2); }
BoundingBox boxOf(int i) { return utymap::utils::GeoUtils::quadKeyToBoundingBox(tileAt(i)); }
std::string nameOf(int i) { auto k = tileAt(i); return "tile " + std::to_string(k.levelOfDetail) + "/" + std::to_string(k.tileX) + "/" + std::to_string(k.tileY); }

// ---- stylesheets -----------------------------------------------------------------
struct Cond { std::string key, op, value; };
struct Sel { std::string names; int z0, z1; std::vector<Cond> conds; uint64_t id = 0; };      // names: of n w a r
struct Rule { std::vector<Sel> sels; std::vector<std::pair<std::string, std::string>> decls; };
struct Sheet {
  std::vector<Rule> rules; std::vector<int> part;                                    // part: file the rule is written to
  static std::string nameOf(char c) { return c == 'n' ? "node" : c == 'w' ? "way" : c == 'a' ? "area" : "relation"; }
  std::string text(int file, Rng &r) const {
    std::ostringstream s; auto gap = [&] { s << (r.chance(0.2) ? " /* note: [a=b] { } */ " : r.chance(0.5) ? "\n" : " "); };
    for (size_t i = 0; i < rules.size(); ++i) { if (part[i] != file) continue; auto &u = rules[i]; bool first = true;
      for (auto &l : u.sels) { if (!first) s << ","; first = false; gap();
        if (l.id) s << "element"; else for (size_t k = 0; k < l.names.size(); ++k) s << (k ? "," : "") << nameOf(l.names[k]);
        s << "|z" << l.z0; if (l.z1 != l.z0) s << "-" << l.z1; for (auto &c : l.conds) s << "[" << c.key << c.op << c.value << "]"; if (l.id) s << "[id=" << l.id << "]"; }
      s << " {"; gap(); for (auto &d : u.decls) { s << d.first << ":" << (r.chance(0.5) ? " " : "") << d.second << ";"; gap(); } s << "}"; gap(); }
    return s.str();
  }
  static bool num(const std::string &s, double &v) { char *e; v = strtod(s.c_str(), &e); return !s.empty() && !*e; }
  static bool holds(const Cond &c, const Tags &tags) {
    for (auto &t : tags) if (t.first == c.key) { double a = 0, b = 0;
      if (c.op.empty()) return true; if (c.op == "=") return t.second == c.value; if (c.op == "!=") return t.second != c.value;
      if (!num(t.second, a)) a = 0; if (!num(c.value, b)) b = 0; return c.op == "<" ? a < b : a > b; }
    return false;
  }
  // declarations of an element and its builders
  bool apply(const Rec &r, int z, std::map<std::string, std::string> &d, std::set<std::string> &builders) const {
    d.clear(); builders.clear(); auto take = [&](const Rule &u) { for (auto &x : u.decls) { d[x.first] = x.second; if (x.first == "builder") builders.insert(x.second); } };
    for (auto &u : rules) for (auto &l : u.sels) if (l.id && l.id == r.id && z >= l.z0 && z <= l.z1) { take(u); return true; }
    for (auto &u : rules) for (auto &l : u.sels) { if (l.id || l.names.find(r.type) == std::string::npos || z < l.z0 || z > l.z1) continue; bool ok = true; for (auto &c : l.conds) ok = ok && holds(c, r.tags); if (ok) take(u); }
    return !d.empty();
  }
};
const char *Kinds[] = {"cafe", "Cafe", "main road", "x", "rail_way", "0"};
const char *Levels[] = {"-2", "0", "1", "2.5", "7", "12", "100"};
Sheet makeSheet(uint64_t seed, const std::vector<Rec> &recs) {
  Rng r(seed * 9176 + 29); Sheet s; int parts = r.chance(0.3) ? 2 : 1; auto add = [&](Rule u) { s.rules.push_back(u); s.part.push_back(0); };
  add({{{"wa", 15, 16, {{"cls", "=", "cut"}}}}, {{"clip", "true"}}}); add({{{"nwar", 15, 16, {{"cls", "=", "skip"}}}}, {{"skip", "true"}}});
  auto cond = [&] { Cond c; int k = (int)r.below(6);
    if (k < 2) { c.key = "kind"; c.value = Kinds[r.below(6)]; } else if (k < 4) { c.key = r.chance(0.5) ? "level" : "height"; c.value = Levels[r.below(7)]; } else if (k == 4) { c.key = "cls"; c.value = "plain"; } else { c.key = "name"; c.value = "N" + std::to_string(r.below(3)); }
    int o = (int)r.below(8); bool numeric = c.key == "level" || c.key == "height"; if (o == 0) { c.value = ""; } else if (numeric ? o < 3 : o < 6) c.op = "="; else if (numeric ? o < 4 : o < 8) c.op = "!="; else c.op = o < 6 ? "<" : ">"; return c; };
  std::set<uint64_t> ids; int n = (int)r.range(2, 9);
  for (int i = 0; i < n; ++i) { Rule u; bool byId = r.chance(0.12);
    if (byId) { const Rec &e = recs[r.below(recs.size())]; bool cut = false; for (auto &t : e.tags) cut = cut || t.second == "cut"; if (cut || !ids.insert(e.id).second) continue; int z = (int)r.range(15, 16); u.sels.push_back({"", z, r.chance(0.5) ? 16 : z, {}, e.id}); }
    else for (int k = (int)r.range(1, r.chance(0.3) ? 3 : 1); k > 0; --k) { Sel l; l.z0 = (int)r.range(r.chance(0.2) ? 1 : 15, 16); l.z1 = r.chance(0.6) ? 16 : (int)r.range(l.z0, r.chance(0.3) ? 19 : 16); for (char c : std::string("nwar")) if (r.chance(0.45)) l.names += c; if (l.names.empty()) l.names = "nwar"[r.below(4)]; if (r.chance(0.4)) std::reverse(l.names.begin(), l.names.end()); for (int j = (int)r.range(1, r.chance(0.3) ? 3 : 1); j > 0; --j) l.conds.push_back(cond()); u.sels.push_back(l); }
    static const char *keys[] = {"a", "b", "mark-size", "color"}; for (int k = (int)r.range(1, 3); k > 0; --k) { if (r.chance(0.45)) u.decls.push_back({"builder", r.chance(0.7) ? "place" : "sign"}); else u.decls.push_back({keys[r.below(3)], r.chance(0.2) ? "two words 5m" : "v" + std::to_string(r.below(50))}); }
    if (r.chance(0.3)) u.decls.push_back({"color", "#" + std::to_string(100000 + r.below(800000))});
    add(u); s.part.back() = parts == 2 && r.chance(0.5); }
  if (r.chance(0.5)) add({{{"nwar", 15, 16, {{"uid", "", ""}}}}, {{"builder", "place"}}});
  // the imported part comes first
  std::vector<Rule> first, last; for (size_t i = 0; i < s.rules.size(); ++i) (s.part[i] ? first : last).push_back(s.rules[i]);
  std::vector<int> part(first.size(), 1); part.resize(s.rules.size(), 0); first.insert(first.end(), last.begin(), last.end()); s.rules = first; s.part = part;
  return s;
}

// ---- map data --------------------------------------------------------------------
double round7(double v) { return std::round(v * 1e7) / 1e7; }
double turn(const std::vector<std::pair<double, double>> &p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) { auto &u = p[i], &v = p[(i + 1) % p.size()]; a += (u.second - p[0].second) * (v.first - p[0].first) - (v.second - p[0].second) * (u.first - p[0].first); } return a; }
struct Data { Map map; std::vector<Rec> recs, singles; };  // singles are added one by one
Data makeData(uint64_t seed) {
  Rng r(seed * 40503 + 7); Data d; uint64_t id = 1 + r.below(1000000); int uid = 0; Map &m = d.map; BoundingBox b = boxOf(4), o = boxOf(0); for (int i = 0; i < 9; ++i) o.expand(boxOf(i));
  static const char *cls[] = {"plain", "plain", "plain", "cut", "skip"}; std::map<uint64_t, std::pair<double, double>> at;
  auto tags = [&](bool rel) { TagList t{{"uid", "u" + std::to_string(seed) + "x" + std::to_string(++uid)}}; if (r.chance(0.9)) t.push_back({"cls", cls[r.below(rel ? 3 : 5)]}); if (r.chance(0.6)) t.push_back({"kind", Kinds[r.below(6)]}); if (r.chance(0.6)) t.push_back({"level", r.chance(0.1) ? "high" : Levels[r.below(7)]}); if (r.chance(0.4)) t.push_back({"height", Levels[r.below(7)]}); if (r.chance(0.5)) t.push_back({"name", "N" + std::to_string(r.below(3))}); return t; };
  auto pt = [&](bool wide) { const BoundingBox &x = wide ? o : b; return std::make_pair(round7(x.minPoint.latitude + x.height() * (0.02 + 0.96 * r.unit())), round7(x.minPoint.longitude + x.width() * (0.02 + 0.96 * r.unit()))); };
  std::set<uint64_t> taken; auto nid = [&] { uint64_t i = ++id; if (!taken.empty() && r.chance(0.2)) { auto it = taken.begin(); std::advance(it, r.below(taken.size())); uint64_t c = *it + ((1 + r.below(3)) << 32); if (!taken.count(c)) i = c; } taken.insert(i); return i; };      // some ids differ in the upper half only
  auto P = [&](std::pair<double, double> p) { m.nodes.push_back({++id, p.first, p.second, {}}); at[id] = p; return id; };
  auto sorted = [](TagList t) { std::sort(t.begin(), t.end()); return t; };
  auto rec = [&](char type, uint64_t i, const TagList &t, std::vector<std::pair<double, double>> c) { Rec e; e.type = type; e.id = i; e.tags = sorted(t); if (type == 'a' && turn(c) < 0) std::reverse(c.begin(), c.end()); e.coords = c; return e; };
  auto shape = [&](char type, bool wide) { std::vector<std::pair<double, double>> c; auto q = pt(wide); if (type == 'n') return decltype(c){q}; if (type == 'w') { for (int i = (int)r.range(2, 5); i > 0; --i) c.push_back(pt(wide)); return c; } double s = wide ? 0.004 * (0.3 + r.unit()) : 0.0004; int n = (int)r.range(3, 7); bool back = r.chance(0.5); for (int i = 0; i < n; ++i) { double a = 6.2831853 * i / n * (back ? -1 : 1); c.push_back({round7(q.first + s * std::sin(a)), round7(q.second + s * std::cos(a))}); } return c; };
  for (int i = (int)r.range(2, 9); i > 0; --i) { char type = "nwa"[r.below(3)]; auto c = shape(type, r.chance(0.5)); TagList t = tags(false);
    if (type == 'n') { uint64_t i = nid(); m.nodes.push_back({i, c[0].first, c[0].second, t}); at[i] = c[0]; d.recs.push_back(rec('n', i, t, c)); } else { std::vector<uint64_t> v; for (auto &q : c) v.push_back(P(q)); if (type == 'a') v.push_back(v[0]); uint64_t i = nid(); m.ways.push_back({i, v, t}); d.recs.push_back(rec(type, i, t, c)); } }
  if (r.chance(0.5)) { std::vector<Member> mem; Rec e; e.type = 'r'; for (auto &x : d.recs) if (r.chance(0.4)) { mem.push_back({x.id, "", x.type == 'n' ? 'n' : 'w'}); e.kids.push_back(x); } if (!mem.empty()) { TagList t = tags(true); t.push_back({"type", "site"}); e.id = nid(); m.rels.push_back({e.id, mem, t}); e.tags = sorted(t); d.recs.push_back(e); } }
  for (int i = (int)r.range(0, 3); i > 0; --i) { char type = "nwa"[r.below(3)]; auto c = shape(type, false); TagList t = tags(false); if (type == 'a') c.push_back(c[0]); Rec e; e.type = type; e.id = nid(); e.tags = sorted(t); e.coords = c; d.singles.push_back(e); }
  return d;
}
int overlap(const Rec &r, const BoundingBox &t) { // -1 apart, 0 touching, 1 overlapping
  BoundingBox b; r.box(b); auto gap = [](double a0, double a1, double b0, double b1) { return std::min(a1, b1) - std::max(a0, b0); };
  double y = gap(b.minPoint.latitude, b.maxPoint.latitude, t.minPoint.latitude, t.maxPoint.latitude), x = gap(b.minPoint.longitude, b.maxPoint.longitude, t.minPoint.longitude, t.maxPoint.longitude);
  bool flatY = b.height() == 0, flatX = b.width() == 0; auto one = [](double g, bool flat, double lo, double hi, double v) { return flat ? std::min(v - lo, hi - v) : g; };
  double g = std::min(one(y, flatY, t.minPoint.latitude, t.maxPoint.latitude, b.minPoint.latitude), one(x, flatX, t.minPoint.longitude, t.maxPoint.longitude, b.minPoint.longitude));
  return g > Edge ? 1 : g > -Edge ? 0 : -1;
}
std::string tagOf(const Tags &t, const char *k) { for (auto &x : t) if (x.first == k) return x.second; return ""; }

// ---- the engine's answers --------------------------------------------------------
struct Out { uint64_t id; Tags tags; std::vector<double> v; std::map<std::string, std::string> style; };
struct Ask { std::vector<Out> out; std::string error; int meshes = 0; };
std::vector<Ask> *g_asks; std::string *g_error;
void onError(const char *m) { Quiet q; *g_error = m && *m ? m : "(no message)"; }
void onMesh(int, const char *, const double *, int, const int *, int, const int *, int, const double *, int, const int *, int) { Quiet q; fail("extra-mesh", "a mesh is delivered which no style asks for"); }
void onElement(int tag, std::uint64_t id, const char **tags, int tn, const double *v, int vn, const char **st, int sn) {
  { Quiet q; if (tag < 0 || tag >= (int)g_asks->size()) fail("wrong-tag", "a callback carries request tag " + std::to_string(tag));
    Out o; o.id = id; for (int k = 0; k + 1 < tn; k += 2) o.tags.push_back({tags[k], tags[k + 1]}); std::sort(o.tags.begin(), o.tags.end()); o.v.assign(v, v + vn); for (int k = 0; k + 1 < sn; k += 2) if (!o.style.emplace(st[k], st[k + 1]).second) fail("wrong-style", std::string("declaration ") + st[k] + " is delivered twice");
    if (tn % 2 || sn % 2 || vn % 3) fail("broken-element", "element " + std::to_string(id) + " has " + std::to_string(tn) + " tag strings, " + std::to_string(sn) + " style strings, " + std::to_string(vn) + " coordinates");
    (*g_asks)[tag].out.push_back(o); count("op.delivered"); }
  schedPoint("callback", nullptr);
}
void newDir(const char *p) { Quiet q; fs::mkdirs(p); }

struct Run {
  Plan &p; Data data; Sheet sheet[2]; bool pers; struct Held { const Rec *rec; bool sure; }; std::map<int, std::map<uint64_t, Held>> held[2];
  explicit Run(Plan &p) : p(p), pers(p.p("pers")) { data = makeData((uint64_t)p.p("data")); auto all = data.recs; all.insert(all.end(), data.singles.begin(), data.singles.end()); for (int s = 0; s < 2; ++s) sheet[s] = makeSheet((uint64_t)p.p("sheet") * 2 + s, all); }
  std::string styleFile(int s) { return "/sim/app/sheet" + std::to_string(s) + ".mapcss"; }
  void files() {
    Quiet q; fs::mkdirs("/sim/in"); for (int l = 1; l <= 16; ++l) fs::mkdirs("/sim/app/data/" + std::to_string(l)); fs::mkdirs("/sim/app/cache");
    Rng r((uint64_t)p.p("sheet") + 5); for (int s = 0; s < 2; ++s) { bool two = false; for (int x : sheet[s].part) two = two || x; std::string t = sheet[s].text(0, r); if (two) { std::string part = "part" + std::to_string(s) + ".mapcss"; fs::write("/sim/app/" + part, sheet[s].text(1, r)); t = "@import url(\"" + part + "\");\n" + t; } fs::write(styleFile(s), t); if (p.p("show")) printf("sheet %d:\n%s\n", s, t.c_str()); }
    fs::write("/sim/in/0.osm.xml", world::osmXml(data.map)); std::string pbf; for (auto &b : world::osmPbf(data.map)) pbf += b; fs::write("/sim/in/1.osm.pbf", pbf);
    for (int i = 0; i < Tiles; ++i) fs::write("/sim/app/data/" + std::to_string(tileAt(i).levelOfDetail) + "/" + utymap::utils::GeoUtils::quadKeyToString(tileAt(i)) + ".ele", world::grid(i, (int)p.p("data") % 2));
  }
  void check(const char *what) { Quiet q; if (!g_error->empty()) fail("refused", std::string(what) + " fails: " + *g_error); }
  void open() {
    { Quiet q; g_error->clear(); } connect("/sim/app/", onError); check("connect");
    for (int s = 0; s < 2; ++s) registerStylesheet(styleFile(s).c_str(), newDir);
    if (pers) registerPersistentStore("a", "/sim/app/data", newDir); else registerInMemoryStore("a");
    registerInMemoryStore("b");
  }
  void expect(int store, const std::vector<Rec> &recs, int s, int mode, int t, int l0, int l1) {
    for (auto &r : recs) { if (mode == 2 && overlap(r, boxOf(t)) < 0) continue; bool near = mode == 2 && overlap(r, boxOf(t)) == 0;
      for (int i = 0; i < Tiles; ++i) { int z = tileAt(i).levelOfDetail; if (mode == 0 ? i != t : z < l0 || z > l1) continue; int o = overlap(r, boxOf(i)); if (o < 0) continue;
        std::map<std::string, std::string> d; std::set<std::string> b; if (!sheet[s].apply(r, z, d, b)) continue; auto k = d.find("skip"); if (k != d.end() && k->second == "true") continue;
        bool clip = d.count("clip") && d["clip"] == "true"; auto &h = held[store][i][r.id]; h.rec = &r; h.sure = h.sure || (o > 0 && !near && (!clip || r.type == 'n' || inside(r, boxOf(i)))); } }
  }
  static bool inside(const Rec &r, const BoundingBox &b) { for (auto &c : r.coords) if (c.first < b.minPoint.latitude + Edge || c.first > b.maxPoint.latitude - Edge || c.second < b.minPoint.longitude + Edge || c.second > b.maxPoint.longitude - Edge) return false; return true; }
  void import(const Op &o) {
    int store = (int)o.arg(0), s = (int)o.arg(1), f = (int)o.arg(2), mode = (int)o.arg(3), t = (int)o.arg(4), l0 = (int)o.arg(5), l1 = (int)o.arg(6); const char *key = store ? "b" : "a"; std::string st, path; { Quiet q; st = styleFile(s); path = f ? "/sim/in/1.osm.pbf" : "/sim/in/0.osm.xml"; g_error->clear(); }
    CancellationToken tok; auto k = tileAt(t); auto b = boxOf(t);
    if (mode == 0) addDataInQuadKey(key, st.c_str(), path.c_str(), k.tileX, k.tileY, k.levelOfDetail, onError, &tok);
    else if (mode == 1) addDataInRange(key, st.c_str(), path.c_str(), l0, l1, onError, &tok);
    else addDataInBoundingBox(key, st.c_str(), path.c_str(), b.minPoint.latitude, b.minPoint.longitude, b.maxPoint.latitude, b.maxPoint.longitude, l0, l1, onError, &tok);
    check("an import"); Quiet q; expect(store, data.recs, s, mode, t, l0, l1); count("op.import");
  }
  void single(const Op &o) {
    if (data.singles.empty()) return; const Rec &r = data.singles[o.arg(2) % data.singles.size()]; int store = (int)o.arg(0), s = (int)o.arg(1), l0 = (int)o.arg(5), l1 = (int)o.arg(6); std::string st; std::vector<double> v; std::vector<const char *> g; { Quiet q; st = styleFile(s); g_error->clear(); for (auto &c : r.coords) { v.push_back(c.first); v.push_back(c.second); } for (auto &t : r.tags) { g.push_back(t.first.c_str()); g.push_back(t.second.c_str()); } if (o.arg(3)) { std::vector<const char *> h; for (size_t i = g.size(); i > 0; i -= 2) { h.push_back(g[i - 2]); h.push_back(g[i - 1]); } g = h; } }
    CancellationToken tok; addDataInElement(store ? "b" : "a", st.c_str(), r.id, v.data(), (int)v.size(), g.data(), (int)g.size(), l0, l1, onError, &tok); check("an import of an element");
    Quiet q; expect(store, {}, s, 1, 0, l0, l1); static std::vector<std::unique_ptr<std::vector<Rec>>> *kept = nullptr; if (!kept) kept = new std::vector<std::unique_ptr<std::vector<Rec>>>; kept->emplace_back(new std::vector<Rec>{r}); expect(store, *kept->back(), s, 1, 0, l0, l1); count("op.element");
  }
  int ask() { Quiet q; g_asks->emplace_back(); return (int)g_asks->size() - 1; }
  void same(const Out &o, const Rec &r, const std::string &where) {
    Tags t = r.tags; if (o.tags != t) { std::string s; for (auto &x : o.tags) s += x.first + "=" + x.second + ","; fail("wrong-tags", where + " delivers " + r.text() + " with tags " + s); }
    if (o.id != r.id && o.id) fail("wrong-element", where + " delivers " + r.text() + " with id " + std::to_string(o.id));
  }
  static bool sameCoords(const Out &o, const Rec &r) {
    std::vector<std::pair<double, double>> c, w = r.coords; for (size_t i = 0; i + 2 < o.v.size(); i += 3) c.push_back({o.v[i + 1], o.v[i]}); auto eq = [](const std::pair<double, double> &a, const std::pair<double, double> &b) { return std::fabs(a.first - b.first) < Tol && std::fabs(a.second - b.second) < Tol; };
    if (r.type == 'a') { auto open = [&](decltype(c) &x) { if (x.size() > 1 && eq(x[0], x.back())) x.pop_back(); }; open(c); open(w); }
    if (c.size() != w.size()) return false; for (size_t k = 0; k < (r.type == 'a' ? w.size() : 1); ++k) { bool ok = true; for (size_t i = 0; i < c.size() && ok; ++i) ok = eq(c[i], w[i]); if (ok) return true; std::rotate(w.begin(), w.begin() + 1, w.end()); } return false;
  }
  void request(const Op &o) {
    int i = (int)o.arg(0), s = (int)o.arg(1), ele = (int)o.arg(2) ? 2 : 0; int tag = ask(); std::string st; { Quiet q; st = styleFile(s); } auto k = tileAt(i); CancellationToken tok;
    getDataByQuadKey(tag, st.c_str(), k.tileX, k.tileY, k.levelOfDetail, ele, onMesh, onElement, onError, &tok); check("a request"); count("op.request");
    std::vector<Out> out; { Quiet q; out = (*g_asks)[tag].out; } std::string where; { Quiet q; where = nameOf(i) + " style " + std::to_string(s); }
    // heights first: they are asked from the engine
    for (auto &x : out) { Quiet q; bool rel = x.v.size() == 3 && x.v[0] == 0 && x.v[1] == 0; if (rel) continue; for (size_t c = 0; c + 2 < x.v.size(); c += 3) { double h = ele ? getElevationByQuadKey(k.tileX, k.tileY, k.levelOfDetail, ele, x.v[c + 1], x.v[c]) : 0; if (!(std::fabs(h - x.v[c + 2]) < 1e-6)) fail("wrong-height", where + " delivers element " + std::to_string(x.id) + " at height " + std::to_string(x.v[c + 2]) + " instead of " + std::to_string(h)); if (h) count("op.height"); } }
    Quiet q; std::map<std::string, std::vector<const Out *>> got; for (auto &x : out) got[tagOf(x.tags, "uid")].push_back(&x);
    std::map<std::string, std::vector<Held>> want; for (auto &h : held) for (auto &e : h[i]) want[tagOf(e.second.rec->tags, "uid")].push_back(e.second);
    for (auto &g : got) if (!want.count(g.first)) fail("extra-element", where + " delivers element " + std::to_string(g.second[0]->id) + " (uid " + g.first + ") which is not stored there");
    for (auto &w : want) { const Rec &r = *w.second[0].rec; bool sure = false; for (auto &h : w.second) sure = sure || h.sure; auto &gs = got[w.first]; std::map<std::string, std::string> d; std::set<std::string> b; sheet[s].apply(r, k.levelOfDetail, d, b);
      bool clipped = tagOf(r.tags, "cls") == "cut" && (r.type == 'w' || r.type == 'a') && !inside(r, boxOf(i));
      if (b.empty() && !gs.empty()) fail("extra-element", where + " delivers " + r.text() + " for which there is no builder");
      if (!clipped) { size_t n = b.size(); if (gs.size() > n || (sure && gs.size() < n)) fail(gs.size() < n ? "missing-element" : "extra-element", where + " delivers " + std::to_string(gs.size()) + " times instead of " + std::to_string(n) + " times " + r.text()); }
      for (auto g : gs) { same(*g, r, where);
        if (g->style != d) { std::string a, e; for (auto &x : g->style) a += x.first + ":" + x.second + ";"; for (auto &x : d) e += x.first + ":" + x.second + ";"; fail("wrong-style", where + " delivers " + r.text() + " with style " + a + " instead of " + e); }
        if (clipped) { auto x = boxOf(i); for (size_t c = 0; c + 2 < g->v.size(); c += 3) if (g->v[c] < x.minPoint.longitude - Edge || g->v[c] > x.maxPoint.longitude + Edge || g->v[c + 1] < x.minPoint.latitude - Edge || g->v[c + 1] > x.maxPoint.latitude + Edge) fail("wrong-geometry", where + " delivers a part of " + r.text() + " outside of the tile"); count("op.clipped"); }
        else if (r.type != 'r') { if (g->id != r.id) fail("wrong-element", where + " delivers " + r.text() + " with id " + std::to_string(g->id)); if (!sameCoords(*g, r)) fail("wrong-geometry", where + " delivers other coordinates (" + std::to_string(g->v.size() / 3) + ") for " + r.text()); count("op.styled"); } else count("op.relation"); }
      if (gs.empty() && !d.empty()) count("op.unbuilt"); }
    std::string h; for (auto &g : got) h += g.first + std::to_string(g.second.size()); cover(hashBytes(h.data(), h.size(), 3));
  }
  void text(const Op &o) {
    std::vector<const Rec *> all; for (auto &r : data.recs) all.push_back(&r); for (auto &r : data.singles) all.push_back(&r); const Rec &r = *all[o.arg(0) % all.size()]; int mode = (int)o.arg(1), l0 = (int)o.arg(5), l1 = (int)o.arg(6); int tag = ask();
    std::string uid, none = mode == 2 ? "cafe" : ""; BoundingBox b; { Quiet q; uid = tagOf(r.tags, "uid"); b = boxOf(4); for (int i = 0; i < Tiles; ++i) b.expand(boxOf(i)); } CancellationToken tok; double e = 1e-6;
    getDataByText(tag, none.c_str(), mode == 1 ? "" : uid.c_str(), mode == 1 ? uid.c_str() : "", b.minPoint.latitude + e, b.minPoint.longitude + e, b.maxPoint.latitude - e, b.maxPoint.longitude - e, l0, l1, onElement, onError, &tok); check("a search"); count("op.search");
    Quiet q; bool no = false; if (mode == 2) no = words(r).count("cafe") > 0;
    int must = 0, may = 0; for (auto &h : held) for (auto &t : h) { int z = tileAt(t.first).levelOfDetail; if (z < l0 || z > l1) continue; auto x = t.second.find(r.id); if (x != t.second.end()) { ++may; must += x->second.sure; } } if (no) must = may = 0;
    auto &out = (*g_asks)[tag].out; std::string where = "a search for " + uid; if (out.empty() && must) fail("missing-element", where + " does not find " + r.text()); if (!out.empty() && !may) fail("extra-element", where + " finds element " + std::to_string(out[0].id));
    bool clipped = tagOf(r.tags, "cls") == "cut"; 
    for (auto &x : out) { if (!x.style.empty()) fail("wrong-style", where + " delivers a style"); for (size_t c = 2; c < x.v.size(); c += 3) if (x.v[c] != 0) fail("wrong-height", where + " delivers a height"); if (x.id != r.id) fail("wrong-element", where + " delivers element " + std::to_string(x.id) + " instead of " + r.text()); if (clipped && x.tags.empty()) continue; same(x, r, where); if (!clipped && r.type != 'r' && !sameCoords(x, r)) fail("wrong-geometry", where + " delivers other coordinates for " + r.text()); count("op.found"); }
  }
  void has(const Op &o) { int i = (int)o.arg(0); auto k = tileAt(i); bool h = hasData(k.tileX, k.tileY, k.levelOfDetail); Quiet q; bool sure = false, any = false; for (auto &x : held) for (auto &e : x[i]) { any = true; sure = sure || e.second.sure; } if (h && !any) fail("phantom-data", nameOf(i) + " reports data although nothing was imported there"); if (!h && sure) fail("missing-data", nameOf(i) + " reports no data"); count("op.has"); }
  void one(const Op &o) {
    if (o.kind == "import") import(o); else if (o.kind == "single") single(o); else if (o.kind == "request") request(o); else if (o.kind == "text") text(o); else if (o.kind == "has") has(o);
    else if (o.kind == "restart") { disconnect(); { Quiet q; held[1].clear(); if (!pers) held[0].clear(); } open(); count("op.restart"); }
  }
  void all() {
    files(); int phases = (int)p.p("phases");
    runTasks({[&] { open(); }});
    for (int f = 0; f < phases; ++f) {
      runTasks({[&] { for (auto &o : p.ops) if (o.task == f * 10) one(o); }});
      std::vector<std::function<void()>> bodies; for (int t = 1; t <= 3; ++t) { bool any = false; for (auto &o : p.ops) any = any || o.task == f * 10 + t; if (any) bodies.push_back([&, f, t] { for (auto &o : p.ops) if (o.task == f * 10 + t) one(o); }); }
      setSchedule((int)p.p("strategy", 1), p.p("strategy", 1) == 2 ? (double)p.p("switch", 20) : p.p("switch", 20) / 1000.0); race::enable(true); runTasks(bodies); race::enable(false); setSchedule(0, 0);
    }
    runTasks({[&] { for (int i = 0; i < Tiles; ++i) { one({0, "has", {i}}); one({0, "request", {i, i % 2, i % 3 == 0}}); } disconnect(); if (fs::openHandles()) fail("handle-leak", "files stay open after the engine was shut down"); }});
  }
};
void gen(Rng &r, Plan &p) {
  p.par["pers"] = r.chance(0.6); p.par["data"] = r.below(1000000); p.par["sheet"] = r.below(1000000); int phases = (int)r.range(1, 2); p.par["phases"] = phases; p.par["strategy"] = r.range(1, 2); p.par["switch"] = p.par["strategy"] == 2 ? r.range(20, 600) : r.range(5, 200);
  auto lods = [&](std::vector<long long> v) { int l0 = (int)r.range(15, 16); v.push_back(l0); v.push_back(r.range(l0, 16)); return v; };
  for (int f = 0; f < phases; ++f) {
    if (f && r.chance(0.5)) p.op(f * 10, "restart");
    for (int i = (int)r.range(1, 3); i > 0; --i) p.op(f * 10, r.chance(0.25) ? "single" : "import", lods({r.chance(0.3), r.below(2), r.below(2), r.below(3), r.below(Tiles)}));
    if (r.chance(0.5)) p.op(f * 10, "single", lods({r.chance(0.3), r.below(2), r.below(3), r.below(2), 0}));
    for (int t = 1, n = (int)r.range(1, 3); t <= n; ++t) for (int i = (int)r.range(1, 4); i > 0; --i) { int k = (int)r.below(10); if (k < 7) p.op(f * 10 + t, "request", {r.chance(0.4) ? 4 : r.below(Tiles), r.below(2), r.below(2)}); else if (k < 9) p.op(f * 10 + t, "text", lods({r.below(12), r.below(3), 0, 0, 0})); else p.op(f * 10 + t, "has", {r.below(Tiles)}); }
  }
  if (r.chance(0.5)) p.faults.push_back({"read_partial:/sim", r.range(1, 30), r.range(1, 50), r.range(1, 999)});
}
void exec(Plan &p) { g_asks = new std::vector<Ask>; g_asks->reserve(4096); g_error = new std::string; Run r(p); r.all(); }
Registrar a("delivery", gen, exec);
}
